import copy

from .core import group
from .cbv import *


def bl(n, a):
    return [(a >> i) & 1 for i in range(n)]


def val(bits):
    return int(''.join('1' if b else '0' for b in reversed(bits)) or '0', 2)


class Cell:
    """shadow of one vector object (shared by all its aliases)"""
    __slots__ = ('v', 'bits', 'T')
    def __init__(self, v, bits):
        self.v, self.bits, self.T = v, bits, type(v)


# operations giving a new vector of the same type: (name, apply, model)
OPS = [
    ('copy', lambda T, x, y: T(x), lambda n, a, b: a),
    ('copy.copy', lambda T, x, y: copy.copy(x), lambda n, a, b: a),
    ('copy.deepcopy', lambda T, x, y: copy.deepcopy(x), lambda n, a, b: a),
    ('deepcopied list', lambda T, x, y: copy.deepcopy([y, x])[1], lambda n, a, b: a),
    ('make_constant', lambda T, x, y: x.make_constant(x), lambda n, a, b: a),
    ('x >> 0', lambda T, x, y: x.bvlshr(0), lambda n, a, b: a),
    ('x << 0', lambda T, x, y: x << 0, lambda n, a, b: a),
    ('x ashr 0', lambda T, x, y: x.bvashr(0), lambda n, a, b: a),
    ('x + 0', lambda T, x, y: x + 0, lambda n, a, b: a),
    ('0 + x', lambda T, x, y: 0 + x, lambda n, a, b: a),
    ('x - 0', lambda T, x, y: x - 0, lambda n, a, b: a),
    ('x * 1', lambda T, x, y: x * 1, lambda n, a, b: a),
    ('x | 0', lambda T, x, y: x | 0, lambda n, a, b: a),
    ('x & -1', lambda T, x, y: x & -1, lambda n, a, b: a),
    ('x ^ 0', lambda T, x, y: x ^ 0, lambda n, a, b: a),
    ('x & x', lambda T, x, y: x & x, lambda n, a, b: a),
    ('x | x', lambda T, x, y: x | x, lambda n, a, b: a),
    ('x // 1', lambda T, x, y: x.bvudiv(1), lambda n, a, b: a // (1 & mask(n))),
    ('x urem 0', lambda T, x, y: x.bvurem(0), lambda n, a, b: a),
    ('x srem 0', lambda T, x, y: x.bvsrem(0), lambda n, a, b: a),
    ('x % 0', lambda T, x, y: x % 0, lambda n, a, b: a),
    ('x udiv 0', lambda T, x, y: x.bvudiv(0), lambda n, a, b: mask(n)),
    ('~~x', lambda T, x, y: ~~x, lambda n, a, b: a),
    ('--x', lambda T, x, y: -(-x), lambda n, a, b: a),
    ('x[:]', lambda T, x, y: x[:], lambda n, a, b: a),
    ('zext 0', lambda T, x, y: x.zext(0), lambda n, a, b: a),
    ('sext 0', lambda T, x, y: x.sext(0), lambda n, a, b: a),
    ('ext 0', lambda T, x, y: x.ext(0), lambda n, a, b: a),
    ('repeat 1', lambda T, x, y: x.repeat(1), lambda n, a, b: a),
    ('rol 0', lambda T, x, y: x.bvrol(0), lambda n, a, b: a),
    ('ror n', lambda T, x, y: x.bvror(0), lambda n, a, b: a),
    ('concat empty', lambda T, x, y: x.concat(T.unsized_t[0](0)), lambda n, a, b: a),
    ('ite 1', lambda T, x, y: Bit(1).ite(x, y), lambda n, a, b: a),
    ('ite 0', lambda T, x, y: Bit(0).ite(y, x), lambda n, a, b: a),
    ('x.ite', lambda T, x, y: x.ite(x, y), lambda n, a, b: a if a else b),
    ('ite tuple', lambda T, x, y: Bit(0).ite((y, Bit(0)), (x, Bit(1)))[0], lambda n, a, b: a),
    ('adc 0', lambda T, x, y: x.adc(T(0), Bit(0))[0], lambda n, a, b: a),
    ('from bits', lambda T, x, y: T(x.bits()), lambda n, a, b: a),
    ('x + y', lambda T, x, y: x + y, lambda n, a, b: a + b),
    ('x - y', lambda T, x, y: x - y, lambda n, a, b: a - b),
    ('x & y', lambda T, x, y: x & y, lambda n, a, b: a & b),
    ('x | y', lambda T, x, y: x | y, lambda n, a, b: a | b),
    ('x ^ y', lambda T, x, y: x ^ y, lambda n, a, b: a ^ b),
    ('x * y', lambda T, x, y: x * y, lambda n, a, b: a * b),
    ('x urem y', lambda T, x, y: x.bvurem(y), lambda n, a, b: a % b if b else a),
    ('x udiv y', lambda T, x, y: x.bvudiv(y), lambda n, a, b: a // b if b else mask(n)),
    ('x nand y', lambda T, x, y: x.bvnand(y), lambda n, a, b: ~(a & b)),
]


OTHER = ('make_constant', 'x[:]', 'zext 0', 'sext 0', 'ext 0', 'repeat 1', 'rol 0', 'ror n', 'concat empty', 'adc 0')
SAME = [o for o in OPS if o[0] not in OTHER]    # what a class derived from a sized type has


def audit(ctx, cells, after):
    for c in cells:
        want = val(c.bits)
        if c.v.as_uint() != want or type(c.v) is not c.T:
            ctx.check(False, f'state after {after.split(":")[0]}',
                      f'{after}: {c.T.__name__} reads {c.v.as_uint():#x}, its writes give {want:#x}')
        ctx.ev((c.T.__name__, want), 'state')
    by = {}
    for c in cells:
        by.setdefault((c.T, val(c.bits)), []).append(c)
    for (T, w), cs in by.items():
        for c in cs[1:]:
            ctx.check(bool(cs[0].v == c.v) and hash(cs[0].v) == hash(c.v), 'equal vectors differ in ==/hash',
                      f'{T.__name__} {w:#x} after {after}')


class Flag(Bit):
    pass


class Nat(int):
    pass


def bitform(rng):
    b = rng.getrandbits(1)
    return b, rng.choice((b, bool(b), Bit(b), Bit(b), Flag(b), Nat(b)))


@group(900, 20000)
def history(ctx, rng):
    n = width_like(rng, (1, 2, 3, 4, 8, 16, 33, 64, 100))
    K, T = pick_any(rng, n)
    cells = []
    for _ in range(3):
        a = value(rng, n)
        cells.append(Cell(T(a), bl(n, a)))
    steps = rng.randint(15, 40)
    log = []
    for _ in range(steps):
        r = rng.random()
        c, d = rng.choice(cells), rng.choice(cells)
        if r < .40:
            i = rng.randrange(-n, n)
            b, form = bitform(rng)
            c.v[rng.choice((i, Nat(i), bool(i) if i in (0, 1) else i))] = form
            c.bits[i] = b
            after = f'write: v[{i}] = {form!r}'
            ctx.ev((n, i, b, val(c.bits)), 'write')
        elif r < .75:
            name, f, m = rng.choice(OPS if T is K[n] else SAME)
            x = f(T, c.v, d.v)
            want = m(n, val(c.bits), val(d.bits)) & mask(n)
            ctx.check(type(x) is T and x.as_uint() == want, f'result of {name}', f'{T.__name__} {x!r} {want:#x}')
            ctx.check(all(x is not e.v for e in cells), f'{name} returns an existing object', T.__name__)
            cells.append(Cell(x, bl(n, want)))
            after = f'operation: {name}'
        elif r < .85:                       # write through a result at once
            name, f, m = rng.choice(OPS if T is K[n] else SAME)
            x = f(T, c.v, d.v)
            want = bl(n, m(n, val(c.bits), val(d.bits)) & mask(n))
            i = rng.randrange(n)
            x[i] = not want[i]
            want[i] ^= 1
            cells.append(Cell(x, want))
            after = f'write to the result of {name}'
        elif r < .90:                       # augmented assignment rebinds
            v = c.v
            v += 1
            w = c.v
            w ^= d.v
            after = 'augmented assignment'
        elif r < .95:
            bad_write(ctx, rng, c, n)
            after = 'rejected write'
        else:                               # lists handed out are copies
            l = c.v.bits()
            l[:] = [1 - x for x in l]
            l = c.v.as_bool_list()
            l.clear()
            s = [int(b) for b in bl(n, 5 & mask(n))]
            x = T(s)
            s[0] ^= 1
            cells.append(Cell(x, bl(n, 5 & mask(n))))
            after = 'external list changed'
        log.append(after)
        audit(ctx, cells, after)
        if len(cells) > 14:
            del cells[rng.randrange(len(cells))]
    ctx.sample(f'{T.__name__}: ' + '; '.join(log[:6]))


def bad_write(ctx, rng, c, n):
    i = rng.randrange(n)
    for idx, v, exc in ((n, 1, IndexError), (-n - 1, 1, IndexError), (n + 5, Bit(1), IndexError),
                        (i, 2, ValueError), (i, -1, ValueError), (i, None, ValueError),
                        (i, '1', ValueError), (i, BitVector[1](1), ValueError), (i, 1.0, ValueError),
                        (slice(0, 1), 1, NotImplementedError), (slice(None), [1] * n, NotImplementedError)):
        before = c.v.as_uint()
        def put(): c.v[idx] = v
        ctx.raises(exc, put, 'bad write accepted', f'v[{idx}] = {v!r}')
        ctx.eq(c.v.as_uint(), before, 'rejected write changed the vector', f'v[{idx}] = {v!r}')
        ctx.ev((n, str(idx), repr(v)), 'rejected')


@group(12, 24)
def single_writes(ctx, rng):
    """all writes to all small vectors"""
    K = KINDS[ctx.case % len(KINDS)]
    for n in range(1, 5 + ctx.case // len(KINDS)):
        T = K[n]
        for a in range(1 << n):
            for i in range(-n, n):
                for b in (0, 1):
                    for form in (b, bool(b), Bit(b)):
                        v, other = T(a), T(a)
                        v[i] = form
                        bits = bl(n, a)
                        bits[i] = b
                        check_bv(ctx, v, T, val(bits), 'single write')
                        check_bv(ctx, other, T, a, 'unrelated vector')
                        ctx.ev((n, a, i, b))
    ctx.sample(f'{K.__name__}: all writes up to width {n}')


@group(300, 6000)
def wide_writes(ctx, rng):
    n = width(rng)
    K, T = pick_any(rng, n)
    a = value(rng, n)
    v, bits, keep = T(a), bl(n, a), T(a)
    for _ in range(20):
        i = rng.choice((0, -1, n - 1, -n, rng.randrange(-n, n)))
        b, form = bitform(rng)
        v[i] = form
        bits[i] = b
        check_bv(ctx, v, T, val(bits), 'write')
        ctx.check(bool(v[i]) is bool(b), 'bit read back', (n, i))
        ctx.ev((n, i, b, val(bits)))
    check_bv(ctx, keep, T, a, 'unrelated vector')
    ctx.sample(f'{T.__name__}')


@group(60, 600)
def hashing(ctx, rng):
    """vectors as keys: equal vectors of one type find each other however built"""
    n = width(rng, hi=80)
    K, T = pick_any(rng, n)
    vals = [value(rng, n) for _ in range(20)]
    table = {}
    for a in vals:
        table[T(a)] = a
    ctx.eq(len(table), len(set(vals)), 'number of dictionary keys', T.__name__)
    for a in vals:
        for w in (T(sgn(n, a)), T(bl(n, a)), ~~T(a), T(a) + 0, T(a)[:] if T is K[n] else -(-T(a))):
            ctx.eq(table.get(w), a, 'dictionary lookup', (T.__name__, a))
            ctx.ev((n, a))
    w = T(vals[0])
    i = rng.randrange(n)
    w[i] = not w[i]
    w[i] = not w[i]
    ctx.eq(table.get(w), vals[0], 'lookup after writes that cancel', T.__name__)
    ctx.sample(f'{T.__name__} {vals[:3]}')
