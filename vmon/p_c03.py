from .core import group
from .cbv import *


def bl(n, a):
    return [(a >> i) & 1 for i in range(n)]


def val(bits):
    return int(''.join('1' if b else '0' for b in reversed(bits)) or '0', 2)


def index(ctx, K, T, n, a):
    v, bits = T(a), bl(n, a)
    for i in range(-n, n):
        check_bit(ctx, v[i], bits[i], 'index', lambda: f'{T.__name__}({a:#x})[{i}]')
        ctx.ev(('idx', n, a, i), 'index')
    for i in (n, n + 1, -n - 1, -n - 2, 2 * n + 5, -3 * n - 7):
        ctx.raises(IndexError, lambda: v[i], 'index out of range accepted', f'{T.__name__}[{i}]')


def slice_(ctx, K, T, n, a, s):
    bits = bl(n, a)[s]
    r = T(a)[s]
    check_bv(ctx, r, K[len(bits)], val(bits), f'slice {s.step}' if s.step in (None, 1) else 'stepped slice')
    ctx.ev(('slice', n, a, s.start, s.stop, s.step), 'slice')


@group(18, 36)
def exhaustive(ctx, rng):
    """all indices, slices and counts of small vectors"""
    K = KINDS[ctx.case % len(KINDS)]
    n = ctx.case // len(KINDS) + 1
    T = K[n]
    rngs = [None] + list(range(-n - 1, n + 2))
    for a in range(1 << n):
        index(ctx, K, T, n, a)
        for i in rngs:
            for j in rngs:
                slice_(ctx, K, T, n, a, slice(i, j))
        for k in (2, 3, -1, -2):
            slice_(ctx, K, T, n, a, slice(rng.choice(rngs), rng.choice(rngs), k))
        extend(ctx, K, T, n, a, range(0, 4))
        rotate(ctx, K, T, n, a, range(0, 1 << n))
    ctx.sample(f'{T.__name__}: all indices, slices, rotations')


def extend(ctx, K, T, n, a, counts):
    v = T(a)
    top = (a >> (n - 1)) & 1
    for k in counts:
        check_bv(ctx, v.zext(k), K[n + k], a, 'zext')
        s = a | (mask(k) << n if top else 0)
        check_bv(ctx, v.sext(k), K[n + k], s, 'sext')
        check_bv(ctx, v.ext(k), K[n + k], s if signed(K) else a, 'ext of ' + ('signed' if signed(K) else 'unsigned'))
        if k:
            check_bv(ctx, v.repeat(k), K[n * k], val(bl(n, a) * k), 'repeat')
        ctx.ev(('ext', n, a, k), 'extend')
    for f in (v.zext, v.sext, v.ext):
        ctx.raises(ValueError, lambda: f(-1), 'negative extension accepted', T.__name__)
    for k in (0, -1):
        ctx.raises(ValueError, lambda: v.repeat(k), 'repeat count accepted', (T.__name__, k))
    ctx.check(v.as_uint() == a, 'operand changed', T.__name__)


def rotate(ctx, K, T, n, a, amounts):
    v = T(a)
    for k in amounts:
        for form in (T(k), k):
            for op, f in ROT.items():
                check_bv(ctx, getattr(v, op)(form), T, f(n, a, k & mask(n)) & mask(n), op)
            ctx.ev(('rot', n, a, k), 'rotate')


@group(2500, 60000)
def wide(ctx, rng):
    n = width(rng, hi=600)
    K, T = pick_type(rng, n)
    a = value(rng, n)
    v, bits = T(a), bl(n, a)
    for _ in range(6):
        i = rng.choice((rng.randrange(-n, n), 0, n - 1, -1, -n))
        check_bit(ctx, v[i], bits[i], 'index', f'{T.__name__}({a:#x})[{i}]')
    for i in (n, -n - 1):
        ctx.raises(IndexError, lambda: v[i], 'index out of range accepted', f'{T.__name__}[{i}]')
    for _ in range(5):
        pt = lambda: rng.choice((None, 0, n, -1, rng.randint(-n - 3, n + 3), rng.randint(0, n)))
        slice_(ctx, K, T, n, a, slice(pt(), pt(), rng.choice((None, None, 1, 2, 5, -1, -3))))
    k = rng.choice((0, 1, 2, min(n, 1200 // n), rng.randint(0, min(70, 1200 // n))))
    extend(ctx, K, T, n, a, (k,))
    rotate(ctx, K, T, n, a, (shift_amount(rng, n), shift_amount(rng, n)))
    ctx.sample(f'{T.__name__}({a:#x})')


@group(1500, 30000)
def concat(ctx, rng):
    n, m = width(rng, hi=300), width(rng, hi=300)
    K = rng.choice(KINDS)
    a, b = value(rng, n), value(rng, m)
    if rng.random() < .1:
        m, b = 0, 0
    A, B = K[n](a), K[m](b)
    check_bv(ctx, A.concat(B), K[n + m], a | b << n, 'concat')
    ctx.check(A.as_uint() == a and B.as_uint() == b, 'operand changed', 'concat')
    # a subkind may be concatenated above its base kind
    for base, sub in ((BitVector, UIntVector), (UIntVector, CountVector), (SIntVector, DeltaVector)):
        check_bv(ctx, base[n](a).concat(sub[m](b)), base[n + m], a | b << n, 'concat with subkind')
        ctx.raises(TypeError, lambda: sub[n](a).concat(base[m](b)), 'concat of unrelated kinds', (base, sub))
    for bad in (b, True, Bit(1), 'ab', None, [1]):
        ctx.raises(TypeError, lambda: A.concat(bad), 'concat of a non-vector', bad)
    # split and rejoin at every kind of cut
    c = rng.randint(0, n)
    ctx.check(bool(A[:c].concat(A[c:]) == A), 'split/concat', f'{n} {c} {a:#x}')
    r = A.concat(B)
    check_bv(ctx, r[:n], K[n], a, 'low part of concat')
    check_bv(ctx, r[n:], K[m], b, 'high part of concat')
    ctx.ev((n, m, a, b))
    ctx.sample(f'{K.__name__}: {n} bits with {m} bits')


@group(400, 6000)
def shuffles(ctx, rng):
    """histories of structural operations against a bit list"""
    n = rng.randint(1, 24)
    K = rng.choice(KINDS)
    a = value(rng, n)
    v, bits = K[n](a), bl(n, a)
    for _ in range(12):
        op = rng.choice(('slice', 'zext', 'sext', 'ext', 'repeat', 'rol', 'ror', 'cat'))
        n = len(bits)
        if op == 'slice':
            s = slice(rng.choice((None, rng.randint(-n, n))), rng.choice((None, rng.randint(-n, n))),
                      rng.choice((None, None, -1, 2)))
            if not bits[s]:
                continue
            v, bits = v[s], bits[s]
        elif op in ('zext', 'sext', 'ext'):
            k = rng.randint(0, 4)
            fill = 0 if op == 'zext' or (op == 'ext' and not signed(K)) else bits[-1]
            v, bits = getattr(v, op)(k), bits + [fill] * k
        elif op == 'repeat' and n < 60:
            k = rng.randint(1, 3)
            v, bits = v.repeat(k), bits * k
        elif op in ('rol', 'ror'):
            k = rng.randint(0, mask(min(n, 10)))
            j = k % n if op == 'ror' else (n - k % n) % n
            v, bits = getattr(v, 'bv' + op)(k), bits[j:] + bits[:j]
        else:
            m = rng.randint(1, 8)
            b = rng.getrandbits(m)
            v, bits = v.concat(K[m](b)), bits + bl(m, b)
        check_bv(ctx, v, K[len(bits)], val(bits), f'history ending in {op}')
        ctx.ev((op, len(bits), val(bits)))
    ctx.sample(f'{K.__name__} ending with {len(bits)} bits')


class Nat(int):
    """an int of the user's own"""


@group(400, 6000)
def numbers_of_other_types(ctx, rng):
    """indices and counts given as int subclasses, bools, vectors and bits"""
    n = width(rng, hi=120)
    K, T = pick_type(rng, n)
    a = value(rng, n)
    v, bits = T(a), bl(n, a)
    i = rng.randrange(-n, n)
    check_bit(ctx, v[Nat(i)], bits[i], 'index of an int subclass', (T.__name__, i))
    check_bit(ctx, v[False], bits[0], 'index False', T.__name__)
    if n > 1:
        check_bit(ctx, v[True], bits[1], 'index True', T.__name__)
    for j in (n, -n - 1):
        ctx.raises(IndexError, lambda: v[Nat(j)], 'index out of range accepted', (T.__name__, j))
    j = rng.randint(-n, n)
    r = bits[i:j]
    check_bv(ctx, v[Nat(i):Nat(j)], K[len(r)], val(r), 'slice by int subclasses')
    for bad in ('0', None, 1.0, (0,), BitVector[4](1).bits):
        ctx.raises(TypeError, lambda: v[bad], 'index of another type accepted', repr(bad))
    k = rng.randint(0, 7)
    top = bits[-1]
    sx = a | (mask(k) << n if top else 0)
    for c in (Nat(k), BitVector[5](k), UIntVector[3](k), SIntVector[4](k), k):
        check_bv(ctx, v.zext(c), K[n + k], a, 'zext by a number')
        check_bv(ctx, v.sext(c), K[n + k], sx, 'sext by a number')
        check_bv(ctx, v.ext(c), K[n + k], sx if signed(K) else a, 'ext by a number')
        if k:
            check_bv(ctx, v.repeat(c), K[n * k], val(bits * k), 'repeat by a number')
        ctx.ev((n, a, k, type(c).__name__))
    for c in (True, Bit(1)):
        check_bv(ctx, v.zext(c), K[n + 1], a, 'zext by one')
        check_bv(ctx, v.sext(c), K[n + 1], a | top << n, 'sext by one')
        check_bv(ctx, v.repeat(c), T, a, 'repeat by one')
    for c in (SIntVector[4](-1), SIntVector[9](-k - 1), Nat(-1)):
        for f in (v.zext, v.sext, v.ext, v.repeat):
            ctx.raises(ValueError, lambda: f(c), 'negative count accepted', (T.__name__, repr(c)))
    for c in (Bit(0), False, UIntVector[4](0)):
        ctx.raises(ValueError, lambda: v.repeat(c), 'repeat count accepted', (T.__name__, repr(c)))
    _, TB = pick_type(rng, n)
    m = shift_amount(rng, n)
    for form in (TB(m), Nat(m), bl(n, m), m - (1 << n), tuple(bl(n, m)), v):
        q = a if form is v else m
        for op, f in ROT.items():
            check_bv(ctx, getattr(v, op)(form), T, f(n, a, q) & mask(n), f'{op} by a number')
        ctx.ev((n, a, m, type(form).__name__))
    ctx.raises(Exception, lambda: v.bvrol(K[n + 1](1)), 'rotation by another width', T.__name__)
    ctx.check(v.as_uint() == a, 'operand changed', T.__name__)
    check_bv(ctx, v.concat(v), K[2 * n], a | a << n, 'concat with itself')
    ctx.sample(f'{T.__name__}({a:#x}) by {k}, {m}')


@group(120, 1500)
def zero_width(ctx, rng):
    """vectors without bits are operands like any other"""
    K = KINDS[ctx.case % len(KINDS)]
    n, a = width(rng, hi=40), 0
    a = value(rng, n)
    v = K[n](a)
    Z = K[0]
    i = rng.randint(0, n)
    for z in (Z(0), Z(rng.randint(0, 9)), v[i:i], v[n:], v[:0], Z([]), v[i:i][:], Z(0).concat(v[:0])):
        check_bv(ctx, z, Z, 0, 'vector without bits')
        ctx.check(len(z) == 0 and z.bits() == [] and z.as_bool_list() == [] and z.binary_string() == '', 'bits of a vector without bits',
                  lambda: f'{Z.__name__}: {z.bits()}')
        for j in (0, -1, 1):
            ctx.raises(IndexError, lambda: z[j], 'index out of range accepted', Z)
        for s in (slice(None), slice(0, 3), slice(-2, None), slice(None, None, -1), slice(None, None, 2)):
            check_bv(ctx, z[s], Z, 0, 'slice of a vector without bits')
        check_bv(ctx, z.zext(n), K[n], 0, 'zext of a vector without bits')
        check_bv(ctx, z.repeat(rng.randint(1, 5)), Z, 0, 'repeat of a vector without bits')
        check_bv(ctx, z.concat(v), K[n], a, 'concat with a vector without bits')
        check_bv(ctx, v.concat(z), K[n], a, 'concat with a vector without bits')
        check_bv(ctx, z.concat(z), Z, 0, 'concat of two vectors without bits')
        ctx.ev((K.__name__, n, a, i))
    ctx.sample(f'{Z.__name__} with {n} bits')


@group(80, 600)
def empty(ctx, rng):
    K, T = pick_type(rng, 0)
    x, k = T(0), rng.choice((0, 1, 2, 9, 64, 65))
    for f in ('zext', 'sext', 'ext'):
        check_bv(ctx, getattr(x, f)(k), K[k], 0, f'{f} of an empty vector')
    check_bv(ctx, x.repeat(max(k, 1)), T, 0, 'repeat of an empty vector')
    for f in ('bvrol', 'bvror'):
        check_bv(ctx, getattr(x, f)(T(k)), T, 0, f'{f} of an empty vector')
    v = rng.getrandbits(k)
    check_bv(ctx, x.concat(K[k](v)), K[k], v, 'concat to an empty vector')
    check_bv(ctx, K[k](v).concat(x), K[k], v, 'concat of an empty vector')
    for s in (slice(None), slice(0, 0), slice(1, 5), slice(None, None, -1), slice(-3, 2)):
        check_bv(ctx, x[s], T, 0, 'slice of an empty vector')
    for i in (0, -1, 1):
        ctx.raises(IndexError, lambda: x[i], 'index into an empty vector', i)
    ctx.ev((T.__name__, k))
    ctx.sample(f'{T.__name__} with {k}')
