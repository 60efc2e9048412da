from .core import group
from .cbv import *


def readings(ctx, v, T, K, n, a):
    S = sgn(n, a)
    w = lambda: f'{T.__name__} pattern {a:#x}'
    ctx.eq(v.as_uint(), a, 'as_uint', w)
    ctx.eq(v.as_sint(), S, 'as_sint', w)
    ctx.eq(v.as_int(), S, 'as_int', w)
    ctx.eq(int(v), S if signed(K) else a, 'int() of ' + ('signed' if signed(K) else 'unsigned'), w)
    ctx.check(bool(v) is (a != 0), 'truth value', w)
    bits = [(a >> i) & 1 for i in range(n)]
    ctx.eq([int(b) for b in v.bits()], bits, 'bits()', w)
    ctx.eq(v.as_bool_list(), [bool(b) for b in bits], 'as_bool_list()', w)
    ctx.eq([bool(b) for b in v], [bool(b) for b in bits], 'iteration', w)
    text = format(a, f'0{n}b')
    ctx.eq(v.binary_string(), text, 'binary_string()', w)
    ctx.eq(v.as_binary_string(), '0b' + text, 'as_binary_string()', w)
    ctx.check(len(v) == n == v.size == v.num_bits, 'length', w)
    ctx.eq(str(v), str(int(v)), 'str()', w)
    ctx.ev(('read', n, a, signed(K)), 'reading')


def compare(ctx, K, T, n, a, b):
    A, B = T(a), T(b)
    for op, f in CMP.items():
        check_bit(ctx, getattr(A, op)(B), f(n, a, b), op, lambda: f'{T.__name__} {a:#x} {op} {b:#x}')
        ctx.ev((op, n, a, b), 'method')
    for sym, ops in INFIX_CMP.items():
        want = CMP[ops[signed(K)]](n, a, b)
        check_bit(ctx, PYOP[sym](A, B), want, f'infix {sym} on {"signed" if signed(K) else "unsigned"}',
                  lambda: f'{T.__name__} {a:#x} {sym} {b:#x}')
        ctx.ev((sym, n, a, b), 'infix')
    if T is K[n]:
        r = A.bvcomp(B)
        check_bv(ctx, r, K[1], int(a == b), 'bvcomp')
    ctx.check(A.as_uint() == a and B.as_uint() == b, 'operand changed', f'{T.__name__}')


@group(18, 30)
def exhaustive(ctx, rng):
    K = KINDS[ctx.case % len(KINDS)]
    n = ctx.case // len(KINDS) + 1
    T = K[n]
    for a in range(1 << n):
        readings(ctx, T(a), T, K, n, a)
        for b in range(1 << n):
            compare(ctx, K, T, n, a, b)
    ctx.sample(f'{T.__name__}: all operand pairs')


@group(2500, 80000)
def wide(ctx, rng):
    n = width(rng)
    K, T = pick_any(rng, n)
    for _ in range(2):
        a, b = pair(rng, n)
        compare(ctx, K, T, n, a, b)
    readings(ctx, T(a), T, K, n, a)
    ctx.sample(f'{T.__name__} a={a:#x} b={b:#x}')


@group(600, 8000)
def mixed(ctx, rng):
    """vector against int / list / other kind; the named forms between kinds"""
    n = width(rng, hi=130)
    K, T = pick_any(rng, n)
    a, b = pair(rng, n)
    A = T(a)
    _, TB = pick_any(rng, n)
    for op, f in CMP.items():
        check_bit(ctx, getattr(A, op)(TB(b)), f(n, a, b), f'{op} between kinds',
                  f'{T.__name__} {a:#x} {TB.__name__} {b:#x}')
    form = rng.choice((b, sgn(n, b), b + (1 << n), [(b >> i) & 1 for i in range(n)]))
    for sym, ops in INFIX_CMP.items():
        want = CMP[ops[signed(K)]](n, a, b)
        check_bit(ctx, PYOP[sym](A, form), want, f'{sym} with constant', f'{T.__name__} {a:#x} {sym} {form!r}')
        # reflected: const sym vector
        want = CMP[ops[signed(K)]](n, b, a)
        check_bit(ctx, PYOP[sym](form, A), want, f'constant {sym} vector', f'{form!r} {sym} {T.__name__} {a:#x}')
        ctx.ev((sym, n, a, b, type(form).__name__))
    ctx.sample(f'{T.__name__} {a:#x} with {form!r}')


@group(120, 2000)
def sorting(ctx, rng):
    """comparisons drive an algorithm: insertion sort and min/max by <"""
    n = width(rng, hi=70)
    K, T = pick_any(rng, n)
    vals = [value(rng, n) for _ in range(12)]
    key = (lambda v: sgn(n, v)) if signed(K) else (lambda v: v)
    out = sorted(map(T, vals))
    ctx.eq([v.as_uint() for v in out], sorted(vals, key=key), 'sorted()', f'{T.__name__} {vals}')
    ctx.eq(max(map(T, vals)).as_uint(), max(vals, key=key), 'max()', f'{T.__name__} {vals}')
    ctx.eq(min(map(T, vals)).as_uint(), min(vals, key=key), 'min()', f'{T.__name__} {vals}')
    ctx.ev((n, tuple(vals)))
    ctx.sample(f'{T.__name__} {vals}')


@group(4, 16)
def bit_logic(ctx, rng):
    """complete truth tables, every operand form on either side"""
    class Truthy:
        def __init__(self, v): self.v = v
        def __bool__(self): return self.v
    table = {'&': lambda a, b: a & b, '|': lambda a, b: a | b, '^': lambda a, b: a ^ b,
             '==': lambda a, b: a == b, '!=': lambda a, b: a != b}
    for a in (0, 1):
        check_bit(ctx, ~Bit(a), not a, 'Bit ~')
        ctx.check(bool(Bit(a)) is bool(a) and int(Bit(a)) == a, 'Bit reading', a)
        for b in (0, 1):
            for sym, f in table.items():
                for form in (Bit(b), bool(b), b):
                    check_bit(ctx, PYOP[sym](Bit(a), form), f(a, b), f'Bit {sym}', f'Bit({a}) {sym} {form!r}')
                    check_bit(ctx, PYOP[sym](form, Bit(a)), f(b, a), f'reflected Bit {sym}', f'{form!r} {sym} Bit({a})')
                    ctx.ev((a, b, sym, type(form).__name__))
            ctx.check((hash(Bit(a)) == hash(Bit(b))) or a != b, 'Bit hash', (a, b))
    # random Boolean expressions over bits
    for _ in range(50):
        vals = [(Bit(x), x) for x in (rng.getrandbits(1) for _ in range(4))]
        for _ in range(20):
            (x, a), (y, b) = rng.choice(vals), rng.choice(vals)
            sym = rng.choice(list(table))
            r, w = PYOP[sym](x, y), int(table[sym](a, b))
            if rng.random() < .3:
                r, w = ~r, 1 - w
            check_bit(ctx, r, w, 'Bit expression', sym)
            ctx.ev()
            vals[rng.randrange(4)] = (r, w)
    ctx.sample('truth tables of ~ & | ^ == != with Bit, bool and int operands')


class Flag(Bit):
    pass


class Flag2(Flag):
    pass


@group(40, 200)
def bit_subclasses(ctx, rng):
    """user bit types: complete truth tables, also mixed and with one object twice"""
    table = {'&': lambda a, b: a & b, '|': lambda a, b: a | b, '^': lambda a, b: a ^ b,
             '==': lambda a, b: a == b, '!=': lambda a, b: a != b}
    F = rng.choice((Flag, Flag2))
    for a in (0, 1):
        x = F(a)
        ctx.check(type(x) is F and bool(x) is bool(a) and int(x) == a and type(int(x)) is int, 'reading of a user bit', a)
        r = ~x
        ctx.check(type(r) is F and bool(r) is (not a), '~ of a user bit', (a, repr(r)))
        check_same = hash(x) == hash(F(a))
        ctx.check(check_same, 'hash of a user bit', a)
        for sym, f in table.items():
            r = PYOP[sym](x, x)
            ctx.check(isinstance(r, Bit) and bool(r) is bool(f(a, a)), f'user bit {sym} itself', (a, repr(r)))
            y = Bit(a)
            check_bit(ctx, PYOP[sym](y, y), f(a, a), f'Bit {sym} itself', a)
            for b in (0, 1):
                for form in (F(b), Bit(b), Flag(b), Flag2(b), bool(b), b):
                    r, q = PYOP[sym](x, form), PYOP[sym](form, x)
                    ctx.check(isinstance(r, Bit) and bool(r) is bool(f(a, b)), f'user bit {sym}', (a, repr(form), repr(r)))
                    ctx.check(isinstance(q, Bit) and bool(q) is bool(f(b, a)), f'reflected user bit {sym}', (a, repr(form), repr(q)))
                    if type(form) in (F, bool, int):
                        ctx.check(type(r) is F, f'type of user bit {sym}', (repr(form), type(r)))
                    ctx.ev((F.__name__, sym, a, b, type(form).__name__))
                T = rng.choice(KINDS)[rng.randint(1, 70)]
                t, e = T(value(rng, T.size)), T(value(rng, T.size))
                check_bv(ctx, x.ite(t, e), T, (t if a else e).as_uint(), 'ite of a user bit')
    ctx.sample(F.__name__)


@group(250, 6000)
def same_object(ctx, rng):
    n = width(rng)
    K, T = pick_any(rng, n)
    for a in (value(rng, n), rng.choice((0, 1, mask(n), 1 << (n - 1)))):
        x = T(a)
        for op, f in CMP.items():
            check_bit(ctx, getattr(x, op)(x), f(n, a, a), f'{op} with itself', f'{T.__name__} {a:#x}')
        for sym, ops in INFIX_CMP.items():
            check_bit(ctx, PYOP[sym](x, x), CMP[ops[0]](n, a, a), f'{sym} with itself', f'{T.__name__} {a:#x}')
        if T is K[n]:
            check_bv(ctx, x.bvcomp(x), K[1], 1, 'bvcomp with itself')
        ctx.ev((T.__name__, a))
    ctx.sample(f'{T.__name__}({a:#x})')


@group(60, 400)
def empty(ctx, rng):
    """the vector of width 0 reads as 0 and equals every other of its width"""
    _, T = pick_any(rng, 0)
    _, U = pick_any(rng, 0)
    x, y = T(rng.randint(-3, 3)), U(0)
    for op, f in CMP.items():
        check_bit(ctx, getattr(x, op)(y), op in ('bveq', 'bvule', 'bvuge', 'bvsle', 'bvsge'), f'{op} of empty vectors')
        ctx.ev((T.__name__, U.__name__, op))
    for sym in INFIX_CMP:
        for c in (T(0), 0, 3):
            check_bit(ctx, PYOP[sym](x, c), sym in ('==', '<=', '>='), f'{sym} of empty vectors', repr(c))
        ctx.ev((T.__name__, sym))
    ctx.check(x.as_uint() == 0 and x.as_sint() == 0 and int(x) == 0 and bool(x) is False and x.bits() == [] and x.as_bool_list() == []
              and x.binary_string() == '' and len(x) == 0 and list(x) == [] and str(x) == '0', 'readings of an empty vector', T.__name__)
    ctx.sample(T.__name__)
