from fractions import Fraction
from hwtypes import Bit, BitVector, UIntVector, SIntVector
from .core import group
from .fpmodel import NAN
from . import fpk
from .fpk import some, ty, bits, all_bits

KINDS = (BitVector, UIntVector, SIntVector)


class Word(BitVector): pass


def fields(t, b):
    return b >> (t.eb + t.mb), (b >> t.mb) & ((1 << t.eb) - 1), b & ((1 << t.mb) - 1)


def one(ctx, t, b, K=BitVector):
    """bits -> float -> bits, and the value in between"""
    F = t.F
    s, e, m = fields(t, b)
    src = K[t.size](b)
    x = t.T.reinterpret_from_bv(src)
    ctx.check(src.as_uint() == b, 'reinterpreting changed the vector', hex(b))
    ctx.check(type(x) is t.T, 'type of a reinterpreted vector', (t.T, type(x)))
    back = x.reinterpret_as_bv()
    ctx.check(type(back) is BitVector[t.size], 'type of a reinterpreted float', (t.T.__name__, type(back)))
    g = back.as_uint()
    bs, be, bm = fields(t, g)
    what = lambda: f'{t.T.__name__} {b:#x} came back as {g:#x}'
    top = (1 << t.eb) - 1
    if e == top and m:
        if t.ieee:
            ctx.check(be == top and bm != 0, 'NaN pattern lost', what)
            ctx.check(bool(x.fp_is_NaN()), 'NaN pattern is not NaN', what)
        else:
            ctx.check(be == top and bm == 0 and bool(x.fp_is_infinite()), 'NaN of a non-IEEE format not infinite', what)
        ctx.ev((t.key, b), 'nan pattern')
        return
    want = b
    if not t.ieee and e == 0 and m:
        want = s << (t.eb + t.mb)
        ctx.ev((t.key, b), 'flushed pattern')
    ctx.check(g == want, 'pattern changed by the round trip', what)
    v = F.decode(want)
    ctx.check(not bool(x.fp_is_NaN()), 'number read as NaN', what)
    # the value, by routes that do not go through reinterpret_as_bv
    if t.eb <= 11 and t.mb <= 52:
        f = float(x)
        ok = (f == (float('-inf') if v[1] else float('inf')) if v[0] == 'inf'
              else f == 0 and str(f).startswith('-') == bool(s) if v[0] == 'zero'
              else abs(f) != float('inf') and f == f and Fraction(f) == v[1])
        ctx.check(ok, 'value of a pattern', lambda: f'{t.T.__name__} {b:#x} is {f!r}, not {fpk.show(t, v)}')
    if v[0] == 'fin' and t.eb <= 11:
        q = v[1]
        y = t.T(f'{q.numerator}/{q.denominator}')
        ctx.check(type(x == y) is Bit and bool(x == y), 'a pattern is not equal to its value', lambda: f'{t.T.__name__} {b:#x}: {x} vs {q}')
        ctx.check(y.reinterpret_as_bv().as_uint() == want, 'pattern of a value', lambda: f'{t.T.__name__} {q}: {y.reinterpret_as_bv()!r} not {want:#x}')
    elif v[0] == 'fin':
        # wide exponents: scale by exact powers of two held as integers
        q = v[1]
        if q.denominator == 1:
            ctx.check(bool(x == t.T(q.numerator)), 'a pattern is not equal to its value', lambda: f'{t.T.__name__} {b:#x}')
    ctx.ev((t.key, b))


@group(30000, 1500000)
def patterns(ctx, rng):
    t = some(rng)
    b = bits(rng, t) if rng.random() < .7 else rng.getrandbits(t.size)
    one(ctx, t, b, rng.choice(KINDS + (Word,)))
    ctx.sample(f'{t.T.__name__} {b:#x}')


CASES = [(f, m, i) for f in fpk.TINY + ((4, 3), (2, 5), (5, 2)) for m in fpk.NAMES for i in (True, False)]


@group(len(CASES), len(CASES))
def exhaustive(ctx, rng):
    """every pattern of a small format"""
    f, m, i = CASES[ctx.case]
    t = ty(*f, m, i)
    for b in range(1 << t.size):
        one(ctx, t, b)
    ctx.sample(f'{t.T.__name__}: all {1 << t.size} patterns')


@group(2, 30)
def half_exhaustive(ctx, rng):
    """every pattern of half precision or bfloat16 (quick: a 1/8 sample)"""
    t = ty(*rng.choice(((5, 10), (8, 7))), rng.choice(fpk.NAMES), rng.random() < .6)
    k = rng.randrange(8)
    for b in range(k, 1 << 16, 8):
        one(ctx, t, b)
    ctx.sample(f'{t.T.__name__}: patterns = {k} mod 8')


@group(3000, 60000)
def results(ctx, rng):
    """patterns of computed values: fields have the declared sizes, and reading
    the pattern back gives an equal value"""
    t = some(rng)
    x, y = fpk.make(t, bits(rng, t)), fpk.make(t, bits(rng, t))
    for r in (x + y, x - y, x * y, x / y, x.fp_fma(y, x), abs(x).fp_sqrt(), t.T(rng.uniform(-4, 4)), t.T('1/3'), -x,
              x.fp_round_to_integral(), t.T(rng.randint(-99, 99)), x.fp_min(y)):
        v = r.reinterpret_as_bv()
        ctx.check(type(v) is BitVector[t.size], 'type of a reinterpreted float', type(v))
        z = t.T.reinterpret_from_bv(v)
        if bool(r.fp_is_NaN()):
            ctx.check(bool(z.fp_is_NaN()), 'NaN lost in the round trip', r)
        else:
            ctx.check(bool(z == r) and z.reinterpret_as_bv().as_uint() == v.as_uint(), 'value changed by the round trip', lambda: f'{r!r} -> {v!r} -> {z!r}')
        ctx.ev((t.key, v.as_uint()))
    ctx.sample(f'results in {t.T.__name__}')


@group(1500, 20000)
def wrong_width(ctx, rng):
    t = some(rng)
    n = rng.choice((t.size - 1, t.size + 1, t.mb, t.eb + t.mb, 2 * t.size, rng.randint(1, 200)))
    if n == t.size or n == 0:
        n = t.size + 2
    v = rng.choice(KINDS)[n](rng.getrandbits(n))
    ctx.raises(TypeError, lambda: t.T.reinterpret_from_bv(v), 'vector of another width accepted', (t.T.__name__, n))
    ctx.ev((t.key, n))
    ctx.sample(f'{t.T.__name__} from {n} bits')
