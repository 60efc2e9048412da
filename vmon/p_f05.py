import math
import operator
from decimal import Decimal
from fractions import Fraction
import gmpy2
from hwtypes import Bit, BitVector, UIntVector, SIntVector
from .core import group
from .fpmodel import NAN, RNA, AWAY, pow2
from . import fpk
from .fpk import some, ty, bits, near, make, expect

K3 = 'K3-F05'


class OnlyInt:
    def __init__(self, v): self.v = v
    def __int__(self): return self.v


class OnlyFloat:
    def __init__(self, v): self.v = v
    def __float__(self): return self.v


class MyInt(int): pass
class MyFloat(float): pass
class MyFraction(Fraction): pass
class MyDecimal(Decimal): pass
class MyStr(str): pass


def odd_numbers():
    with gmpy2.context(gmpy2.context()):
        return [(True, Fraction(1)), (False, ('zero', 0)), (Bit(1), Fraction(1)), (Bit(0), ('zero', 0)), (Decimal('NaN'), NAN),
                (Decimal('Infinity'), ('inf', 0)), (Decimal('-Infinity'), ('inf', 1)), (Decimal('-0'), ('zero', 1)), (Decimal('-0E5'), ('zero', 1)),
                (Decimal('1E-99999'), Fraction(1, 10 ** 99999)), (Decimal('-25E-2'), Fraction(-1, 4)), (MyDecimal('0.1'), Fraction(1, 10)),
                (MyFraction(1, 3), Fraction(1, 3)), (MyStr('1/3'), Fraction(1, 3)), (MyStr('-0'), ('zero', 1)), (gmpy2.mpfr('nan'), NAN), (gmpy2.mpfr('-inf'), ('inf', 1)),
                (gmpy2.mpfr('inf'), ('inf', 0)), (gmpy2.mpfr('-0'), ('zero', 1)), (gmpy2.mpfr(0), ('zero', 0)), ('+1.5', Fraction(3, 2)),
                ('Infinity', ('inf', 0)), ('-Inf', ('inf', 1)), ('NaN', NAN), ('-1/3', Fraction(-1, 3)), ('2/6', Fraction(1, 3))]


def exact_float(f):
    if f != f:
        return NAN
    if f in (math.inf, -math.inf):
        return ('inf', int(f < 0))
    if f == 0:
        return ('zero', int(math.copysign(1, f) < 0))
    return Fraction(f)


def near_boundary(rng, t):
    """an exact rational near a value, a midpoint, or the ends of the format"""
    F = t.F
    r = rng.random()
    if r < .5:
        v = F.decode(bits(rng, t, nan=False))
        q = v[1] if v[0] == 'fin' else F.max_finite
        u = pow2(max(_l2(abs(q)), F.emin) - t.mb)
        q += u * rng.choice((0, Fraction(1, 2), Fraction(1, 4), Fraction(3, 4), -Fraction(1, 2), Fraction(1, 2) + pow2(-80), Fraction(1, 2) - pow2(-80),
                             pow2(-90), -pow2(-90), Fraction(1, 3)))
    elif r < .65:
        q = F.min_sub * rng.choice((Fraction(1, 2), Fraction(1, 2) + pow2(-70), Fraction(1, 2) - pow2(-70), Fraction(1, 4), 1, Fraction(3, 2), Fraction(1, 10 ** 6)))
    elif r < .75:
        q = F.min_normal * rng.choice((1, 1 - pow2(-t.mb - 1), 1 - pow2(-t.mb - 2), 1 - pow2(-t.mb), Fraction(1, 2), Fraction(1, 2) + pow2(-60), Fraction(1, 3), 1 - pow2(-t.mb - 40)))
    elif r < .85:
        u = pow2(F.emax - t.mb)
        q = F.max_finite + u * rng.choice((Fraction(1, 2), Fraction(1, 2) - pow2(-50), Fraction(1, 2) + pow2(-50), Fraction(1, 4), 1, 5, 0, 10 ** 9))
    else:
        q = Fraction(rng.randint(-10 ** 9, 10 ** 9), rng.choice((1, 2, 3, 5, 7, 10, 100, 1024, 10 ** 9)))
    return q * rng.choice((1, -1))


def _l2(q):
    from .fpmodel import floor_log2
    return floor_log2(q) if q else -10 ** 6


def dec_string(q, rng):
    """exact decimal string of a dyadic rational (or of a rounded one)"""
    d, k = q.denominator, 0
    while d % 2 == 0:
        d //= 2
        k += 1
    if d != 1 or k > 4000:
        n = rng.randint(1, 30)
        n10 = (q * 10 ** n).__floor__()
        return _fmt(n10, n), Fraction(n10, 10 ** n)
    n10 = q.numerator * 5 ** k
    return _fmt(n10, k), q


def _fmt(n10, k):
    s = '-' if n10 < 0 else ''
    return f'{s}{abs(n10)}e-{k}' if k else f'{s}{abs(n10)}'


def number(rng, t):
    """(value to pass, exact meaning: Fraction or model special, label)"""
    q = near_boundary(rng, t)
    k = rng.choice(('int', 'int', 'float', 'float', 'mpq', 'mpz', 'fraction', 'decimal', 'decstr', 'decstr', 'fracstr', 'special', 'mpfr', 'intlike', 'floatlike',
                    'bv', 'fp', 'fp', 'subclass', 'odd'))
    n = q.__floor__()
    if k in ('int', 'mpz', 'intlike', 'subclass') and rng.random() < .3:
        n = rng.choice((0, 1, -1, 2 ** 53 + 1, -2 ** 64 - 1, 10 ** 30, rng.getrandbits(200), 1 << 1100, -(1 << 16384), 65519, 65520, 65536))
    if k == 'int':
        return n, Fraction(n), k
    if k == 'mpz':
        return gmpy2.mpz(n), Fraction(n), k
    if k == 'intlike':
        return OnlyInt(n), Fraction(n), k
    if k == 'subclass':
        if rng.random() < .5:
            return MyInt(n), Fraction(n), k
        f = rng.uniform(-10, 10)
        return MyFloat(f), Fraction(f), k
    if k in ('float', 'floatlike'):
        try:
            f = float(q)
        except OverflowError:
            f = math.inf
        if rng.random() < .2:
            f = rng.choice((0.1, -0.0, 0.0, 1e-310, 5e-324, 1.7976931348623157e308, math.inf, -math.inf, math.nan, 1e308, -2.5, 3.5))
        return (f if k == 'float' else OnlyFloat(f)), exact_float(f), k
    if k == 'mpq':
        return gmpy2.mpq(q.numerator, q.denominator), q, k
    if k == 'fraction':
        return q, q, k
    if k == 'fracstr':
        return f'{q.numerator}/{q.denominator}', q, k
    if k == 'decstr':
        s, e = dec_string(q, rng)
        return s, (('zero', int(s[0] == '-')) if e == 0 else e), k
    if k == 'decimal':
        s, e = dec_string(q, rng)
        return Decimal(s), (('zero', int(s[0] == '-')) if e == 0 else e), k
    if k == 'special':
        s, e = rng.choice((('inf', ('inf', 0)), ('-inf', ('inf', 1)), ('nan', NAN), ('0', ('zero', 0)), ('-0', ('zero', 1)), ('-0.0', ('zero', 1)),
                           ('1e-99999', Fraction(1, 10 ** 99999)), ('-1e99999', Fraction(-10 ** 99999)), ('0/5', ('zero', 0)), ('0.5', Fraction(1, 2)), ('1/2', Fraction(1, 2)),
                           ('.25', Fraction(1, 4)), ('-12.75', Fraction(-51, 4)), ('1E2', Fraction(100))))
        return s, e, k
    if k == 'mpfr':
        p = rng.choice((2, 11, 24, 53, 113, 300))
        with gmpy2.context(gmpy2.context(precision=p)):
            m = gmpy2.mpfr(gmpy2.mpq(q.numerator, q.denominator))
        n, d = m.as_integer_ratio()
        e = Fraction(int(n), int(d))
        return m, e, k
    if k == 'odd':
        return (*rng.choice(odd_numbers()), k)
    if k == 'bv':
        w = rng.choice((1, 3, 8, 33, 100))
        b = rng.getrandbits(w)
        K = rng.choice((BitVector, UIntVector, SIntVector))
        e = b - (1 << w) if K is SIntVector and b >> (w - 1) else b
        return K[w](b), Fraction(e), k
    u = some(rng)
    b = bits(rng, u)
    v = u.F.decode(b)
    return make(u, b), (v[1] if v[0] == 'fin' else v), f'fp {u.T.__name__}'


def meaning(t, e, m):
    if isinstance(e, Fraction):
        return t.F.rnd(e, 0, m)
    return e


def model_of(t, e):
    return lambda m: meaning(t, e, m)


@group(14000, 600000)
def construct(ctx, rng):
    t = some(rng)
    v, e, label = number(rng, t)
    x = t.T(v)
    expect(ctx, t, x, model_of(t, e), 'construction', lambda: f'{label} {v if not isinstance(v, (OnlyInt, OnlyFloat)) else v.v!r}'[:200], K3)
    ctx.ev((t.key, label, str(e)[:60]), label.split(' ')[0])
    ctx.sample(f'{t.T.__name__}({label} {str(v)[:60]})')


@group(4000, 120000)
def casts(ctx, rng):
    """between formats, through a middle format, and back to a wider one"""
    t, u = some(rng), some(rng)
    if rng.random() < .2:                   # one shape, other modes and classes
        u = ty(t.eb, t.mb, rng.choice(fpk.NAMES), t.ieee, fpk.HwFloat) if rng.random() < .5 else fpk.sibling(rng, t)
    b = bits(rng, t)
    v = t.F.decode(b)
    x = make(t, b)
    y = u.T(x)
    w = expect(ctx, u, y, model_of(u, v[1] if v[0] == 'fin' else v), 'cast', lambda: f'{t.T.__name__} {b:#x}', K3)
    wide = ty(max(t.eb, u.eb) + 1, max(t.mb, u.mb) + 3, rng.choice(fpk.NAMES), True)
    expect(ctx, wide, wide.T(y), w, 'widening cast', lambda: f'{u.T.__name__} {fpk.show(u, w)}')
    expect(ctx, t, x, v, 'source of a cast', None)
    ctx.ev((t.key, u.key, b))
    ctx.sample(f'{t.T.__name__} {b:#x} -> {u.T.__name__}')


def to_int(t, v, m):
    q = t.F.q(v)
    s, a = q < 0, abs(q)
    f = a.__floor__()
    d = a - f
    up = {'RTZ': False, 'RTP': d > 0 and not s, 'RTN': d > 0 and s, 'AWAY': d > 0, 'RNA': d >= Fraction(1, 2)}.get(m)
    if up is None:
        up = d > Fraction(1, 2) or (d == Fraction(1, 2) and f % 2 == 1)
    f += bool(up)
    return -f if s else f


@group(8000, 300000)
def to_vector(ctx, rng):
    t = some(rng)
    F = t.F
    if rng.random() < .6:                   # around the integers
        q = Fraction(rng.randint(-4000, 4000), rng.choice((1, 2, 2, 4, 8, 3)))
        v = F.rnd(q)
        b = F.encode(v)
    else:
        b = bits(rng, t)
        v = F.decode(b)
    x = make(t, b)
    n = rng.choice((1, 2, 3, 4, 8, 16, 31, 32, 33, 64, 100, rng.randint(1, 300)))
    for op, K in (('to_ubv', BitVector), ('to_sbv', SIntVector)):
        f = getattr(x, op)
        if v[0] in ('inf', 'nan'):
            ctx.raises((OverflowError, ValueError), lambda: f(n), 'non-finite value became a vector', lambda: (t.T.__name__, v))
            ctx.ev((op, t.key, v, n), 'refused')
            continue
        r = f(n)
        ctx.check(type(r) is K[n], f'{op}: type', lambda: f'{type(r).__name__} for {n}')
        m = (1 << n) - 1
        want = to_int(t, v, t.mode) & m
        if r.as_uint() != want:
            if t.mode == RNA and r.as_uint() == to_int(t, v, AWAY) & m:
                ctx.known_finding(K3, f'{op}({n}) of {fpk.show(t, v)} in {t.key}: {r.as_uint()}, not {want}')
            else:
                ctx.check(False, op, f'{t.T.__name__} {fpk.show(t, v)} to {n} bits: {r.as_uint():#x}, expected {want:#x}')
        ctx.ev((op, t.key, b, n))
    ctx.sample(f'{t.T.__name__} {b:#x} to {n} bits')


@group(3000, 100000)
def to_float(ctx, rng):
    t = some(rng)
    while t.eb > 11 or t.mb > 52:
        t = some(rng)
    b = bits(rng, t)
    v = t.F.decode(b)
    f = float(make(t, b))
    w = exact_float(f)
    ctx.check(type(f) is float and w == (v[1] if v[0] == 'fin' else v), 'float()', lambda: f'{t.T.__name__} {b:#x}: {f!r}')
    y = t.T(f)
    expect(ctx, t, y, v, 'round trip through float', lambda: f'{b:#x}')
    ctx.ev((t.key, b))
    ctx.sample(f'float of {t.T.__name__} {b:#x}')


OPS = ((operator.add, 'fp_add'), (operator.sub, 'fp_sub'), (operator.mul, 'fp_mul'), (operator.truediv, 'fp_div'), (operator.mod, 'fp_rem'),
       (operator.lt, 'fp_lt'), (operator.le, 'fp_leq'), (operator.gt, 'fp_gt'), (operator.ge, 'fp_geq'), (operator.eq, 'fp_eq'),
       (operator.ne, None), (None, 'fp_min'), (None, 'fp_max'))


@group(4000, 120000)
def plain_operands(ctx, rng):
    """x op number is x op T(number)"""
    t = some(rng)
    b = bits(rng, t)
    x = make(t, b)
    v, e, label = number(rng, t)
    while label.startswith('fp '):
        v, e, label = number(rng, t)
    c = t.T(v)
    op, named = rng.choice(OPS)
    for f in ([lambda a, b: op(a, b)] if op else []) + ([lambda a, b: getattr(a, named)(b)] if named else []):
        same_result(ctx, t, f(x, v), f(x, c), lambda: f'{named or op} of {b:#x} and {label} {v}')
    if rng.random() < .3:
        w, e2, l2 = number(rng, t)
        if not l2.startswith('fp '):
            same_result(ctx, t, x.fp_fma(v, w), x.fp_fma(c, t.T(w)), lambda: f'fma {b:#x} {label} {l2}')
    ctx.ev((t.key, named, b, label))
    ctx.sample(f'{t.T.__name__} {b:#x} {named} {label} {str(v)[:60]}')


def same_result(ctx, t, r, s, what):
    ctx.check(type(r) is type(s), 'plain operand: type', lambda: f'{what()}: {type(r)} {type(s)}')
    if isinstance(r, Bit):
        ctx.check(bool(r) == bool(s), 'plain operand', lambda: f'{what()}: {r} {s}')
    else:
        a, b = fpk.read(ctx, t, r, 'plain operand'), fpk.read(ctx, t, s, 'plain operand')
        ctx.check(a == b, 'plain operand', lambda: f'{t.T.__name__} {what()}: {r} {s}')


@group(500, 5000)
def reflected_comparisons(ctx, rng):
    """number < x and the like, with the number on the left"""
    t = some(rng)
    b = bits(rng, t)
    x = make(t, b)
    v = rng.choice((rng.randint(-8, 8), rng.uniform(-8, 8), Fraction(rng.randint(-9, 9), 3)))
    c = t.T(v)
    for op in (operator.lt, operator.le, operator.gt, operator.ge, operator.eq, operator.ne):
        same_result(ctx, t, op(v, x), op(c, x), lambda: f'{v} {op.__name__} {b:#x}')
        ctx.ev((t.key, b, op.__name__, v))
    ctx.sample(f'{v} <> {t.T.__name__} {b:#x}')


BAD = (None, [], (), {}, 1 + 2j, object(), 'abc', '1//2', '1/2/3', 'one', int)


@group(600, 5000)
def refused(ctx, rng):
    """non-numbers, and values of other formats as operands"""
    t = some(rng)
    b = bits(rng, t)
    x = make(t, b)
    u = some(rng)
    for bad in BAD:
        ctx.raises((TypeError, ValueError), lambda: t.T(bad), 'non-number accepted', (t.T.__name__, bad))
        ctx.raises((TypeError, ValueError), lambda: x.fp_add(bad), 'non-number accepted as operand', (t.T.__name__, bad))
        ctx.raises((TypeError, ValueError), lambda: x.fp_fma(bad, 1), 'non-number accepted as operand', (t.T.__name__, bad))
        ctx.raises((TypeError, ValueError), lambda: x.fp_fma(1, bad), 'non-number accepted as operand', (t.T.__name__, bad))
        ctx.ev((t.key, str(bad)[:20]))
    if u.key != t.key:
        y = make(u, bits(rng, u))
        for op, named in OPS:
            ctx.raises(TypeError, lambda: getattr(x, named or 'fp_eq')(y), 'operand of another format accepted', (t.T.__name__, u.T.__name__, named))
            if op:
                ctx.raises(TypeError, lambda: op(x, y), 'operand of another format accepted', (t.T.__name__, u.T.__name__, op))
        ctx.raises(TypeError, lambda: x.fp_fma(y, x), 'operand of another format accepted', (t.T.__name__, u.T.__name__))
        ctx.raises(TypeError, lambda: x.fp_fma(x, y), 'operand of another format accepted', (t.T.__name__, u.T.__name__))
        ctx.ev((t.key, u.key), 'format')
    expect(ctx, t, x, t.F.decode(b), 'operand after refused operations', None)
    ctx.sample(f'{t.T.__name__} and non-numbers')


@group(1, 1)
def recorded(ctx, rng):
    t = ty(5, 10, 'RNA', True)
    expect(ctx, t, t.T('2049/2048'), model_of(t, Fraction(2049, 2048)), 'construction', '2049/2048 (tie)', K3)
    expect(ctx, t, t.T('4097/4096'), model_of(t, Fraction(4097, 4096)), 'construction', '4097/4096', K3)
    ctx.ev('recorded')
    ctx.sample("FPVector[5,10,RNA,True]('4097/4096')")
