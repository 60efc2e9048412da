"""Concrete floating point: types under test, pattern generators and the
monitor that compares a result with the rational-arithmetic model."""
import warnings
from fractions import Fraction
from hwtypes import BitVector, FPVector, RoundingMode
from .fpmodel import Fmt, NAN, AWAY, RNA, pow2

warnings.simplefilter('ignore')
MODES = {m.name: m for m in RoundingMode}
NAMES = tuple(MODES)
FORMATS = ((2, 1), (2, 2), (3, 1), (3, 2), (3, 4), (4, 3), (5, 2), (5, 10), (6, 1), (6, 9), (2, 9), (8, 7), (8, 23),
           (10, 5), (11, 52), (11, 30), (11, 60), (9, 70), (12, 20), (15, 63), (15, 112))
TINY = ((2, 1), (2, 2), (3, 1), (3, 2), (2, 3), (3, 3), (4, 2))


class HwFloat(FPVector): pass
class HwFloat2(HwFloat): pass
class Mixin: pass
class MixFloat(Mixin, FPVector): pass


class Ty:
    """a type under test with its model"""
    def __init__(self, T, eb, mb, mode, ieee):
        self.T, self.F = T, Fmt(eb, mb, mode, ieee)
        self.eb, self.mb, self.mode, self.ieee = eb, mb, mode, ieee
        self.size = self.F.size
        self.key = (eb, mb, mode, ieee)


_cache = {}


def ty(eb, mb, mode, ieee, K=FPVector):
    k = (eb, mb, mode, ieee, K)
    if k not in _cache:
        _cache[k] = Ty(K[eb, mb, MODES[mode], ieee], eb, mb, mode, ieee)
    return _cache[k]


def sub(t, how):
    """a subclass of a bound type"""
    k = (t.key, t.T, how)
    if k not in _cache:
        T = t.T
        if how == 1:
            class Bound(T): pass
        else:
            class Base(T): pass
            class Bound(Base): pass
        _cache[k] = Ty(Bound, *t.key)
    return _cache[k]


def some(rng, ieee=None, formats=FORMATS, mode=None):
    eb, mb = rng.choice(formats) if rng.random() < .85 else (rng.randint(2, 9), rng.randint(1, 40))
    if ieee is None:
        ieee = rng.random() < .7
    r = rng.random()
    K = FPVector if r < .8 else HwFloat if r < .9 else HwFloat2 if r < .95 else MixFloat
    t = ty(eb, mb, mode or rng.choice(NAMES), ieee, K)
    r = rng.random()
    return t if r < .85 else sub(t, 1) if r < .95 else sub(t, 2)


def sibling(rng, t):
    """a type of the same format: the same, or another class"""
    u = ty(*t.key[:2], t.mode, t.ieee, rng.choice((FPVector, HwFloat, HwFloat2, MixFloat)))
    r = rng.random()
    return t if r < .3 else u if r < .7 else sub(u, 1) if r < .85 else sub(t, 1)


def bits(rng, t, nan=True):
    """edge-biased pattern of the format (as an int), NaN/subnormal possible"""
    F, eb, mb = t.F, t.eb, t.mb
    r = rng.random()
    e = rng.choice((0, 0, 1, 2, (1 << eb) - 1, (1 << eb) - 2, F.bias, F.bias, F.bias + 1, F.bias - 1,
                    F.bias + mb, F.bias - mb, F.bias + mb + 1)) if r < .6 else rng.getrandbits(eb)
    e = max(0, min(e, (1 << eb) - 1))
    r = rng.random()
    m = (rng.getrandbits(mb) if r < .4 else
         rng.choice((0, 0, 1, 2, (1 << mb) - 1, (1 << mb) - 2, 1 << (mb - 1), (1 << (mb - 1)) - 1, 1 << rng.randrange(mb)))) & ((1 << mb) - 1)
    if e == (1 << eb) - 1 and rng.random() < .6 or (not nan and e == (1 << eb) - 1):
        m = 0
    if not t.ieee and e in (0, (1 << eb) - 1):
        m = 0
    return (rng.getrandbits(1) << (eb + mb)) | (e << mb) | m


def all_bits(t):
    for b in range(1 << t.size):
        if not t.ieee:
            e = (b >> t.mb) & ((1 << t.eb) - 1)
            if e in (0, (1 << t.eb) - 1) and b & ((1 << t.mb) - 1):
                continue
        yield b


def near(rng, t, b):
    """a pattern related to b: neighbour, negation, close exponent, same"""
    r = rng.random()
    if r < .2:
        return b
    if r < .4:
        return b ^ (1 << (t.size - 1))
    e = (b >> t.mb) & ((1 << t.eb) - 1)
    if r < .6:
        c = b ^ (1 << rng.randrange(t.mb))
    elif r < .8:
        c = b + rng.choice((-1, 1))
    else:
        e2 = max(0, min((1 << t.eb) - 1, e + rng.choice((-t.mb - 2, -t.mb - 1, -t.mb, -2, -1, 1, 2, t.mb, t.mb + 1, t.mb + 2))))
        c = (b & ~(((1 << t.eb) - 1) << t.mb)) | (e2 << t.mb)
    c &= (1 << t.size) - 1
    e = (c >> t.mb) & ((1 << t.eb) - 1)
    if not t.ieee and e in (0, (1 << t.eb) - 1):
        c = c >> t.mb << t.mb
    return c


def make(t, b):
    return t.T.reinterpret_from_bv(BitVector[t.size](b))


def read(ctx, t, x, what):
    """the model value a result denotes (through the public interface only)"""
    if type(x) is not t.T:
        ctx.check(False, f'{what}: type', f'got {type(x).__name__}, expected {t.T.__name__}')
    if bool(x.fp_is_NaN()):
        return NAN
    v = x.reinterpret_as_bv()
    if type(v) is not BitVector[t.size]:
        ctx.check(False, f'{what}: pattern type', type(v).__name__)
    v = t.F.decode(v.as_uint())
    if v == NAN:
        ctx.check(False, f'{what}: pattern of a NaN from a value that is none', x)
    if t.eb <= 11 and t.mb <= 52:                       # a second, independent route
        f = float(x)
        if v[0] == 'inf':
            ok = f == float('inf') * (-1 if v[1] else 1)
        elif v[0] == 'zero':
            ok = f == 0 and (str(f)[0] == '-') == bool(v[1])
        else:
            ok = f == f and abs(f) != float('inf') and Fraction(f) == v[1]
        if not ok:
            ctx.check(False, f'{what}: float() and the pattern disagree', f'{x}: {f!r} vs {v}')
    return v


def show(t, v):
    if v[0] == 'fin':
        return f'{float(v[1]) if abs(v[1]) < 10**300 and abs(v[1]) > Fraction(1, 10**300) else v[1].numerator.bit_length()} ' \
               f'({t.F.encode(v):#x})' if representable(t, v) else str(v[1])
    return ('-' if v[1:] == (1,) else '') + v[0]


def representable(t, v):
    try:
        t.F.encode(v)
        return True
    except AssertionError:
        return False


def same(t, got, want):
    if want == NAN:
        return got == NAN if t.ieee else got[0] == 'inf'
    return got == want


def expect(ctx, t, x, want, what, args, known=None):
    """x must denote want(mode); want: callable mode -> model value, or value.
    known: id of the recorded finding about RNA (rounds away from zero)."""
    got = read(ctx, t, x, what)
    w = want(t.mode) if callable(want) else want
    if not same(t, got, w):
        if t.mode == RNA and callable(want) and known and same(t, got, want(AWAY)):
            ctx.known_finding(known, f'{what} in {t.key}: {args() if callable(args) else args} gives {show(t, got)}, not {show(t, w)}')
            return got
        ctx.check(False, f'{what}', lambda: f'{t.T.__name__} {args() if callable(args) else args}: got {show(t, got)}, expected {show(t, w)}')
    return got
