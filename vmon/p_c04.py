import warnings
import gmpy2
from decimal import Decimal
from fractions import Fraction

from .core import group
from .cbv import *


class IntLike:
    def __init__(self, v): self.v = v
    def __int__(self): return self.v


class AllNumbers:
    """a number of many protocols; __int__ is exact, __float__ is not"""
    def __init__(self, v): self.v = v
    def __int__(self): return self.v
    def __float__(self): return float(self.v % (1 << 60)) + .5
    def __bool__(self): return not self.v
    def __trunc__(self): return self.v + 1
    def __round__(self, n=None): return self.v + 2
    def __str__(self): return '7'


class IndexAndInt:
    def __init__(self, v): self.v = v
    def __int__(self): return self.v
    def __index__(self): return self.v


class MyInt(int):
    def __str__(self): return 'my'
    def __bool__(self): return self == 0


class Truthy:
    def __init__(self, v): self.v = v
    def __bool__(self): return self.v


class BitSeq:
    """a user-defined sequence"""
    def __init__(self, l): self.l = l
    def __getitem__(self, i): return self.l[i]
    def __len__(self): return len(self.l)
import collections.abc
collections.abc.Sequence.register(BitSeq)


def forms(rng, n, K):
    """(description, argument, integer it denotes)"""
    x = rng.choice((value(rng, n), -value(rng, n), rng.getrandbits(n + 1 + rng.randint(0, 80)),
                    -rng.getrandbits(n + 9), 1 << n, -(1 << n), (1 << n) + 1, -1, 0))
    yield 'int', x, x
    yield 'int-like object', IntLike(x), x
    yield 'number object', AllNumbers(x), x
    yield 'number object', IndexAndInt(x), x
    yield 'subclass of int', MyInt(x), x
    yield 'Fraction', Fraction(x), x
    yield 'Fraction', Fraction(7 * x + (3 if x >= 0 else -3), 7), x
    yield 'Decimal', Decimal(x), x
    yield 'mpz', gmpy2.mpz(x), x
    yield 'bool', True, 1
    yield 'bool', False, 0
    yield 'Bit', Bit(1), 1
    yield 'Bit', Bit(0), 0
    m = rng.choice((n, n, 1, n + 3, max(1, n - 1), 0))
    bits = [rng.getrandbits(1) for _ in range(m)]
    v = sum(b << i for i, b in enumerate(bits))
    yield 'int list', bits, v
    yield 'bool tuple', tuple(map(bool, bits)), v
    yield 'Bit list', [Bit(b) for b in bits], v
    yield 'sequence object', BitSeq(bits), v
    yield 'list of one-bit vectors', [rng.choice(KINDS)[1](b) for b in bits], v
    yield 'mixed list', [rng.choice((int, bool, Bit, SIntVector[1], BitVector[1]))(b) for b in bits], v
    for K2 in (K, rng.choice(KINDS)):
        w = rng.choice((n, n, width(rng, hi=200)))
        p = value(rng, w)
        yield f'{"wider" if w > n else "vector"}', K2[w](p), p
    yield 'float', rng.choice((float(rng.randint(0, 2**30)), rng.uniform(-1e6, 1e6), -.5, float(rng.getrandbits(53) << rng.randint(0, 200)))), None


@group(2500, 60000)
def construct(ctx, rng):
    n = width(rng)
    K, T = pick_any(rng, n)
    for what, arg, v in forms(rng, n, K):
        if v is None:
            v = int(arg)
        r = T(arg)
        check_bv(ctx, r, T, v & mask(n), f'from {what}')
        ctx.check(-(1 << n - 1) <= r.as_sint() < (1 << n - 1), 'signed reading out of range', T.__name__)
        ctx.ev((n, what, v))
    check_bv(ctx, T(), T, 0, 'default value')
    ctx.sample(f'{T.__name__} from {what}')


@group(2500, 60000)
def roundtrip(ctx, rng):
    n = width(rng)
    K, T = pick_any(rng, n)
    a = value(rng, n)
    v = T(a)
    for what, r in (('int()', T(int(v))), ('as_uint', T(v.as_uint())), ('as_sint', T(v.as_sint())),
                    ('bits', T(v.bits())), ('bool list', T(v.as_bool_list())), ('self', T(v)),
                    ('bit objects', T([v[i] for i in range(n)])), ('iteration', T(list(v))),
                    ('binary_string', T(int(v.binary_string(), 2))),
                    ('as_binary_string', T(int(v.as_binary_string(), 0)))):
        check_bv(ctx, r, T, a, f'round trip through {what}')
        ctx.check(r is not v and bool(r == v), f'round trip through {what}', T.__name__)
        ctx.ev((n, a, what))
    # eval of repr round-trips for the standard kinds
    if K in STD and T is K[n]:
        r = eval(repr(v), {}, {k.__name__: k for k in STD})
        check_bv(ctx, r, T, a, 'repr')
    # make_constant, same and other width, on class and instance
    m = width(rng, hi=200)
    x = rng.choice((a, -a, value(rng, m), rng.getrandbits(m + 5)))
    for src in (T, v) if T is K[n] else ():
        check_bv(ctx, src.make_constant(x), T, x & mask(n), 'make_constant')
        check_bv(ctx, src.make_constant(x, m), K[m], x & mask(m), 'make_constant of a width')
    check_bv(ctx, v, T, a, 'source changed')
    ctx.sample(f'{T.__name__} {a:#x}')


@group(800, 10000)
def implicit_width(ctx, rng):
    """unsized constructors size themselves after the argument"""
    K = rng.choice(STD)
    x = rng.choice((0, 1, 2, 3, 255, 256, rng.getrandbits(rng.randint(1, 90))))
    if rng.random() < .3:
        x = -x
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        check_bv(ctx, K(x), K[max(1, x.bit_length())], x & mask(max(1, x.bit_length())), 'implicit width of int')
        m = rng.randint(1, 40)
        bits = [rng.getrandbits(1) for _ in range(m)]
        check_bv(ctx, K(bits), K[m], sum(b << i for i, b in enumerate(bits)), 'implicit width of list')
        w = width(rng, hi=100)
        p = value(rng, w)
        check_bv(ctx, K(rng.choice(KINDS)[w](p)), K[w], p, 'implicit width of vector')
        check_bv(ctx, K(Bit(1)), K[1], 1, 'implicit width of Bit')
        check_bv(ctx, K(IntLike(x)), K[max(1, x.bit_length())], x & mask(max(1, x.bit_length())), 'implicit width of int-like')
        ctx.raises(TypeError, lambda: K(), 'unsized without value', K)
        ctx.raises(TypeError, lambda: K(None), 'unsized from None', K)
    ctx.ev((K.__name__, x, m, w))
    ctx.sample(f'{K.__name__}({x})')


@group(200, 2000)
def rejects(ctx, rng):
    n = width(rng, hi=100)
    K, T = pick_any(rng, n)
    for bad in (None, object(), {}, {1, 2}, lambda: 0, Truthy(True)):
        ctx.raises(TypeError, lambda: T(bad), 'vector from a non-value', (T, bad))
        ctx.ev((n, type(bad).__name__))
    for bad in (2, -1, 17, -2, 1 << 70):
        ctx.raises(ValueError, lambda: Bit(bad), 'Bit from an int other than 0/1', bad)
    class Opaque: pass
    ctx.raises(TypeError, lambda: Bit(Opaque()), 'Bit from an object without truth value', 'Opaque')
    for good, w in ((0, 0), (1, 1), (False, 0), (True, 1), (Bit(0), 0), (Bit(1), 1), (Truthy(True), 1),
                    (Truthy(False), 0), (T(0), 0), (T(1), 1)):
        check_bit(ctx, Bit(good), w, 'Bit construction', repr(good))
    ctx.sample(f'{T.__name__} rejects None, object, dict, set, function')


@group(100, 800)
def empty(ctx, rng):
    """a vector of width 0 holds 0 whatever it is built from"""
    K, T = pick_type(rng, 0)
    for what, arg, v in forms(rng, rng.choice((1, 8, 65)), K):
        if what in ('wider', 'vector'):
            continue                            # truncation warns; covered by construct
        r = T(arg)
        check_bv(ctx, r, T, 0, f'empty from {what}')
        for back in (int(r), r.as_uint(), r.as_sint(), r.bits(), r.as_bool_list(), r, list(r)):
            check_bv(ctx, T(back), T, 0, 'round trip of an empty vector')
        ctx.ev((T.__name__, what))
    if K in STD:
        check_bv(ctx, eval(repr(T()), {}, {k.__name__: k for k in STD}), T, 0, 'repr of an empty vector')
    check_bv(ctx, T.make_constant(rng.randint(-5, 5)), T, 0, 'make_constant of an empty vector')
    ctx.sample(T.__name__)
