from hwtypes.bit_vector_util import BitVectorProtocol, BitVectorProtocolMeta
from .core import group
from collections import namedtuple
from zlib import crc32
from .cbv import *


class PointMeta(type):
    def _bitvector_t_(cls):
        return cls.STORE


class Point(metaclass=PointMeta):
    STORE = BitVector[12]
    def __init__(self, x): self.x = x
    @classmethod
    def _from_bitvector_(cls, bv):
        assert type(bv) is cls.STORE, f'protocol given a {type(bv)}'
        return cls(bv.as_uint() ^ 0x5a5)
    def _to_bitvector_(self):
        return type(self).STORE(self.x ^ 0x5a5)


class Offset(Point):
    STORE = SIntVector[9]
    @classmethod
    def _from_bitvector_(cls, bv):
        assert type(bv) is cls.STORE
        return cls(bv.as_uint() ^ 0x1)
    def _to_bitvector_(self):
        return type(self).STORE(self.x ^ 0x1)


def leaf(rng):
    """spec of a leaf: (type, two values)"""
    r = rng.random()
    if r < .3:
        return (Bit, rng.getrandbits(1), rng.getrandbits(1))
    if r < .8:
        n = width_like(rng, (1, 2, 3, 8, 16, 31, 64, 100))
        return (rng.choice(KINDS)[n], value(rng, n), value(rng, n))
    if r < .9:
        return (Point, rng.getrandbits(12), rng.getrandbits(12))
    return (Offset, rng.getrandbits(9), rng.getrandbits(9))


def shape(rng, depth):
    if depth == 0 or rng.random() < .3:
        return leaf(rng)
    return [shape(rng, depth - 1) for _ in range(rng.choice((0, 1, 1, 2, 2, 3, 4)) if rng.random() < .93 else rng.randint(5, 12))]


crc = lambda t: crc32(t.encode())


class Row(tuple): pass
Pair = namedtuple('Pair', 'first second')


def build(s, i):
    if isinstance(s, list):
        t = tuple(build(x, i) for x in s)
        # tuples of a class of their own are tuples
        return Pair(*t) if len(t) == 2 and crc(repr(t)) % 4 == 0 else Row(t) if crc(repr(t)) % 9 == 0 else t
    return s[0](s[1 + i])


def payload(v):
    return v.x if isinstance(v, Point) else int(v) if isinstance(v, Bit) else v.as_uint()


def match(ctx, got, s, i, path=''):
    if isinstance(s, list):
        ctx.check(isinstance(got, tuple) and len(got) == len(s), 'tuple shape of ite', (path, short_(got)))
        for k, (g, x) in enumerate(zip(got, s)):
            match(ctx, g, x, i, f'{path}[{k}]')
        return
    T = s[0]
    ctx.check(type(got) is T, f'type selected by ite', f'{path}: {type(got)} expected {T}')
    ctx.check(payload(got) == s[1 + i], 'value selected by ite',
              f'at {path or "top"}: {payload(got):#x}, branches {s[1]:#x} / {s[2]:#x}, select {1 - i}')
    ctx.ev((T.__name__, s[1], s[2], i))


def short_(x):
    return repr(x)[:200]


@group(2500, 50000)
def select_bit(ctx, rng):
    s = shape(rng, rng.choice((0, 0, 1, 2, 3)) if rng.random() < .95 else 5)
    t, f = build(s, 0), build(s, 1)
    for b in (1, 0):
        match(ctx, Bit(b).ite(t, f), s, 1 - b)
    match(ctx, Bit(1).ite(t, t), s, 0)
    ctx.sample(f'{short_(t)} / {short_(f)}')


@group(2500, 50000)
def select_vector(ctx, rng):
    s = shape(rng, rng.choice((0, 0, 1, 2)))
    t, f = build(s, 0), build(s, 1)
    n = width(rng, hi=200)
    K, T = pick_any(rng, n)
    for a in (0, value(rng, n), 1 << rng.randrange(n), mask(n), 1 << (n - 1)):
        match(ctx, T(a).ite(t, f), s, 0 if a else 1)
    ctx.sample(f'{T.__name__}({a:#x}).ite({short_(t)}, ..)')


@group(400, 4000)
def bad_branches(ctx, rng):
    sel = rng.choice((Bit(0), Bit(1), BitVector[3](rng.getrandbits(3))))
    n = width(rng, hi=60)
    K = rng.choice(KINDS)
    B8 = K[n](value(rng, n))
    other = rng.choice(KINDS)[n + 1 + rng.randrange(5)](1)
    pairs = [(B8, other), (other, B8), (B8, Bit(1)), (Bit(0), B8), (B8, (B8,)), ((B8,), B8),
             ((B8, B8), (B8,)), ((B8, (Bit(0), B8)), (B8, (Bit(0),))), ((B8, B8), (B8, other)),
             (((B8,), Bit(1)), ((B8,), B8)), (1, 0), (True, False), ('a', 'b'), (None, None),
             (B8, 3), (3, B8), (B8, None), (Point(1), Offset(1)), (Point(1), B8), ([B8], [B8]),
             ((B8, 1), (B8, 1)), ((), (B8,))]
    for t, f in pairs:
        ctx.raises(TypeError, lambda: sel.ite(t, f), 'ill-shaped ite accepted',
                   f'{short_(t)} / {short_(f)}')
        ctx.ev((type(t).__name__, type(f).__name__, n))
    ctx.sample(f'{len(pairs)} ill-shaped branch pairs')


@group(10, 50)
def protocol(ctx, rng):
    """membership in the protocol follows the three hooks"""
    ctx.check(isinstance(Point(3), BitVectorProtocol) and issubclass(Point, BitVectorProtocol), 'protocol instance', '')
    ctx.check(isinstance(Point, BitVectorProtocolMeta) and issubclass(PointMeta, BitVectorProtocolMeta), 'protocol meta', '')
    class NoFrom(metaclass=PointMeta):
        def _to_bitvector_(self): pass
    class NoTo(metaclass=PointMeta):
        @classmethod
        def _from_bitvector_(cls, bv): pass
    class NoMeta:
        def _to_bitvector_(self): pass
        @classmethod
        def _from_bitvector_(cls, bv): pass
    for C in (NoFrom, NoTo, NoMeta):
        ctx.check(not isinstance(C(), BitVectorProtocol), 'incomplete protocol accepted', C.__name__)
        ctx.raises(TypeError, lambda: Bit(1).ite(C(), C()), 'ite over an incomplete protocol', C.__name__)
        ctx.ev(C.__name__)
    for x in (3, Bit(0), BitVector[3](0), 'a', None):
        ctx.check(not isinstance(x, BitVectorProtocol), 'non-protocol accepted', repr(x))
    ctx.sample('Point/Offset and incomplete variants')


@group(400, 6000)
def mux_tree(ctx, rng):
    """a decoder: 2^k-way selection by nested ite over the bits of an address"""
    k = rng.randint(1, 4)
    n = width(rng, hi=64)
    T = rng.choice(KINDS)[n]
    table = [value(rng, n) for _ in range(1 << k)]
    for addr in range(1 << k):
        A = BitVector[k](addr)
        layer = [T(v) for v in table]
        for i in range(k):
            layer = [A[i].ite(layer[2 * j + 1], layer[2 * j]) for j in range(len(layer) // 2)]
        check_bv(ctx, layer[0], T, table[addr], 'mux tree')
        ctx.ev((n, k, addr, table[addr]))
    ctx.sample(f'{1 << k}-way mux of {T.__name__}')
