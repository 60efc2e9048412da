import random
from hwtypes import Bit, BitVector, UIntVector, SIntVector, FPVector
from .core import group
from . import fpk
from .fpk import some, ty
from .ref import mask

VECTORS = (BitVector, UIntVector, SIntVector)
WIDTHS = (1, 2, 3, 4, 5, 7, 8, 12, 16, 31, 32, 33, 53, 54, 63, 64, 65, 100, 128, 200, 257)


def draws(f, n):
    return [f() for _ in range(n)]


@group(60, 1500)
def vector_random(ctx, rng):
    """types, ranges, every bit varying (300 draws: a fair bit stays put with
    probability 2^-299), a spread of values"""
    K = rng.choice(VECTORS)
    w = rng.choice(WIDTHS)
    xs = draws(lambda: K.random(w), 300)
    ones = zeros = 0
    for x in xs:
        ctx.check(type(x) is K[w], 'type of a random vector', lambda: f'{K.__name__}.random({w}): {type(x).__name__}')
        v = x.as_uint()
        ctx.check(type(v) is int and 0 <= v <= mask(w), 'range of a random vector', lambda: f'{K.__name__}.random({w}): {v}')
        ones |= v
        zeros |= ~v & mask(w)
        ctx.ev((K.__name__, w, v))
    ctx.check(ones == mask(w), 'a bit of random vectors is never set', lambda: f'{K.__name__}.random({w}): {ones:#x}')
    ctx.check(zeros == mask(w), 'a bit of random vectors is always set', lambda: f'{K.__name__}.random({w}): {~zeros & mask(w):#x}')
    vals = {x.as_uint() for x in xs}
    if w >= 32:                             # 300 draws of >= 32 bits: a repeat has odds 1e-5 at 32 bits
        ctx.check(len(vals) > 290, 'random vectors repeat', lambda: f'{K.__name__}.random({w}): {len(vals)} of 300')
        # adjacent bits are not tied together: all four combinations appear at every position
        for i in range(w - 1):
            ctx.check(len({(v >> i) & 3 for v in vals}) == 4, 'neighbouring bits of random vectors depend on each other', lambda: f'{K.__name__}.random({w}) bit {i}')
    ctx.sample(f'{K.__name__}.random({w})')


@group(30, 300)
def small_ranges(ctx, rng):
    """all values of a small width appear"""
    K = rng.choice(VECTORS)
    w = rng.choice((1, 2, 3, 4, 5))
    vals = {x.as_uint() for x in draws(lambda: K.random(w), 60 << w)}     # miss odds < 2^w e^-60
    ctx.check(vals == set(range(1 << w)), 'values never drawn', lambda: f'{K.__name__}.random({w}): {sorted(set(range(1 << w)) - vals)}')
    for v in vals:
        ctx.ev((K.__name__, w, v))
    bs = draws(Bit.random, 200)
    ctx.check(all(type(b) is Bit for b in bs), 'type of a random bit', bs[:3])
    ctx.check({bool(b) for b in bs} == {True, False}, 'values of a random bit')
    ctx.ev(('Bit', tuple(bool(b) for b in bs[:20])), 'bits')
    ctx.sample(f'{K.__name__}.random({w}): {len(vals)} values')


def fields(t, x):
    b = x.reinterpret_as_bv().as_uint()
    return b >> (t.eb + t.mb), (b >> t.mb) & mask(t.eb), b & mask(t.mb)


@group(120, 3000)
def fp_random(ctx, rng):
    t = some(rng)
    inf = rng.random() < .5
    how = rng.randrange(3) if inf else rng.randrange(2)
    call = ((lambda: t.T.random(inf)), (lambda: t.T.random(allow_inf=inf)), (lambda: t.T.random()))[how]
    so, eo, mo, sz, ez, mz = 0, 0, 0, 0, 0, 0
    n, infs, exps = 400, 0, set()
    for x in draws(call, n):
        ctx.check(type(x) is t.T, 'type of a random float', type(x))
        c = [k for k, m in (('NaN', 'fp_is_NaN'), ('zero', 'fp_is_zero'), ('subnormal', 'fp_is_subnormal')) if bool(getattr(x, m)())]
        ctx.check(not c, f'random float is {c and c[0]}', lambda: f'{t.T.__name__} {x!r}')
        s, e, m = fields(t, x)
        ctx.check(e != 0 and (e != mask(t.eb) or m == 0), 'random float is no normal number or infinity', lambda: f'{t.T.__name__} {(s, e, m)}')
        isinf = e == mask(t.eb)
        infs += isinf
        ctx.check(bool(x.fp_is_infinite()) == isinf, 'random float: infinite or not', lambda: repr(x))
        ctx.check(inf or not isinf, 'infinity drawn though disallowed', lambda: f'{t.T.__name__} {x!r}')
        so |= s; sz |= s ^ 1
        eo |= e; ez |= ~e & mask(t.eb)
        if not isinf:
            exps.add(e)
            mo |= m; mz |= ~m & mask(t.mb)
        ctx.ev((t.key, s, e, m))
    d = lambda: f'{t.T.__name__}: ones {so} {eo:#x} {mo:#x}, zeros {sz} {ez:#x} {mz:#x}'
    ctx.check(so and sz, 'sign of random floats never varies', d)
    ctx.check(eo == mask(t.eb) and ez == mask(t.eb), 'an exponent bit of random floats never varies', d)
    ctx.check(mo == mask(t.mb) and mz == mask(t.mb), 'a mantissa bit of random floats never varies', d)
    if t.eb <= 3:                           # both extremes of a small range
        ctx.check(exps == set(range(1, mask(t.eb))), 'exponents never drawn', lambda: f'{t.T.__name__}: {sorted(exps)}')
        ctx.check(infs > 0 or not inf, 'infinity never drawn though allowed', d)
    ctx.sample(f'{t.T.__name__}.random(allow_inf={inf})')


@group(100, 2000)
def reproducible(ctx, rng):
    """one seed, one sequence - whatever other types were used before"""
    t = some(rng)
    plan = []
    for _ in range(20):
        r = rng.random()
        if r < .3:
            plan.append(lambda: bool(Bit.random()))
        elif r < .7:
            K, w = rng.choice(VECTORS), rng.choice(WIDTHS)
            plan.append(lambda K=K, w=w: K.random(w).as_uint())
        else:
            a = rng.random() < .5
            plan.append(lambda a=a: t.T.random(a).reinterpret_as_bv().as_uint())
    seed = rng.getrandbits(32)
    seqs = []
    for k in range(2):
        random.seed(seed)
        seqs.append([f() for f in plan])
        some(rng).T(k).fp_add(1)
    ctx.check(seqs[0] == seqs[1], 'one seed gave two sequences', lambda: f'{seed}: {seqs}')
    random.seed(seed + 1)
    other = [f() for f in plan]
    ctx.ev((seed, tuple(seqs[0])))
    ctx.check(other != seqs[0], 'the sequence does not depend on the seed')
    ctx.sample(f'seed {seed}: {seqs[0][:6]}')
