import math
import random
from fractions import Fraction
from hwtypes import BitVector, FPVector
from .core import group
from .fpmodel import NAN, RNA, pow2
from . import fpk
from .fpk import some, ty, bits, near, make


def check_value(ctx, t, x, what, detail=''):
    """x is neither NaN nor subnormal, by every route"""
    d = lambda: f'{t.T.__name__}: {detail() if callable(detail) else detail}: {x!r}'
    ctx.check(type(x) is t.T, f'{what}: type', d)
    ctx.check(not bool(x.fp_is_NaN()), f'{what}: NaN', d)
    ctx.check(bool(x == x) and not bool(x != x), f'{what}: unequal to itself', d)
    ctx.check(not bool(x.fp_is_subnormal()), f'{what}: subnormal', d)
    b = x.reinterpret_as_bv().as_uint()
    e, m = (b >> t.mb) & ((1 << t.eb) - 1), b & ((1 << t.mb) - 1)
    ctx.check(e != 0 or m == 0, f'{what}: pattern of a subnormal', d)
    ctx.check(e != (1 << t.eb) - 1 or m == 0, f'{what}: pattern of a NaN', d)
    v = t.F.decode(b)
    ctx.check(bool(x.fp_is_zero()) == (v[0] == 'zero'), f'{what}: zero or not', d)
    ctx.check(bool(x.fp_is_infinite()) == (v[0] == 'inf'), f'{what}: infinite or not', d)
    ctx.check(bool(x.fp_is_normal()) == (v[0] == 'fin'), f'{what}: normal or not', d)
    a = t.T.reinterpret_from_bv(BitVector[t.size](1 << t.mb))          # the smallest normal
    ax = abs(x)
    ctx.check(bool(ax == 0) or bool(ax >= a), f'{what}: below the smallest normal', d)
    if t.eb <= 11 and t.mb <= 52:
        f = float(x)
        ctx.check(f == f and (f == 0 or abs(Fraction(f)) >= t.F.min_normal if abs(f) != math.inf else True), f'{what}: float', d)
    return v


UN = ('fp_neg', 'fp_abs', 'fp_sqrt', 'fp_round_to_integral')
BIN = ('fp_add', 'fp_sub', 'fp_mul', 'fp_div', 'fp_rem', 'fp_min', 'fp_max')


@group(1500, 60000)
def chains(ctx, rng):
    """operation chains that head for the small, the large and the invalid"""
    t = some(rng, ieee=False)
    F = t.F
    T = t.T
    pool = [make(t, bits(rng, t)) for _ in range(4)]
    pool += [make(t, b) for b in rng.sample((1 << t.mb, (1 << t.mb) + 1, 0, 1 << (t.size - 1), F.encode(('inf', 0)), F.encode(('inf', 1)),
                                             (2 << t.mb) - 1, F.encode(('fin', F.max_finite))), 3)]
    trail = []
    for _ in range(rng.randint(4, 20)):
        r = rng.random()
        x, y, z = (rng.choice(pool) for _ in range(3))
        if r < .6:
            op = rng.choice(BIN)
            n, f = op, lambda: getattr(x, op)(y)
        elif r < .75:
            op = rng.choice(UN)
            n, f = op, lambda: getattr(x, op)()
        elif r < .85:
            n, f = 'fp_fma', lambda: x.fp_fma(y, z)
        elif r < .92:
            k = rng.choice((0.5, '1/3', 0.1, 2, 0, math.nan, math.inf, '-nan', 1e-30))
            op = rng.choice(BIN)
            n, f = f'{op} {k}', lambda: getattr(x, op)(k)
        else:
            n, f = 'pattern', lambda: T.reinterpret_from_bv(x.reinterpret_as_bv())
        w = f()
        trail.append(n)
        v = check_value(ctx, t, w, 'chain', lambda: trail)
        ctx.ev((t.key, n, v))
        pool[rng.randrange(len(pool))] = w
    ctx.sample(f'{T.__name__}: {trail}')


@group(3000, 100000)
def constructed(ctx, rng):
    """every way of building a value, aimed at NaN and the subnormal range"""
    t = some(rng, ieee=False)
    F = t.F
    q = F.min_normal * rng.choice((1, Fraction(1, 2), Fraction(1, 2) + pow2(-40), 1 - pow2(-t.mb - 1), 1 - pow2(-t.mb - 2), 1 - pow2(-t.mb), Fraction(1, 3),
                                   Fraction(rng.randint(1, 1 << 20), 1 << 20), pow2(-t.mb), pow2(-t.mb - 5), pow2(-200))) * rng.choice((1, -1))
    ie = ty(t.eb, t.mb, rng.choice(fpk.NAMES), True)
    wide = ty(t.eb + 1, t.mb + 2, rng.choice(fpk.NAMES), True)
    srcs = [f'{q.numerator}/{q.denominator}', q, 'nan', '-nan', math.nan, -math.nan, ie.T('nan'), wide.T('nan'), ie.T(0) / ie.T(0),
            ie.T(q), wide.T(q), make(ie, bits(rng, ie)), make(wide, bits(rng, wide)), make(ie, rng.randint(1, (1 << t.mb) - 1) if t.mb > 1 else 1),
            float(q) if abs(q) < Fraction(10) ** 300 else 0.0]
    for s in srcs:
        x = t.T(s)
        v = check_value(ctx, t, x, 'construction', lambda: repr(s))
        ctx.ev((t.key, str(s)[:50], v))
    # an exact number in the gap below the smallest normal rounds to one of its ends
    want = {'RTZ': 0, 'RTP': q > 0, 'RTN': q < 0}.get(t.mode)
    if want is None and t.mode != RNA:
        want = abs(q) > F.min_normal / 2
    if want is not None and abs(q) < F.min_normal and F.rnd(q)[0] in ('zero', 'fin'):
        x = t.T(q)
        e = F.min_normal if want else 0
        b = x.reinterpret_as_bv().as_uint()
        ctx.check((b >> t.mb) & ((1 << t.eb) - 1) == int(bool(want)) and b >> (t.size - 1) == int(q < 0), 'rounding in the gap around zero',
                  lambda: f'{t.T.__name__}({q}): {b:#x}, expected {e}')
        ctx.ev((t.key, q), 'gap')
    ctx.sample(f'{t.T.__name__} near {float(q) if abs(q) > Fraction(1, 10**300) else 0}')


@group(6000, 250000)
def patterns(ctx, rng):
    """every pattern read as a float"""
    t = some(rng, ieee=False)
    for k in range(3):
        b = rng.getrandbits(t.size)
        if k == 0:
            b &= ~(((1 << t.eb) - 1) << t.mb)
        elif k == 1:
            b |= ((1 << t.eb) - 1) << t.mb
        v = check_value(ctx, t, make(t, b), 'pattern', lambda: hex(b))
        ctx.ev((t.key, b))
    ctx.sample(f'{t.T.__name__} {b:#x}')


CASES = [(f, m) for f in fpk.TINY for m in fpk.NAMES]


@group(len(CASES), len(CASES))
def exhaustive(ctx, rng):
    """all patterns, and all pairs of operands, of tiny formats"""
    f, m = CASES[ctx.case]
    t = ty(*f, m, False)
    for b in range(1 << t.size):
        check_value(ctx, t, make(t, b), 'pattern', lambda: hex(b))
    bs = list(fpk.all_bits(t))
    xs = {b: make(t, b) for b in bs}
    keep = set(bs) if len(bs) <= 24 else set(rng.sample(bs, 10))
    for a in bs:
        for op in UN:
            check_value(ctx, t, getattr(xs[a], op)(), op, lambda: hex(a))
        for b in bs:
            if a in keep or b in keep:
                for op in BIN:
                    v = check_value(ctx, t, getattr(xs[a], op)(xs[b]), op, lambda: (hex(a), hex(b)))
                    ctx.ev((t.key, op, a, b))
    ctx.sample(f'{t.T.__name__}: {len(bs)} values pairwise')


@group(600, 20000)
def invalid(ctx, rng):
    """operations without a result give an infinity"""
    t = some(rng, ieee=False)
    T = t.T
    z, i = T(rng.choice(('0', '-0'))), T(rng.choice(('inf', '-inf')))
    x = make(t, bits(rng, t))
    while bool(x.fp_is_zero()) or bool(x.fp_is_infinite()):
        x = make(t, bits(rng, t))
    n = -abs(x)
    for name, f in (('0/0', lambda: z / z), ('inf/inf', lambda: i / i), ('0*inf', lambda: z * i), ('inf*0', lambda: i * z), ('inf-inf', lambda: i - i),
                    ('inf+-inf', lambda: i + -i), ('sqrt(-)', lambda: n.fp_sqrt()), ('rem by 0', lambda: x % z), ('rem of inf', lambda: i % x),
                    ('sqrt(-inf)', lambda: (-abs(i)).fp_sqrt()), ('fma', lambda: z.fp_fma(i, x)), ('fma cancel', lambda: i.fp_fma(x, -(i * x))),
                    ('nan', lambda: T('nan'))):
        r = f()
        check_value(ctx, t, r, 'invalid operation', name)
        ctx.check(bool(r.fp_is_infinite()), 'invalid operation does not give an infinity', lambda: f'{T.__name__} {name}: {r!r}')
        ctx.ev((t.key, name))
    ctx.sample(f'{T.__name__}: 0/0 and the like')


@group(400, 8000)
def drawn(ctx, rng):
    t = some(rng, ieee=False)
    for _ in range(10):
        v = check_value(ctx, t, t.T.random(rng.random() < .5), 'random')
        ctx.ev((t.key, v))
    ctx.sample(f'{t.T.__name__}.random()')
