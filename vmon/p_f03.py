import itertools
import operator
from hwtypes import Bit
from .core import group
from .fpmodel import NAN
from . import fpk
from .fpk import some, ty, bits, near, make, all_bits

CLASSES = {'normal': 'fp_is_normal', 'subnormal': 'fp_is_subnormal', 'zero': 'fp_is_zero', 'infinite': 'fp_is_infinite', 'NaN': 'fp_is_NaN'}
CMPS = (  # infix, named, model
    (operator.eq, 'fp_eq', lambda F, a, b: F.eq(a, b)),
    (operator.lt, 'fp_lt', lambda F, a, b: F.lt(a, b)),
    (operator.le, 'fp_leq', lambda F, a, b: F.le(a, b)),
    (operator.gt, 'fp_gt', lambda F, a, b: F.lt(b, a)),
    (operator.ge, 'fp_geq', lambda F, a, b: F.le(b, a)),
    (operator.ne, None, lambda F, a, b: not F.eq(a, b)),
)


def bit(ctx, r, want, kind, detail):
    ctx.check(type(r) is Bit, f'{kind}: type', lambda: f'{detail()}: {type(r)}')
    ctx.check(bool(r) == want, kind, lambda: f'{detail()}: got {bool(r)}, expected {want}')


def classify(ctx, t, x, v, b):
    F = t.F
    c = F.classify(v)
    d = lambda: f'{t.T.__name__} {b if not isinstance(b, int) else hex(b)}'
    for name, m in CLASSES.items():
        bit(ctx, getattr(x, m)(), name == c, m, d)
    bit(ctx, x.fp_is_negative(), v != NAN and F.key(v) < (0, 0), 'fp_is_negative', d)
    bit(ctx, x.fp_is_positive(), v != NAN and F.key(v) > (0, 0), 'fp_is_positive', d)
    ctx.ev((t.key, b), c)


def compare(ctx, t, x, y, a, b, bb):
    F = t.F
    for op, named, model in CMPS:
        want = model(F, a, b)
        d = lambda: f'{op.__name__} in {t.T.__name__} of {bb}'
        bit(ctx, op(x, y), want, f'{op.__name__}', d)
        if named:
            bit(ctx, getattr(x, named)(y), want, named, d)
    ctx.ev((t.key, bb), 'compared')


@group(6000, 300000)
def values(ctx, rng):
    t = some(rng)
    b0 = bits(rng, t)
    bs = [b0, near(rng, t, b0), bits(rng, t)]
    xs = [make(t, b) for b in bs]
    vs = [t.F.decode(b) for b in bs]
    for x, v, b in zip(xs, vs, bs):
        classify(ctx, t, x, v, b)
    if rng.random() < .25:                  # operands of other classes of this format
        xs = [make(fpk.sibling(rng, t), b) for b in bs]
    for i, j in itertools.product(range(3), repeat=2):
        compare(ctx, t, xs[i], xs[j], vs[i], vs[j], (bs[i], bs[j]))
    ctx.sample(f'{t.T.__name__} {[hex(b) for b in bs]}')


CASES = [(f, m, i) for f in ((2, 1), (2, 2), (3, 1), (3, 2), (2, 3)) for m in fpk.NAMES for i in (True, False)]


@group(len(CASES), len(CASES))
def exhaustive(ctx, rng):
    """all values, and all pairs, of a tiny format"""
    f, m, i = CASES[ctx.case]
    t = ty(*f, m, i)
    bs = list(all_bits(t))
    xs = [make(t, b) for b in bs]
    vs = [t.F.decode(b) for b in bs]
    for x, v, b in zip(xs, vs, bs):
        classify(ctx, t, x, v, b)
    keep = set(bs) if len(bs) <= 40 else set(rng.sample(bs, 16))
    for x, a, p in zip(xs, vs, bs):
        for y, b, q in zip(xs, vs, bs):
            if p in keep or q in keep:
                compare(ctx, t, x, y, a, b, (p, q))
    ctx.sample(f'{t.T.__name__}: all {len(bs)} values pairwise')


@group(3000, 60000)
def computed(ctx, rng):
    """classification and comparison of results (RNA left out: recorded finding F01)"""
    t = some(rng, mode=rng.choice(('RNE', 'RTP', 'RTN', 'RTZ')))
    F = t.F
    bs = [bits(rng, t) for _ in range(2)]
    x, y = (make(t, b) for b in bs)
    a, b = (F.decode(b) for b in bs)
    fix = lambda v: v
    rs = [(x + y, F.add(a, b)), (x - y, F.sub(a, b)), (x * y, F.mul(a, b)), (x / y, F.div(a, b)), (-x, F.neg(a)), (abs(y), F.abs(b))]
    rs = [(r, v) for r, v in rs if v != NAN or t.ieee]
    for r, v in rs:
        classify(ctx, t, r, v, (fpk.show(t, v), tuple(bs)))
    for (r, v), (s, w) in itertools.combinations(rs, 2):
        compare(ctx, t, r, s, v, w, (fpk.show(t, v), fpk.show(t, w)))
    ctx.sample(f'results in {t.T.__name__}')


@group(2000, 40000)
def order(ctx, rng):
    """sorting patterns by the total order of the reals they denote"""
    t = some(rng)
    bs = [bits(rng, t, nan=False) for _ in range(8)]
    xs = [make(t, b) for b in bs]
    vs = [t.F.decode(b) for b in bs]
    got = sorted(range(8), key=_key(xs))
    want = sorted(range(8), key=lambda i: t.F.key(vs[i]))
    ctx.check(got == want, 'sorted order', lambda: f'{t.T.__name__} {[hex(b) for b in bs]}: {got} vs {want}')
    ctx.ev((t.key, tuple(bs)))
    ctx.sample(f'sorted {t.T.__name__} {[hex(b) for b in bs]}')


def _key(xs):
    class K:
        def __init__(self, i): self.i = i
        def __lt__(self, o): return bool(xs[self.i] < xs[o.i])
    return K
