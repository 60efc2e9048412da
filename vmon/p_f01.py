import itertools
from hwtypes import BitVector
from .core import group
from .fpmodel import NAN, RNA
from . import fpk
from .fpk import some, ty, bits, near, make, expect, all_bits

K3 = 'K3-F01'


def fmin(F, a, b, big=False):
    if a == NAN: return b
    if b == NAN: return a
    ka, kb = F.key(a), F.key(b)
    if ka == kb:
        if a[0] == 'zero':
            neg = a[1] and b[1] if big else a[1] or b[1]
            return ('zero', int(bool(neg)))
        return a
    return a if (ka < kb) != big else b


# name, arity, call, model
OPS = (
    ('fp_add', 2, lambda F, m, a, b: F.add(a, b, m)),
    ('fp_sub', 2, lambda F, m, a, b: F.sub(a, b, m)),
    ('fp_mul', 2, lambda F, m, a, b: F.mul(a, b, m)),
    ('fp_div', 2, lambda F, m, a, b: F.div(a, b, m)),
    ('fp_rem', 2, lambda F, m, a, b: F.rem(a, b, m)),
    ('fp_fma', 3, lambda F, m, a, b, c: F.fma(a, b, c, m)),
    ('fp_sqrt', 1, lambda F, m, a: F.sqrt(a, m)),
    ('fp_round_to_integral', 1, lambda F, m, a: F.rint(a, m)),
    ('fp_neg', 1, lambda F, m, a: F.neg(a)),
    ('fp_abs', 1, lambda F, m, a: F.abs(a)),
    ('fp_min', 2, lambda F, m, a, b: fmin(F, a, b)),
    ('fp_max', 2, lambda F, m, a, b: fmin(F, a, b, True)),
)
INFIX = {'fp_add': '__add__', 'fp_sub': '__sub__', 'fp_mul': '__mul__', 'fp_div': '__truediv__', 'fp_rem': '__mod__',
         'fp_neg': '__neg__', 'fp_abs': '__abs__'}


def one(ctx, t, op, n, model, xs, vs, bs, infix=False):
    F = t.F
    f = getattr(xs[0], INFIX[op] if infix and op in INFIX else op)
    r = f(*xs[1:n])
    want = lambda m: model(F, m, *vs[:n])
    got = expect(ctx, t, r, want, op, lambda: [hex(b) for b in bs[:n]], K3)
    ctx.ev((op, t.key, tuple(bs[:n])), op)
    return r, got


@group(5000, 250000)
def operations(ctx, rng):
    """every operation on one operand triple of a random format"""
    t = some(rng)
    b0 = bits(rng, t)
    bs = [b0, near(rng, t, b0) if rng.random() < .5 else bits(rng, t), bits(rng, t)]
    r = rng.random()
    if r < .2:
        bs[2] = near(rng, t, bs[0])
    vs = [t.F.decode(b) for b in bs]
    if r > .8 and NAN not in vs:            # an addend that nearly cancels the product
        p = t.F.neg(t.F.mul(vs[0], vs[1]))
        if p != NAN:
            bs[2] = near(rng, t, t.F.encode(p)) if rng.random() < .5 else t.F.encode(p)
            vs[2] = t.F.decode(bs[2])
    xs = [make(t, b) for b in bs]
    ts = [t, t, t]
    if rng.random() < .2:                   # operands of other classes of this format
        ts = [t] + [fpk.sibling(rng, t) for _ in bs[1:]]
        xs = [make(u, b) for u, b in zip(ts, bs)]
    if rng.random() < .12:                  # one object as several operands
        for i in rng.choice(((1,), (2,), (1, 2))):
            xs[i], vs[i], bs[i], ts[i] = xs[0], vs[0], bs[0], t
    for op, n, model in OPS:
        one(ctx, t, op, n, model, xs, vs, bs, rng.random() < .3)
    for u, x, v in zip(ts, xs, vs):         # operands are unharmed
        expect(ctx, u, x, v, 'operand after the operations', None)
    ctx.sample(f'{[u.T.__name__ for u in ts]} on {[hex(b) for b in bs]}')


@group(3000, 100000)
def hard_cases(ctx, rng):
    """results built to lie exactly on, or a hair beside, a rounding boundary"""
    t = some(rng, ieee=True if rng.random() < .7 else None)
    F = t.F
    vs = [F.decode(bits(rng, t, nan=False)) for _ in range(3)]
    if any(v[0] != 'fin' for v in vs):
        vs = [('fin', (1 + rng.getrandbits(t.mb) * fpk.pow2(-t.mb)) * rng.choice((1, -1))) for _ in range(3)]
    kind = rng.choice(('half', 'square', 'int', 'sub', 'huge'))
    a = vs[0]
    if kind == 'half':                      # a + (half ulp of a) (+- tiny)
        e = fpk.pow2(max(_log2(abs(a[1])), F.emin) - t.mb - 1)
        b = F.rnd(e * rng.choice((1, -1)) * rng.choice((1, 1, 1 + fpk.pow2(-t.mb), 1 - fpk.pow2(-t.mb - 1))))
        vs[1] = b
    elif kind == 'square':
        r = F.rnd(fpk.Fraction(rng.randint(1, 1 << ((t.mb + 1) // 2 + 1))))
        vs[0] = F.mul(r, r) if r[0] == 'fin' else a
        vs[1] = r
    elif kind == 'int':                     # integers and halves
        q = fpk.Fraction(rng.randint(-(1 << min(t.mb, 60)), 1 << min(t.mb, 60)), rng.choice((1, 2, 2, 4)))
        vs[0] = F.rnd(q)
        vs[1] = F.rnd(fpk.Fraction(rng.choice((1, 2, 3, 4, 5, 7)), rng.choice((1, 2))))
    elif kind == 'sub':                     # products/quotients in and below the subnormals
        vs[0] = F.rnd(F.min_normal * rng.choice((1, 1, 2, 3)) * rng.choice((1, -1)))
        vs[1] = F.rnd((1 + fpk.Fraction(rng.getrandbits(t.mb), 1 << t.mb)) * fpk.pow2(-rng.randint(0, t.mb + 2)))
    else:
        vs[0] = F.rnd(F.max_finite * rng.choice((1, -1)))
        vs[1] = F.rnd(rng.choice((F.max_finite * fpk.pow2(-rng.randint(0, t.mb + 3)), fpk.Fraction(1), fpk.Fraction(2),
                                  1 + fpk.pow2(-t.mb))) * rng.choice((1, -1)))
    bs = [F.encode(v) for v in vs]
    xs = [make(t, b) for b in bs]
    for op, n, model in OPS:
        one(ctx, t, op, n, model, xs, vs, bs)
    ctx.sample(f'{kind}: {t.T.__name__} on {[hex(b) for b in bs]}')


def _log2(q):
    from .fpmodel import floor_log2
    return floor_log2(q)


CASES = [(f, m, i) for f in ((2, 1), (2, 2), (3, 1), (3, 2)) for m in fpk.NAMES for i in (True, False)]


@group(len(CASES), len(CASES), name='exhaustive')
def exhaustive(ctx, rng):
    """every operand pair of a tiny format (the formats in turn)"""
    f, m, i = CASES[ctx.case % len(CASES)]
    t = ty(*f, m, i)
    bs = list(all_bits(t))
    if t.size >= 6:
        keep = set(rng.sample(bs, 24))
    else:
        keep = set(bs)
    xs = {b: make(t, b) for b in bs}
    vs = {b: t.F.decode(b) for b in bs}
    for a in bs:
        for op, n, model in OPS:
            if n == 1:
                one(ctx, t, op, 1, model, [xs[a]], [vs[a]], [a])
        for b in bs:
            if a not in keep and b not in keep:
                continue
            for op, n, model in OPS:
                if n == 2:
                    one(ctx, t, op, 2, model, [xs[a], xs[b]], [vs[a], vs[b]], [a, b])
            if rng.random() < .3:
                c = rng.choice(bs)
                one(ctx, t, 'fp_fma', 3, OPS[5][2], [xs[a], xs[b], xs[c]], [vs[a], vs[b], vs[c]], [a, b, c])
    ctx.sample(f'{t.T.__name__}: all {len(bs)} values pairwise')


@group(800, 20000)
def chains(ctx, rng):
    """each result feeds the next operation; values must not drift from the model
    (a result that carries hidden extra precision shows up a step later)"""
    t = some(rng)
    while t.mode == RNA:
        t = some(rng)
    pool = [(make(t, b), t.F.decode(b), b) for b in (bits(rng, t) for _ in range(4))]
    for _ in range(rng.randint(5, 25)):
        op, n, model = rng.choice(OPS)
        args = [rng.choice(pool) for _ in range(n)]
        want = model(t.F, t.mode, *[a[1] for a in args])
        r = getattr(args[0][0], op)(*[a[0] if rng.random() < .9 else fpk.sibling(rng, t).T(a[0]) for a in args[1:]])
        got = expect(ctx, t, r, want, f'{op} in a chain', lambda: [fpk.show(t, a[1]) for a in args])
        ctx.ev((op, t.key, got), 'step')
        pool[rng.randrange(len(pool))] = (r, got, None)
    ctx.sample(f'chain in {t.T.__name__}')


@group(1, 1)
def recorded(ctx, rng):
    """the recorded RNA finding, at fixed inputs"""
    t = ty(5, 10, 'RNA', True)
    one_, tiny = make(t, t.F.encode(t.F.rnd(fpk.Fraction(1)))), make(t, 1)
    r = one_.fp_add(tiny)
    expect(ctx, t, r, lambda m: t.F.add(('fin', fpk.Fraction(1)), t.F.decode(1), m), 'fp_add', '1 + 2^-24', K3)
    ctx.ev('recorded')
    ctx.sample('half precision RNA: 1 + 2^-24')
