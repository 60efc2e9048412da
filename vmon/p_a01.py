from hwtypes.adt import Tuple, Product, AnonymousProduct
from .core import group
from . import adtk
from .adtk import History, adt, value, same, compare, key, nodes

REC = ('tuple', 'aprod', 'prod')


def run(ctx, rng, kinds, steps):
    h = History(ctx, rng, kinds)
    h.check()
    for _ in range(steps):
        r = rng.random()
        if r < .15:
            h.new()
        else:
            d, i, v = h.write()
        h.check()
        if rng.random() < .5:
            h.pairs(2)
    h.pairs(6)
    ctx.sample(f'{h.ds}: {steps} steps, {len(nodes(h.pool))} live nodes')


@group(350, 15000)
def histories(ctx, rng):
    run(ctx, rng, REC, rng.randint(5, 20))


@group(200, 6000)
def mixed_histories(ctx, rng):
    """sums and unions among the fields"""
    run(ctx, rng, REC + ('sum', 'tu'), rng.randint(5, 15))


@group(500, 8000)
def from_types(ctx, rng):
    """Tuple(values) binds to the values' types"""
    ds = [adtk.node(rng, 2, REC + ('sum', 'tu')) for _ in range(rng.randint(0, 5))]
    ps = [value(rng, d, exact=True) for d in ds]
    xs = [p[0] for p in ps]
    t = Tuple(*xs)
    ctx.check(type(t) is Tuple[tuple(type(x) for x in xs)], 'type of a tuple built from values', type(t))
    ctx.check(type(t).fields == tuple(type(x) for x in xs) and type(t).is_bound, 'fields of a tuple built from values', type(t))
    for i, x in enumerate(xs):
        ctx.check(t[i] is x, 'field of a tuple built from values', (t, i))
        ctx.ev((type(t).__name__, i, key(ps[i][1])))
    u = Tuple(*xs)
    ctx.check(bool(t == u) and not bool(t != u) and hash(t) == hash(u) and type(t) is type(u), 'two tuples built from the same values', t)
    ctx.ev((type(t).__name__, len(xs)), 'built')
    ctx.sample(f'Tuple{tuple(ds)}')


@group(600, 10000)
def hashes(ctx, rng):
    """values as dictionary keys and set members"""
    d = adt(rng, 2, REC + ('sum', 'tu'))
    vs = [value(rng, d, exact=True) for _ in range(8)]
    vs += [adtk.rebuild(rng, m) for x, m in vs[:4]]
    s = set(x for x, m in vs)
    classes = []
    for x, m in vs:
        if not any(adtk.model_eq(m, n) for n in classes):
            classes.append(m)
    ctx.check(len(s) == len(classes), 'size of a set of values', lambda: f'{d}: {s} vs {len(classes)}')
    table = {}
    for i, (x, m) in enumerate(vs):
        table[x] = i
    for x, m in vs:
        j = max(i for i, (y, n) in enumerate(vs) if adtk.model_eq(m, n))
        ctx.check(table[x] == j, 'lookup of a value', lambda: f'{x!r}')
        ctx.ev((key(m), j))
    ctx.sample(f'{d}: {len(classes)} distinct of {len(vs)}')


@group(600, 10000)
def written_then_hashed(ctx, rng):
    """a value written to until it equals another hashes like it"""
    d = adt(rng, 2, REC)
    x, m = value(rng, d)
    y, n = value(rng, d)
    hash(x), hash(y)
    order = list(range(len(d.kids)))
    rng.shuffle(order)
    for i in order:
        compare(ctx, x, m, y, n, 'before the last write')
        if d.kind == 'tuple' or rng.random() < .5:
            x[i] = y[i]
        else:
            setattr(x, d.keys[i], getattr(y, d.keys[i]))
        m.kids[i] = n.kids[i]
        ctx.ev((key(m), key(n)))
    ctx.check(bool(x == y) and bool(y == x) and hash(x) == hash(y) and not bool(x != y), 'after writing all fields', lambda: f'{x!r} {y!r}')
    same(ctx, x, d, m, 'after writing all fields')
    ctx.sample(f'{d}')


@group(400, 8000)
def related_types(ctx, rng):
    """a value and one of a derived type, or of the tuple a product is: == says
    whether the fields agree, and equal values are one dictionary key"""
    d = adt(rng, 2, REC)
    T = d.T
    subs = [T]
    for base in (T, T):
        subs.append(type(T)(adtk.fresh('Derived'), (base,), {}) if d.kind != 'prod' else type(adtk.fresh('Derived'), (T,), {}))
    for B in T.__mro__[1:]:
        if isinstance(B, type(Tuple)) and getattr(B, 'is_bound', False):
            subs.append(B)
    x, m = value(rng, d, exact=True)
    y, n = value(rng, d, exact=True)
    def args(z): return [z[i] for i in range(len(d.kids))]
    for P in subs:
        for Q in subs:
            if not (issubclass(P, Q) or issubclass(Q, P)):
                continue
            for (v, mv), (w, mw) in (((x, m), (y, n)), ((x, m), (x, m))):
                p, q = P(*args(v)), Q(*args(w))
                want = adtk.model_eq(mv, mw)
                ctx.check(bool(p == q) == want and bool(q == p) == want and bool(p != q) != want,
                          'equality of values of related types', lambda: f'{P} {Q}: {p!r} {q!r}')
                if want:
                    ctx.check(hash(p) == hash(q) and len({p, q}) == 1, 'equal values of related types hash differently',
                              lambda: f'{P} {Q}: {p!r} {q!r}')
                ctx.ev((P.__name__, Q.__name__, key(mv), key(mw)))
    ctx.sample(f'{d}: {len(subs)} related types')
