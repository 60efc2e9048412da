import itertools
from hwtypes.adt import Tuple, Product, Sum, Enum, TaggedUnion, AnonymousProduct
from .core import group
from . import adtk
from .adtk import adt, D, read_model

ALL = ('tuple', 'aprod', 'prod', 'sum', 'tu')
LIMIT = 1500


def count(d):
    if d.kind == 'enum':
        return len(d.keys)
    if d.kind in ('sum', 'tu'):
        return sum(count(c) for c in d.kids)
    n = 1
    for c in d.kids:
        n *= count(c)
    return n


def members(d):
    """every value's picture"""
    if d.kind == 'enum':
        yield from d.keys
    elif d.kind in ('sum', 'tu'):
        for i, c in enumerate(d.kids):
            for v in members(c):
                yield (d.T.__name__, i, v)
    else:
        for vs in itertools.product(*(list(members(c)) for c in d.kids)):
            yield (d.T.__name__, tuple(vs))


def well_typed(x, d):
    if type(x) is not d.T:
        return False
    if d.kind == 'enum':
        return True
    if d.kind in ('sum', 'tu'):
        for i, c in enumerate(d.kids):
            t = x[c.T] if d.kind == 'sum' else getattr(x, d.keys[i])
            if t.match:
                return well_typed(t.value, c)
        return False
    return all(well_typed(x[i], c) for i, c in enumerate(d.kids))


def check(ctx, d):
    vs = list(d.T.enumerate())
    want = list(members(d))
    ctx.check(len(want) == count(d), 'oracle')
    got = []
    for v in vs:
        ctx.check(well_typed(v, d), 'ill-typed value enumerated', lambda: f'{d}: {v!r}')
        k = read_model(v, d)
        got.append(k)
        ctx.ev(k)
    ctx.check(len(set(got)) == len(got), 'a value enumerated twice', lambda: f'{d}: {[g for g in got if got.count(g) > 1][:2]}')
    ctx.check(len(got) == len(want), 'number of values enumerated', lambda: f'{d}: {len(got)}, expected {len(want)}')
    ctx.check(set(got) == set(want), 'set of values enumerated', lambda: f'{d}: missing {list(set(want) - set(got))[:2]}, extra {list(set(got) - set(want))[:2]}')
    # the values are distinct objects under ==, too
    if len(vs) <= 40:
        for i, a in enumerate(vs):
            for j, b in enumerate(vs):
                ctx.check(bool(a == b) == (i == j), 'enumerated values equal', lambda: f'{d}: {a!r} {b!r}')
        ctx.check(len(set(vs)) == len(vs), 'enumerated values in a set', lambda: repr(d))
    again = [read_model(v, d) for v in d.T.enumerate()]
    ctx.check(sorted(map(repr, again)) == sorted(map(repr, got)), 'second enumeration differs', lambda: repr(d))
    return vs


def ety(rng):
    d = adtk.enum(rng, 1, 3)
    if rng.random() < .15:                      # one that derives from another: its own members only
        names = rng.sample(adtk.ENAMES, rng.randint(1, 3))
        vals = rng.sample(range(20), len(names))
        d = D('enum', adtk.mk_class(d.T, adtk.fresh('De'), dict(zip(names, vals))), names, vals=vals)
    return d


@group(700, 15000)
def types(ctx, rng):
    for _ in range(40):
        d = adt(rng, rng.randint(1, 3), ALL, ety, 3)
        if count(d) <= LIMIT:
            break
    else:
        return
    check(ctx, d)
    ctx.sample(f'{d}: {count(d)} values')


@group(400, 8000)
def shared_parts(ctx, rng):
    """one part type used in several places"""
    pool = [ety(rng) for _ in range(2)]
    for _ in range(3):
        kind = rng.choice(('tuple', 'aprod', 'prod', 'tu'))
        kids = [rng.choice(pool) for _ in range(rng.randint(1, 3))]
        d = adtk.build(kind, rng.sample(adtk.NAMES, len(kids)), kids)
        if count(d) <= 60:
            pool.append(d)
    kids = [rng.choice(pool) for _ in range(2)]
    d = adtk.build(rng.choice(('tuple', 'prod', 'tu')), ('x', 'y'), kids)
    if count(d) <= 4000:
        check(ctx, d)
    else:
        check(ctx, pool[-1])
    ctx.sample(f'{d}')


@group(300, 5000)
def independent(ctx, rng):
    """enumerations interleaved, abandoned half way, or of mutated values"""
    for _ in range(40):
        d = adt(rng, 2, ALL, ety, 3)
        if 2 <= count(d) <= 200:
            break
    else:
        return
    a, b = d.T.enumerate(), d.T.enumerate()
    got = []
    next(iter(b))
    for v in a:
        got.append(read_model(v, d))
        if d.kind not in ('sum', 'tu') and rng.random() < .3:        # edit a yielded value
            i = rng.randrange(len(d.kids))
            w = rng.choice(list(d.T.enumerate()))
            v[i] = w[i]
        elif d.kind in ('sum', 'tu') and rng.random() < .3:
            i = rng.randrange(len(d.kids))
            w = rng.choice(list(d.kids[i].T.enumerate()))
            if d.kind == 'sum':
                v[d.kids[i].T] = w
            else:
                setattr(v, d.keys[i], w)
        if rng.random() < .2:
            next(b, None)
        ctx.ev(got[-1])
    ctx.check(sorted(map(repr, got)) == sorted(map(repr, members(d))), 'enumeration disturbed', lambda: repr(d))
    # nor does it remember what became of the values it gave before
    k = rng.randrange(2)
    for _ in range(2):
        vs = list(d.T.enumerate())
        ctx.check(sorted(repr(read_model(v, d)) for v in vs) == sorted(map(repr, members(d))), 'enumeration after edits', lambda: repr(d))
        if d.kind not in ('sum', 'tu'):
            for v in vs:
                for i, c in enumerate(d.kids):
                    if k:
                        v[i] = vs[0][i]
                    elif c.kind not in ('sum', 'tu') and c.kids:
                        v[i][0] = vs[0][i][0]           # an edit further down
        else:
            for v in vs:
                if d.kind == 'sum':
                    v[d.kids[0].T] = next(iter(d.kids[0].T.enumerate()))
                else:
                    setattr(v, d.keys[0], next(iter(d.kids[0].T.enumerate())))
    ctx.sample(f'{d}: {count(d)} values, interleaved')


@group(60, 600)
def edge(ctx, rng):
    """no fields, one field, one member"""
    E = D('enum', adtk.mk_class(Enum, adtk.fresh('One'), {'only': 3}), ['only'], vals=[3])
    for d in (E, adtk.build('tuple', (), []), adtk.build('tuple', (), [E]), adtk.build('prod', ['x'], [E]), adtk.build('tu', ['x', 'y'], [E, E]),
              adtk.build('sum', (), [E]), adtk.build('aprod', ['x', 'y'], [E, E]), adtk.build('tuple', (), [adtk.build('tuple', (), []), E])):
        check(ctx, d)
    ctx.sample('empty tuple, single members')
