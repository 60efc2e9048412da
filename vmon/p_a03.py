from collections import OrderedDict
from hwtypes import Bit, BitVector, UIntVector, SIntVector, SMTBit, SMTBitVector
from hwtypes.adt import Tuple, Product, Sum, Enum, TaggedUnion, AnonymousProduct
from .core import group
from . import adtk
from .adtk import adt, value, same, compare, key, nodes, rebuild, History, Rec, Alt

ALL = ('tuple', 'aprod', 'prod', 'sum', 'tu')
REFUSED = (TypeError, ValueError, IndexError, KeyError, AttributeError)


class OtherE(Enum):
    a = 0
    b = 1


class OtherP(Product):
    x = Bit
    y = BitVector[4]


class OtherU(TaggedUnion):
    x = Bit
    y = BitVector[4]


def lookalike(rng, d):
    """a value of another type with the same shape"""
    t = adtk.twin(rng, d) if rng.random() < .5 else None
    if t is not None:                           # even of the same name
        return value(rng, t, exact=True)[0]
    if d.kind == 'leaf':
        return None
    if d.kind == 'enum':
        E = adtk.mk_class(Enum, adtk.fresh('Like'), dict((k, i) for i, k in enumerate(d.keys)))
        return getattr(E, rng.choice(d.keys))
    if d.kind == 'prod':
        o = adtk.build('prod', d.keys, d.kids)
    elif d.kind == 'tu':
        o = adtk.build('tu', d.keys, d.kids)
    elif d.kind == 'aprod':
        o = adtk.build('aprod', [k + '_' for k in d.keys], d.kids)
    elif d.kind == 'sum':
        o = adtk.build('tu', [f'k{i}' for i in range(len(d.kids))], d.kids)
    else:
        o = adtk.build('tuple', (), d.kids + (adtk.D('leaf', Bit),))
    return value(rng, o)[0]


def bad_value(rng, T, d=None):
    """something that is not an instance of T"""
    for _ in range(100):
        r = rng.random()
        n = rng.choice((1, 2, 3, 4, 5, 8, 16))
        if r < .35:
            c = rng.choice((Bit(1), BitVector[n](1), UIntVector[n](1), SIntVector[n](-1), adtk.Word[n](0)))
        elif r < .6:
            c = rng.choice((0, 1, True, None, 'a', 1.5, (), [], {}, object(), Bit, BitVector[n], T, OtherE, lambda: 0))
        elif r < .8:
            c = rng.choice((OtherE.a, OtherP(Bit(0), BitVector[4](1)), OtherU(x=Bit(1)), Tuple[Bit](Bit(0)), SMTBit(), SMTBitVector[n](),
                            (Bit(0),), AnonymousProduct[dict(x=Bit)](Bit(1)), Sum[Bit](Bit(0))))
        else:
            c = lookalike(rng, d) if d is not None else None
        if c is not None and not isinstance(c, T) or c is None and r < .8:
            return c
    return object()


def refused(ctx, f, kind, detail, x, m, d):
    """f must raise, and x still be the model m and equal to a fresh copy of it"""
    ctx.raises(REFUSED, f, kind, detail)
    if x is not None:
        same(ctx, x, d, m, 'after a refused update')
        y, n = rebuild(x_rng, m)
        compare(ctx, x, m, y, n, 'after a refused update')


import random
x_rng = random.Random(5)


def bad_updates(ctx, rng, x, m):
    """one refused update by each route of the node"""
    d = m.d
    i = rng.randrange(len(d.kids))
    c = d.kids[i]
    b = bad_value(rng, c.T, c)
    what = lambda: f'{d}: {b!r} for field {i}'
    if isinstance(m, Rec):
        def by_index(): x[i] = b
        def by_neg(): x[i - len(d.kids)] = b
        def by_name(): setattr(x, d.keys[i], b)
        ok = x[i]
        far = rng.choice((len(d.kids), len(d.kids) + 3, -len(d.kids) - 1))
        def out_of_range(): x[far] = ok
        def by_slice(): x[rng.choice((slice(None), slice(0, 1), slice(i, i + 1)))] = rng.choice(([ok], (ok,), ok, (ok, ok), []))
        def by_str(): x['nothere'] = ok
        routes = [by_index, by_neg, out_of_range, by_slice, by_str] + ([by_name] if d.kind != 'tuple' else [])
    else:
        def by_name(): setattr(x, d.keys[i], b)
        def by_type(): x[c.T] = b
        F = rng.choice([F for F in (BitVector[11], int, OtherP, object) if all(F is not k.T for k in d.kids)])
        def foreign():
            x[F] = rng.choice((BitVector[11](0), 3, OtherP(Bit(0), BitVector[4](0))))
        v = value(rng, c)[0]
        def tagged_by_type(): x[c.T] = v
        routes = [by_type, foreign] if d.kind == 'sum' else [by_name, by_type, foreign, tagged_by_type]
    for f in routes:
        refused(ctx, f, f'ill-typed update accepted ({f.__name__})', what, x, m, d)
        ctx.ev((d.T.__name__, f.__name__, key(m), type(b).__name__), f.__name__)


@group(500, 20000)
def updates(ctx, rng):
    d = adt(rng, 3, ALL)
    x, m = value(rng, d)
    for y, n in nodes([(x, m)])[:6]:
        bad_updates(ctx, rng, y, n)
        same(ctx, x, d, m, 'whole value after a refused update')
    ctx.sample(f'{d}')


@group(250, 8000)
def histories(ctx, rng):
    """good and bad updates mixed: every field stays an instance of its type"""
    h = History(ctx, rng, ALL)
    for _ in range(rng.randint(5, 12)):
        if rng.random() < .5:
            h.write()
        else:
            x, m = rng.choice(nodes(h.pool))
            bad_updates(ctx, rng, x, m)
        h.check()
    ctx.sample(f'{h.ds}')


def bad_constructions(ctx, rng, d):
    T = d.T
    xs = [value(rng, c, exact=True)[0] for c in d.kids]
    n = len(xs)
    i = rng.randrange(n) if n else 0
    out = []
    if d.kind in ('tuple', 'aprod', 'prod'):
        b = bad_value(rng, d.kids[i].T, d.kids[i])
        ys = list(xs)
        ys[i] = b
        out += [('ill-typed', lambda: T(*ys)), ('too few', lambda: T(*xs[:-1])), ('too many', lambda: T(*xs, xs[i])), ('none', lambda: T())]
        if d.kind != 'tuple':
            kw = dict(zip(d.keys, xs))
            kb = dict(kw); kb[d.keys[i]] = b
            km = dict(kw); km.pop(d.keys[i])
            ke = dict(kw, nothere=xs[i])
            kr = dict(km, nothere=xs[i])
            out += [('keyword ill-typed', lambda: T(**kb)), ('keyword missing', lambda: T(**km)), ('keyword extra', lambda: T(**ke)),
                    ('keyword renamed', lambda: T(**kr)), ('twice', lambda: T(xs[0], **kw)), ('mapping', lambda: T(kw) if n > 1 else T(dict(kw)))]
        else:
            out += [('keyword', lambda: T(**{'x': xs[0]})), ('list', lambda: T(list(xs)))]
        fv = dict(zip(d.keys, xs))
    elif d.kind == 'sum':
        bs = [b for b in (bad_value(rng, c.T, c) for c in d.kids) if not any(isinstance(b, c.T) for c in d.kids)]
        out += [('ill-typed', lambda b=b: T(b)) for b in bs]
        out += [('none', lambda: T()), ('two', lambda: T(xs[0], xs[0])), ('type', lambda: T(d.kids[i].T))]
    else:
        b = bad_value(rng, d.kids[i].T, d.kids[i])
        out += [('ill-typed', lambda: T(**{d.keys[i]: b})), ('none', lambda: T()), ('positional', lambda: T(xs[i])),
                ('unknown tag', lambda: T(**{'nothere': xs[i]}))]
        if n > 1:
            out += [('two tags', lambda: T(**dict(zip(d.keys[:2], xs[:2])))), ('all tags', lambda: T(**dict(zip(d.keys, xs))))]
        out += [('tag and unknown', lambda: T(**{d.keys[i]: xs[i], 'nothere': xs[i]}))]
    return out


@group(700, 20000)
def constructions(ctx, rng):
    d = adt(rng, 2, ALL)
    for e in d.walk():
        if e.kind in ('leaf', 'enum'):
            continue
        for name, f in bad_constructions(ctx, rng, e):
            ctx.raises(REFUSED, f, f'ill-formed value built ({name})', lambda: repr(e))
            ctx.ev((e.T.__name__, name), name)
    ctx.sample(f'{d}')


@group(700, 20000)
def dictionaries(ctx, rng):
    """from_values with bad dictionaries"""
    d = adt(rng, 2, ALL)
    x, m = value(rng, d)
    T = d.T
    good = dict(x.value_dict)
    ks = list(good)
    k = rng.choice(ks)
    i = ks.index(k)
    c = d.kids[[e.T for e in d.kids].index(k)] if d.kind == 'sum' else d.kids[d.keys.index(k)]
    ok = value(rng, c, exact=True)[0]
    b = bad_value(rng, c.T, c)
    while b is None:
        b = bad_value(rng, c.T, c)
    miss = dict(good); miss.pop(k)
    extra = dict(good); extra['nothere' if d.kind not in ('tuple', 'sum') else (len(ks) if d.kind == 'tuple' else BitVector[13])] = ok
    ren = dict(miss); ren['nothere'] = good[k]
    ill = dict(good); ill[k] = b
    tests = [('missing', miss), ('extra', extra), ('renamed', ren), ('ill-typed', ill), ('empty', {})]
    for alias in (-1, -len(ks), len(ks), str(k), f'{k}_', ' ', None, i, i - len(ks)):
        if alias not in good:
            r = dict(miss); r[alias] = good[k]
            tests.append((f'renamed to a {type(alias).__name__}', r))
    if d.kind in ('sum', 'tu'):
        none = {q: None for q in ks}
        tests.append(('no alternative', none))
        if len(ks) > 1:
            two = dict(none)
            for q in rng.sample(ks, 2):
                e = d.kids[[e.T for e in d.kids].index(q)] if d.kind == 'sum' else d.kids[d.keys.index(q)]
                two[q] = value(rng, e, exact=True)[0]
            tests.append(('two alternatives', two))
    else:
        hole = dict(good); hole[k] = None
        tests.append(('a None field', hole))
    for name, v in tests:
        if name == 'ill-typed' and d.kind in ('sum', 'tu'):
            v = {q: (b if q == k else None) for q in ks}
        for M in (dict, OrderedDict):
            before = dict(v)
            a = M(v)
            ctx.raises(REFUSED, lambda: T.from_values(a), f'bad dictionary accepted ({name})', lambda: f'{d}: {v}')
            ctx.check(len(a) == len(before) and all(a[q] is before[q] for q in before), 'from_values changed the dictionary', lambda: f'{d}: {before}')
            ctx.ev((T.__name__, name, key(m)), name)
    same(ctx, x, d, m, 'after refused dictionaries')
    ctx.sample(f'{d}')


@group(300, 5000)
def unbound(ctx, rng):
    """generic types make no values, and enums are not built by value"""
    d = adt(rng, 2, ALL)
    for T in (Product, Sum, TaggedUnion, AnonymousProduct):
        for args, kw in (((), {}), ((Bit(0),), {}), ((), {'x': Bit(0)})):
            try:
                r = T(*args, **kw)
            except Exception:
                ctx.ev((T.__name__, len(args), len(kw)), 'generic')
                continue
            ctx.check(type(r).is_bound, 'value of a generic type', (T, args, kw, r))
    for e in d.walk():
        if e.kind == 'enum':
            for v in (0, 1, e.vals[0], e.keys[0], OtherE.a, None, e.T):
                ctx.raises(REFUSED, lambda: e.T(v), 'enum built by value', (e, v))
                ctx.ev((e.T.__name__, str(v)), 'enum')
            ctx.raises(REFUSED, lambda: e.T(), 'enum built from nothing', e)
            ctx.raises(REFUSED, lambda: e.T(getattr(e.T, e.keys[0]), 1), 'enum built by value', e)
    ctx.sample(f'{d}')
