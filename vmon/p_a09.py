from collections import OrderedDict
from types import MappingProxyType
from hwtypes import Bit, BitVector, UIntVector
from hwtypes.adt import Tuple, Product, Sum, TaggedUnion, AnonymousProduct
from .core import group
from . import adtk
from .adtk import adt, value, same, compare, key, nodes, rebuild, History, Rec, Alt

ALL = ('tuple', 'aprod', 'prod', 'sum', 'tu')
K4 = 'K4-A09'


def dict_of(d):
    return [c.T for c in d.kids] if d.kind == 'sum' else list(d.keys)


def round_trip(ctx, rng, x, m):
    d = m.d
    vd = x.value_dict
    ks = dict_of(d)
    ctx.check(set(vd) == set(ks) and len(vd) == len(ks), 'keys of value_dict', lambda: f'{d}: {vd}')
    if isinstance(m, Rec):
        ctx.check(list(vd) == ks, 'order of value_dict', lambda: f'{d}: {vd}')
    ctx.check(set(vd) == set(d.T.field_dict), 'value_dict and field_dict have different keys', lambda: f'{d}: {vd}')
    # read-only
    k = rng.choice(ks)
    def put(): vd[k] = vd[k]
    def rem(): del vd[k]
    for f in (put, rem):
        ctx.raises((TypeError, AttributeError), f, 'value_dict can be written', lambda: repr(d))
    same(ctx, x, d, m, 'after writing to value_dict')
    snap = dict(vd)
    for M in (lambda v: v, dict, OrderedDict, lambda v: OrderedDict(reversed(list(v.items()))), MappingProxyType):
        y = d.T.from_values(M(vd))
        ctx.check(type(y) is d.T, 'type of from_values', lambda: f'{d}: {type(y)}')
        ctx.check(y is not x, 'from_values returned the original')
        n = Rec(d, m.kids) if isinstance(m, Rec) else Alt(d, m.i, m.kid)
        same(ctx, y, d, n, 'from_values')
        compare(ctx, x, m, y, n, 'from_values')
    ctx.ev(key(m))
    # a snapshot: later writes do not show
    i = rng.randrange(len(d.kids))
    v, vm = value(rng, d.kids[i])
    if d.kind == 'tuple':
        x[i] = v
    elif d.kind == 'sum':
        x[d.kids[i].T] = v
    else:
        setattr(x, d.keys[i], v)
    if rng.random() < .7:                       # whatever is asked of the value meanwhile
        for f in rng.sample((lambda: x.value_dict, lambda: repr(x), lambda: hash(x), lambda: x == x, lambda: d.T.from_values(x.value_dict)), rng.randint(1, 3)):
            f()
    ctx.check(len(vd) == len(snap) and all(vd[q] is snap[q] for q in snap), 'a write shows in a value_dict taken before', lambda: f'{d}: {vd} {snap}')
    same(ctx, y, d, n, 'copy after a write to the original')
    if isinstance(m, Rec):
        m.kids = list(m.kids)
        m.kids[i] = vm
    else:
        m.i, m.kid = i, vm
    same(ctx, x, d, m, 'after the write')


@group(1200, 40000)
def values(ctx, rng):
    d = adt(rng, 3, ALL)
    x, m = value(rng, d)
    for y, n in nodes([(x, m)])[::-1][:6]:
        if y is x or rng.random() < .5:
            # inner nodes: work on a copy, so that the outer model stays in step
            if y is not x:
                y, n = rebuild(rng, n)
            round_trip(ctx, rng, y, n)
    ctx.sample(f'{d}')


@group(500, 10000)
def equal_contents(ctx, rng):
    """values with equal dictionaries are equal, and conversely"""
    d = adt(rng, 2, ALL)
    vs = [value(rng, d, exact=True) for _ in range(5)] 
    vs += [rebuild(rng, m) for x, m in vs[:3]]
    for x, m in vs:
        for y, n in vs:
            a, b = x.value_dict, y.value_dict
            q = set(a) == set(b) and all((a[k] is None) == (b[k] is None) and (a[k] is None or bool(a[k] == b[k])) for k in a)
            want = adtk.model_eq(m, n)
            ctx.check(q == want, 'dictionaries and values disagree', lambda: f'{x!r} {y!r}: {q}, {want}')
            ctx.check(bool(x == y) == want, 'equality', lambda: f'{x!r} {y!r}')
            ctx.ev((key(m), key(n)))
    ctx.sample(f'{d}')


@group(400, 8000)
def by_hand(ctx, rng):
    """dictionaries written by hand, in any key order"""
    d = adt(rng, 2, ALL)
    if d.kind in ('sum', 'tu'):
        i = rng.randrange(len(d.kids))
        v, vm = value(rng, d.kids[i])
        items = [(k, v if j == i else None) for j, k in enumerate(dict_of(d))]
        m = Alt(d, i, vm)
    else:
        ps = [value(rng, c) for c in d.kids]
        items = list(zip(dict_of(d), (p[0] for p in ps)))
        m = Rec(d, [p[1] for p in ps])
    for _ in range(4):
        rng.shuffle(items)
        src = dict(items)
        x = d.T.from_values(src)
        same(ctx, x, d, m, 'from a dictionary written by hand')
        src.clear()
        same(ctx, x, d, m, 'after clearing the dictionary')
        ctx.ev((key(m), tuple(str(k) for k, v in items)))
    ctx.sample(f'{d}')


@group(150, 3000)
def histories(ctx, rng):
    """conversion at every point of a history"""
    h = History(ctx, rng, ALL)
    for _ in range(rng.randint(3, 8)):
        h.write()
        for x, m in h.pool:
            y = m.d.T.from_values(x.value_dict)
            same(ctx, y, m.d, m, 'from_values in a history')
            compare(ctx, x, m, y, m, 'from_values in a history')
            ctx.ev(key(m))
    ctx.sample(f'{h.ds}')


@group(1, 1)
def recorded(ctx, rng):
    S = Sum[BitVector[4], UIntVector[4]]
    s = S(UIntVector[4](3))
    vd = s.value_dict
    ctx.check(vd[UIntVector[4]] is not None, 'the active alternative is None', vd)
    if vd[BitVector[4]] is not None:
        try:
            ok = bool(S.from_values(vd) == s)
        except ValueError:
            ok = False
        if not ok:
            ctx.known_finding(K4, f'{vd} is refused by from_values')
    ctx.ev('recorded')
    ctx.sample('Sum[BitVector[4], UIntVector[4]]')
