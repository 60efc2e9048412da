import warnings

from hwtypes import Bit, BitVector, UIntVector, SIntVector
from hwtypes.adt import Sum, TaggedUnion
from .core import group
from . import adtk
from .adtk import History, adt, value, same, compare, key, nodes, Alt

ALT = ('sum', 'tu')
ALL = ('tuple', 'aprod', 'prod', 'sum', 'tu')
K4 = 'K4-A02'


def run(ctx, rng, kinds, steps):
    h = History(ctx, rng, kinds)
    h.check()
    for _ in range(steps):
        if rng.random() < .15:
            h.new()
        else:
            h.write()
        h.check()
        if rng.random() < .5:
            h.pairs(2)
    h.pairs(6)
    ctx.sample(f'{h.ds}: {steps} steps')


@group(400, 15000)
def histories(ctx, rng):
    run(ctx, rng, ALT, rng.randint(5, 20))


@group(200, 6000)
def nested_histories(ctx, rng):
    run(ctx, rng, ALL, rng.randint(5, 15))


def plain_value(ctx, d, x, v):
    """the (deprecated) .value is what was set last"""
    if d.kind == 'sum' or 'value' not in d.keys:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            ctx.check(x.value is v, 'value is not what was set', lambda: f'{d}: {x.value!r} {v!r}')


def all_settings(ctx, rng, d, x, m, n):
    """set alternatives in turn; after each exactly that one matches"""
    for _ in range(n):
        i = rng.randrange(len(d.kids))
        v, vm = value(rng, d.kids[i])
        old, om = adtk.rebuild(rng, m) if rng.random() < .5 else (None, None)
        if d.kind == 'sum':
            x[d.kids[i].T] = v
        else:
            setattr(x, d.keys[i], v)
        m.i, m.kid = i, vm
        same(ctx, x, d, m, 'after assignment')
        t = x[d.kids[i].T] if d.kind == 'sum' else getattr(x, d.keys[i])
        ctx.check(t.value is v, 'the matched value is not the one set', lambda: f'{d}: {t.value!r} {v!r}')
        plain_value(ctx, d, x, v)
        ctx.ev((key(m),))
        if rng.random() < .3:
            y, my = adtk.again(x, m)
            same(ctx, y, d, my, 'built from its fields')
            compare(ctx, x, m, y, my, 'built from its fields')
        if old is not None:
            compare(ctx, x, m, old, om, 'against the previous state')


@group(800, 20000)
def assignments(ctx, rng):
    d = adt(rng, 2, ALT)
    x, m = value(rng, d)
    all_settings(ctx, rng, d, x, m, 8)
    ctx.sample(f'{d}')


@group(600, 15000)
def same_type_tags(ctx, rng):
    """unions whose tags all have one type; equal payloads under different tags"""
    k = rng.randint(2, 6)
    c = adtk.leaf(rng) if rng.random() < .6 else adtk.node(rng, 1, ALL)
    keys = rng.sample(adtk.NAMES, k)
    d = adtk.build('tu', keys, [c] * k, how=rng.choice(('class', 'from_fields')))
    v, vm = value(rng, c)
    xs = [(d.T(**{t: v}), Alt(d, i, vm)) for i, t in enumerate(keys)]
    for x, m in xs:
        same(ctx, x, d, m, 'equal payload')
        for y, n in xs:
            compare(ctx, x, m, y, n, 'equal payload')
            ctx.ev((m.i, n.i, key(vm)))
    x, m = xs[0]
    all_settings(ctx, rng, d, x, m, 5)
    ctx.sample(f'{d}')


@group(600, 15000)
def similar_alternatives(ctx, rng):
    """alternatives whose values are alike: one pattern in several vector types"""
    n = rng.choice((1, 2, 4, 8))
    Ts = rng.sample([UIntVector[n], SIntVector[n], BitVector[n + 1], UIntVector[n + 1], adtk.Word[n], BitVector[n + 2]], rng.randint(2, 5))
    if n == 1:
        Ts.append(Bit)
    ds = [adtk.D('leaf', T) for T in Ts]
    if not adtk.unrelated(ds):
        ds = [e for i, e in enumerate(ds) if adtk.unrelated(ds[:i + 1])] or ds[:1]
    d = adtk.build('sum', (), ds)
    p = rng.getrandbits(n)
    xs = [(d.T(c.T(p)), Alt(d, i, ('L', p, c.T))) for i, c in enumerate(ds)]
    for x, m in xs:
        same(ctx, x, d, m, 'similar alternatives')
        for y, q in xs:
            compare(ctx, x, m, y, q, 'similar alternatives')
            ctx.ev((m.i, q.i, p, d.T.__name__))
    ctx.sample(f'{d} holding {p}')


@group(500, 8000)
def missing(ctx, rng):
    """alternatives the type does not have"""
    d = adt(rng, 2, ALT)
    x, m = value(rng, d)
    others = [T for T in (Bit, BitVector[3], BitVector[9], UIntVector[4], int, object, BitVector, None, 'x') if T not in [c.T for c in d.kids]]
    for T in others:
        ctx.raises((TypeError, KeyError), lambda: x[T], 'a missing alternative was read', (d, T))
        ctx.ev((d.T.__name__, str(T)))
    if d.kind == 'tu':
        for k in ('nothere', 'xx', '_tag'):
            ctx.raises(AttributeError, lambda: getattr(x, k), 'a missing tag was read', (d, k))
    same(ctx, x, d, m, 'after failed reads')
    ctx.sample(f'{d}')


@group(400, 6000)
def strangers(ctx, rng):
    """values of unrelated types, and what a value holds, are not equal to it"""
    d = adt(rng, 2, ALT)
    x, m = value(rng, d)
    d2 = adt(rng, 2, ALL)
    y, my = value(rng, d2)
    fs = [('nothing', None), ('number', 0), ('number', 1), ('text', 'x'), ('object', object()), ('tuple', ()), ('type', d.T), ('list', [x])]
    if not issubclass(d.T, d2.T) and not issubclass(d2.T, d.T):
        fs.append(('value of another type', y))
    held = x[d.kids[m.i].T].value if d.kind == 'sum' else getattr(x, d.keys[m.i]).value
    if not isinstance(held, d.T) and not issubclass(d.T, type(held)):
        fs.append(('content', held))
    for what, o in fs:
        for a, b in ((x, o), (o, x)):
            ctx.check((a == b) is False, 'equal to something of another type', lambda: f'{d}: {a!r} == {b!r}')
            ctx.check((a != b) is True, 'not unequal to something of another type', lambda: f'{d}: {a!r} != {b!r}')
        ctx.ev((what, d.kind, type(o).__name__))
    plain_value(ctx, d, x, held)
    same(ctx, x, d, m, 'after comparisons')
    if d.kind == 'sum':
        for c in d.kids:
            ctx.check(d.T[c.T] is c.T and c.T in d.T, 'an alternative of the type', (d, c.T))
        for T in (Bit, BitVector[3], int, object, None, 'x'):
            if T not in [c.T for c in d.kids]:
                ctx.raises((TypeError, KeyError), lambda: d.T[T], 'a type gave an alternative it lacks', (d, T))
                ctx.check(T not in d.T, 'a type contains an alternative it lacks', (d, T))
    ctx.sample(f'{d} beside {[w for w, _ in fs]}')


@group(400, 6000)
def hashes(ctx, rng):
    d = adt(rng, 2, ALT)
    vs = [value(rng, d, exact=True) for _ in range(8)]
    vs += [adtk.rebuild(rng, m) for x, m in vs[:4]]
    classes = []
    for x, m in vs:
        if not any(adtk.model_eq(m, n) for n in classes):
            classes.append(m)
        ctx.ev(key(m))
    s = {x for x, m in vs}
    ctx.check(len(s) == len(classes), 'size of a set of values', lambda: f'{d}: {s} vs {len(classes)}')
    ctx.sample(f'{d}: {len(classes)} distinct of {len(vs)}')


@group(1, 1)
def recorded(ctx, rng):
    """recorded: with subtype-related alternatives a value also matches supertypes of its own"""
    S = Sum[BitVector[4], UIntVector[4]]
    s = S(UIntVector[4](3))
    ctx.check(bool(s[UIntVector[4]].match) and s[UIntVector[4]].value.as_uint() == 3, 'the alternative set does not match', s)
    if s[BitVector[4]].match:
        ctx.known_finding(K4, 'Sum[BitVector[4], UIntVector[4]](UIntVector[4](3)) also matches BitVector[4]')
    t = S(BitVector[4](3))
    ctx.check(bool(t[BitVector[4]].match) and not t[UIntVector[4]].match, 'match of the supertype', t)
    ctx.check(not bool(s == t) and bool(s != t), 'different alternatives are equal', (s, t))
    ctx.ev('recorded')
    ctx.sample('Sum[BitVector[4], UIntVector[4]]')
