import gc
from collections import OrderedDict
from collections.abc import Mapping, MutableMapping
from hwtypes import Bit, BitVector, UIntVector, SIntVector
from hwtypes.adt import Tuple, Enum
from hwtypes.modifiers import make_modifier
from hwtypes.util import FrozenDict, OrderedFrozenDict, TypedProperty, Method, _issubclass
from .core import group
from . import adtk

REFUSED = (TypeError, AttributeError, KeyError)


class K:
    """keys that collide: few hashes, many values"""
    def __init__(self, n): self.n = n
    def __hash__(self): return self.n % 3
    def __eq__(self, o): return isinstance(o, K) and self.n == o.n
    def __repr__(self): return f'K{self.n}'


def any_key(rng):
    return rng.choice((rng.randint(-2, 6), rng.choice('abcdef'), K(rng.randint(0, 8)), (rng.randint(0, 2), 'x'), None, Bit, BitVector[rng.randint(1, 4)], frozenset((1, rng.randint(0, 3)))))


def any_value(rng):
    return rng.choice((rng.randint(-2, 6), rng.choice('abc'), None, K(rng.randint(0, 8)), (1, rng.randint(0, 2)), Bit, BitVector[3], UIntVector[3], ('v', Tuple)))


def items(rng, lo=0, hi=7):
    if hi > 2 and rng.random() < .15:           # many
        return list(dict((rng.choice((any_key(rng), rng.randint(-99, 99), f'k{rng.randrange(99)}')), any_value(rng)) for _ in range(rng.randint(8, 60))).items())
    return list(dict((any_key(rng), any_value(rng)) for _ in range(rng.randint(lo, hi))).items())


CLASSES = (FrozenDict, OrderedFrozenDict)


def build(rng, C, its):
    """(frozen, source or None)"""
    r = rng.randrange(6)
    if r == 0:
        d = dict(its)
        return C(d), d
    if r == 1:
        d = OrderedDict(its)
        return C(d), d
    if r == 2:
        d = list(its)
        if d and rng.random() < .4:             # a key given twice: the last value counts
            i = rng.randrange(len(d))
            d.append(d[i])
            d[i] = (d[i][0], 'overridden')
        return C(d), d
    if r == 3:
        return C(iter(its)), None
    if r == 4 and all(isinstance(k, str) for k, _ in its):
        return C(**dict(its)), None
    return C(rng.choice(CLASSES)(its)), None


def reads(ctx, f, its, what):
    """f reads as the items, in their order"""
    d = dict(its)
    ctx.check(len(f) == len(its), f'{what}: len', lambda: f'{f}: {len(f)}, expected {its}')
    ks = list(f)
    ctx.check(len(ks) == len(its) and all(a is b[0] for a, b in zip(ks, its)), f'{what}: keys', lambda: f'{ks}, expected {its}')
    ctx.check([k for k in f.keys()] == ks and [(k, v) for k, v in f.items()] == its and all(a is b[1] for a, b in zip(f.values(), its)), f'{what}: views', lambda: f'{list(f.items())}, expected {its}')
    for k, v in its:
        ctx.check(f[k] is v and f.get(k) is v and k in f and f.get(k, 99) is v, f'{what}: item', lambda: f'{k}: {f.get(k)}, expected {v}')
        ctx.ev((type(f).__name__, str(k), str(v)))
    for k in (1, 'a', K(1), K(4), None, 'nothere', Bit):
        if k not in d:
            ctx.raises(KeyError, lambda: f[k], f'{what}: a key never put in', k)
            ctx.check(k not in f and f.get(k) is None and f.get(k, 5) == 5, f'{what}: a key never put in', k)


def assault(ctx, rng, f, its):
    """every way of writing is refused"""
    k = rng.choice(its)[0] if its and rng.random() < .7 else 'new'
    def set_(): f[k] = 1
    def del_(): del f[k]
    def attr(): f.other = 1
    ways = [set_, del_, attr, lambda: f.update({k: 1}), lambda: f.pop(k), lambda: f.popitem(), lambda: f.clear(), lambda: f.setdefault(k, 1), lambda: f.move_to_end(k),
            lambda: f.__setitem__(k, 1), lambda: f.__delitem__(k), lambda: f.items().clear(), lambda: f.keys().remove(k), lambda: f.__ior__({k: 1})]
    for w in ways:
        ctx.raises(REFUSED, w, 'a frozen dictionary was written to', lambda: f'{its}')
    ctx.check(not isinstance(f, MutableMapping) and not isinstance(f, dict) and isinstance(f, Mapping), 'kind of a frozen dictionary', f)


@group(1500, 40000)
def frozen(ctx, rng):
    its = items(rng)
    C = rng.choice(CLASSES)
    f, src = build(rng, C, its)
    reads(ctx, f, its, 'frozen')
    h = hash(f)
    if src is not None:                         # the source goes its own way
        if isinstance(src, list):
            src.append(('later', 1))
            src[:1] = []
        else:
            src['later'] = 1
            for k in list(src)[:2]:
                src[k] = 'changed'
            if rng.random() < .3:
                src.clear()
    reads(ctx, f, its, 'after its source changed')
    assault(ctx, rng, f, its)
    reads(ctx, f, its, 'after refused writes')
    ctx.check(hash(f) == h, 'hash changed', f)
    for a, b in ((C(), 0), (C({}), 0), (C(dict(its), extra=1), 1)):
        ctx.check(len(a) == b or b and len(a) == len(dict(its)) + ('extra' not in dict(its)) and a['extra'] == 1, 'keywords', dict(a))
    for a in (C({'k': 1, 'l': 2}, k=3), C([('k', 1), ('l', 2)], k=3), C(C({'k': 1, 'l': 2}), k=3)):
        ctx.check(list(a.items()) == [('k', 3), ('l', 2)], 'keywords override', dict(a))
    for v in ([], {}, set()):
        ctx.raises(TypeError, lambda: C({'a': v}), 'an unhashable value accepted', C)
    ctx.sample(f'{C.__name__} {its}')


@group(1500, 40000)
def equality(ctx, rng):
    its = items(rng)
    other = list(its)
    r = rng.random()
    if r < .35:
        rng.shuffle(other)
    elif r < .5 and other:
        i = rng.randrange(len(other))
        other[i] = (other[i][0], any_value(rng))
    elif r < .6 and other:
        other.pop(rng.randrange(len(other)))
    elif r < .7:
        other = list(dict(other + items(rng, 1, 1)).items())
    elif r < .8 and len(other) > 1:             # two values swapped
        i, j = rng.sample(range(len(other)), 2)
        other[i], other[j] = (other[i][0], other[j][1]), (other[j][0], other[i][1])
    for C in CLASSES:
        f, _ = build(rng, C, its)
        g, _ = build(rng, C, other)
        same = dict(its) == dict(other)
        want = same if C is FrozenDict else its == other
        for a, b in ((f, g), (g, f)):
            ctx.check((a == b) is want and (a != b) is (not want), f'{C.__name__}: equality', lambda: f'{its} {other}: == {a == b}, != {a != b}, expected {want}')
        if want:
            ctx.check(hash(f) == hash(g), f'{C.__name__}: equal ones hash differently', lambda: f'{its} {other}')
            ctx.check({f: 1}[g] == 1 and len({f, g}) == 1, f'{C.__name__}: as a key', lambda: f'{its} {other}')
        else:
            ctx.check(len({f, g}) == 2 and g not in {f: 1}, f'{C.__name__}: as a key', lambda: f'{its} {other}')
        ctx.check(f == f and not f != f, f'{C.__name__}: reflexive', its)
        ctx.check((f == dict(its)) is True and (f == dict(other)) is same and (f != dict(other)) is (not same), f'{C.__name__}: equality with a dict', lambda: f'{its} {other}')
        for o in (None, 1, 'a', list(its), tuple(its)):
            ctx.check((f == o) is False and (f != o) is True, f'{C.__name__}: equal to something else', lambda: f'{its} {o}')
        ctx.ev((C.__name__, str(its), str(other), want))
    ctx.sample(f'{its} {other}')


# -------------------------------------------------------- typed property ----
class Base: pass
class Sub(Base): pass
class Meta(type):
    def __instancecheck__(cls, o): return isinstance(o, int) and o % 2 == 0
class Even(metaclass=Meta): pass


MOD = make_modifier('U01')
E = Enum.from_fields('U01E', {'a': 0, 'b': 1})
TYPES = (int, str, Base, Sub, object, Even, Bit, BitVector[4], BitVector, UIntVector[4], MOD(Bit), MOD, Tuple[Bit], E, type(None), bool)
VALUES = (0, 1, 2, True, 'x', Base(), Sub(), None, Bit(1), BitVector[4](3), BitVector[5](3), UIntVector[4](1), MOD(Bit)(1), Tuple[Bit](Bit(0)), Tuple[Bit, Bit](Bit(0), Bit(1)), E.a, Bit, object(), 2.0)


class Boom(Exception): pass


def make_prop(rng, T, parts, log, tag, how):
    """a TypedProperty with these accessors, made by decorators or by a call"""
    def fget(self):
        'the words'
        log.append((tag, 'get', id(self)))
        return self.__dict__.get(tag, 'unset')
    def fset(self, v):
        log.append((tag, 'set', id(self), id(v)))
        if self.__dict__.get('boom'):
            raise Boom
        self.__dict__[tag] = v
    def fdel(self):
        log.append((tag, 'del', id(self)))
        self.__dict__.pop(tag, None)
    fs = dict(get=fget, set=fset, **{'del': fdel})
    if how == 'call':
        return TypedProperty(T)(*[fs[p] if p in parts else None for p in ('get', 'set', 'del')])
    if how == 'kw':
        return TypedProperty(T)(**{f'f{p}': fs[p] for p in parts})
    p = TypedProperty(T)
    order = [q for q in ('get', 'set', 'del') if q in parts]
    if how == 'first' and 'get' in parts:
        p = p(fget)
        order.remove('get')
        rng.shuffle(order)
    else:
        p = p()
        rng.shuffle(order)
    for q in order:
        p = getattr(p, {'get': 'getter', 'set': 'setter', 'del': 'deleter'}[q])(fs[q])
    return p


@group(1200, 30000)
def properties(ctx, rng):
    log, ns, spec = [], {}, {}
    for tag in rng.sample(('foo', 'bar', 'baz', '_q'), rng.randint(1, 3)):
        T = rng.choice(TYPES)
        parts = [p for p in ('get', 'set', 'del') if rng.random() < .8]
        how = rng.choice(('call', 'kw', 'first', 'chain'))
        ns[tag] = make_prop(rng, T, parts, log, tag, how)
        spec[tag] = (T, parts)
    A = type('A', (), ns)
    C = type('C', (A,), {})
    objs = [A(), C(), A()]
    model = {}
    for tag, (T, _) in spec.items():
        ctx.check(getattr(A, tag) is T and getattr(C, tag) is T, 'a property read on the class', (tag, T, getattr(A, tag)))
    for _ in range(rng.randint(5, 15)):
        o = rng.choice(objs)
        tag = rng.choice(list(spec))
        T, parts = spec[tag]
        log.clear()
        r = rng.random()
        if r < .35:
            if 'get' in parts:
                v = getattr(o, tag)
                ctx.check(v is model.get((id(o), tag), 'unset') and log == [(tag, 'get', id(o))], 'a property read on an instance', lambda: f'{tag}: {v}, {log}')
            else:
                ctx.raises(AttributeError, lambda: getattr(o, tag), 'a property without a getter was read', tag)
                ctx.check(log == [], 'an accessor was called', log)
        elif r < .8:
            v = rng.choice(VALUES)
            ok = isinstance(v, T)
            if 'set' not in parts:
                ctx.raises(AttributeError, lambda: setattr(o, tag, v), 'a property without a setter was assigned', tag)
                ctx.check(log == [], 'an accessor was called', log)
            elif not ok:
                ctx.raises(TypeError, lambda: setattr(o, tag, v), 'a value of another type was assigned', lambda: f'{tag}: {T} = {v!r}')
                ctx.check(log == [], 'the setter was called with a value of another type', lambda: f'{tag}: {T} = {v!r}: {log}')
            elif rng.random() < .1:
                o.__dict__['boom'] = True
                ctx.raises(Boom, lambda: setattr(o, tag, v), "a setter's exception was swallowed", tag)
                o.__dict__['boom'] = False
            else:
                setattr(o, tag, v)
                ctx.check(log == [(tag, 'set', id(o), id(v))], 'the setter was not called once with the value', lambda: f'{tag}: {T} = {v!r}: {log}')
                model[id(o), tag] = v
            ctx.ev((str(T), str(v), ok, tuple(parts)), 'set')
        else:
            if 'del' in parts:
                delattr(o, tag)
                ctx.check(log == [(tag, 'del', id(o))], 'the deleter was not called once', lambda: f'{tag}: {log}')
                model.pop((id(o), tag), None)
            else:
                ctx.raises(AttributeError, lambda: delattr(o, tag), 'a property without a deleter was deleted', tag)
                ctx.check(log == [], 'an accessor was called', log)
        for p in objs:
            for t in spec:
                ctx.check(p.__dict__.get(t, 'unset') is model.get((id(p), t), 'unset'), 'another property or object changed', (t, p))
        ctx.ev((tag, str(T), tuple(parts), r < .35, r < .8))
    for tag, (T, _) in spec.items():
        ctx.check(getattr(A, tag) is T, 'a property read on the class', (tag, T))
    ctx.sample(f'{spec}')


@group(200, 4000)
def class_bodies(ctx, rng):
    """decorators in a class body, redefinition in a subclass, documentation"""
    T, U = rng.choice(TYPES), rng.choice(TYPES)
    class A:
        @TypedProperty(T)
        def foo(self):
            'words on foo'
            return getattr(self, 'x', 'unset')

        @foo.setter
        def foo(self, v):
            self.x = v

        @foo.deleter
        def foo(self):
            del self.x

    class B(A):
        @TypedProperty(U)
        def foo(self):
            return ('B', getattr(self, 'x', 'unset'))

    ctx.check(A.foo is T and B.foo is U, 'a property read on the class', (T, U))
    ctx.check(vars(A)['foo'].__doc__ == 'words on foo', 'documentation of a property', vars(A)['foo'].__doc__)
    a, b = A(), B()
    ctx.check(a.foo == 'unset' and b.foo == ('B', 'unset'), 'getter', (T, U))
    for v in rng.sample(VALUES, 5):
        if isinstance(v, T):
            a.foo = v
            ctx.check(a.foo is v and a.x is v, 'setter', (T, v))
            del a.foo
            ctx.check(a.foo == 'unset', 'deleter', (T, v))
        else:
            ctx.raises(TypeError, lambda: setattr(a, 'foo', v), 'a value of another type was assigned', lambda: f'{T} = {v!r}')
            ctx.check(a.foo == 'unset', 'setter called', lambda: f'{T} = {v!r}')
        ctx.raises(AttributeError, lambda: setattr(b, 'foo', v), 'an overridden property was assigned', (U, v))
        ctx.ev((str(T), str(v)))
    class M:
        def f(self, y=0): return ('m', self, y)
        @Method
        def g(self, y=0): return ('m', self, y)
        h = Method(lambda self, y=0: ('h', self, y))
    m = M()
    ctx.check(m.g() == ('m', m, 0) and m.g(3) == ('m', m, 3) and m.h(y=2) == ('h', m, 2) and M.g(m, 4) == ('m', m, 4), 'a Method called', m.g())
    ctx.check(M.h.__name__ == 'h' and m.h.__name__ == 'h' and M.h.__qualname__.endswith('M.h') and vars(M)['h'](m, 1) == ('h', m, 1), 'name of a Method', M.h.__name__)
    ctx.sample(f'{T} {U}')


@group(200, 4000)
def subclass_test(ctx, rng):
    """_issubclass is issubclass where that is defined, False elsewhere"""
    for x in (*TYPES, *VALUES, 'T', [], {}):
        for T in (int, Base, Bit, BitVector, BitVector[4], object, MOD, Tuple):
            want = isinstance(x, type) and issubclass(x, T)
            ctx.check(_issubclass(x, T) is want, '_issubclass', lambda: f'{x!r} {T}: {_issubclass(x, T)}')
            ctx.ev((str(x)[:60], T.__name__))
