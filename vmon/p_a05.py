import functools
import gc
from hwtypes import Bit, BitVector, UIntVector, SIntVector
from hwtypes.adt import Enum, Product, Tuple, Sum, TaggedUnion, AnonymousProduct, is_adt_type, new_instruction
from hwtypes import adt_meta
from hwtypes.adt_meta import ReservedNameError
from hwtypes.modifiers import make_modifier
from .core import group
from . import adtk
from .adtk import adt, D, leaf, enum

REFUSED = (TypeError, ValueError, KeyError, IndexError, AttributeError)


class MyTuple(Tuple): pass
class MySum(Sum): pass
class MyAnon(AnonymousProduct): pass
class MySumSub(MySum): pass
class MyTupleSub(MyTuple): pass


class OtherTuple(Tuple): pass
class BothTuple(MyTuple, OtherTuple): pass
class OtherSum(Sum): pass
class BothSum(OtherSum, MySum): pass
class OtherAnon(AnonymousProduct): pass
class BothAnon(OtherAnon, MyAnon): pass


MyTuple2, MySum2, MyAnon2 = map(adtk.twin_kind, (MyTuple, MySum, MyAnon))       # other types of the same names


def deep(base, k):
    """a generic type several classes below base, named like another such"""
    for i in range(k):
        base = type(base)('Deep', (base, GMixin) if i == 1 else (base,), {})
    return base


class GMixin: pass


DEEP = [deep(b, k) for b in (Tuple, Sum, AnonymousProduct) for k in (3, 3, 2)]


class Mixin:
    def mixed(self): return 'mixed'


class MyProduct(Product):
    def describe(self): return 'described'


class MyProductSub(MyProduct, Mixin):
    pass


MyProduct2 = adtk.twin_kind(MyProduct)


class MyTU(TaggedUnion):
    def describe(self): return 'described'


M1 = make_modifier('A05M')
SHARED = [enum(__import__('random').Random(i)) for i in range(3)]       # adt descriptions reused by the cases
POOL = [Bit, BitVector[1], BitVector[2], BitVector[8], UIntVector[8], SIntVector[8], adtk.Word[8], adtk.Flag, BitVector]
POOL += [Tuple[Bit], Sum[Bit, BitVector[2]], M1(Bit), M1(BitVector[8]), AnonymousProduct[dict(x=Bit)]] + [d.T for d in SHARED]


def field_types(rng, lo=0, hi=5):
    return [rng.choice(POOL) for _ in range(rng.randint(lo, hi))]


# ------------------------------------------------------------ binding -------
class Model:
    """definition -> the live type it gave; every type alive is in here"""
    def __init__(self, ctx):
        self.ctx, self.live = ctx, {}

    def define(self, key, T, what):
        """T was defined by key: it is the live type of that key, and of no other"""
        if key in self.live:
            self.ctx.check(T is self.live[key], f'{what}: the same definition gave another type', lambda: f'{key}: {T!r}')
        else:
            for k, S in self.live.items():
                self.ctx.check(T is not S, f'{what}: different definitions gave one type', lambda: f'{key} and {k}: {T!r}')
            self.live[key] = T
        self.ctx.ev((what, str(key)[:200]))

    def forget(self, rng):
        for k in rng.sample(list(self.live), min(len(self.live), rng.randint(1, 3))):
            del self.live[k]
        if rng.random() < .5:
            gc.collect()


def check_fields(ctx, T, G, keys, ts, ordered, what):
    ctx.check(T.is_bound and is_adt_type(T), f'{what}: not bound', T)
    ctx.check(issubclass(T, G), f'{what}: no subclass of its generic type', (T, G))
    ctx.check(T.unbound_t is G, f'{what}: unbound_t', (T, T.unbound_t, G))
    if ordered:
        ctx.check(len(T.fields) == len(ts) and all(a is b for a, b in zip(T.fields, ts)), f'{what}: fields', lambda: f'{T}: {T.fields}, expected {ts}')
    else:
        ctx.check(set(T.fields) == set(ts) and len(list(T.fields)) == len(set(ts)), f'{what}: fields', lambda: f'{T}: {T.fields}, expected {ts}')
    fd = T.field_dict
    ctx.check(len(fd) == len(keys) and all(k in fd and fd[k] is t for k, t in zip(keys, ts)), f'{what}: field_dict', lambda: f'{T}: {dict(fd)}')
    if ordered:
        ctx.check(list(fd) == list(keys), f'{what}: order of field_dict', lambda: f'{T}: {list(fd)}, expected {keys}')
    try:
        fd[0] = Bit
    except TypeError:
        pass
    else:
        ctx.check(False, f'{what}: field_dict of the type is writable', T)


GENERIC = [Tuple, MyTuple, MyTupleSub, Sum, MySum, MySumSub, AnonymousProduct, MyAnon, MyTuple2, MySum2, MyAnon2,
           OtherTuple, BothTuple, OtherSum, BothSum, OtherAnon, BothAnon] + DEEP[:4]


def bind(rng, G, names, ts):
    if issubclass(G, AnonymousProduct):
        return G[dict(zip(names, ts))]
    if len(ts) == 1 and rng.random() < .5:
        return G[ts[0]]
    return G[rng.choice((tuple, list, lambda x: tuple(x), lambda x: iter(x)))(ts)]


@group(500, 15000)
def binding(ctx, rng):
    """generic types bound again and again, in any order, with deletions"""
    md = Model(ctx)
    G0 = rng.sample(GENERIC, 3)
    if MyTuple in G0 or MyTuple2 in G0:
        G0 += [MyTuple, MyTuple2]
    if any(G in DEEP for G in G0):
        i = rng.choice((0, 3, 6))
        G0 += DEEP[i:i + 3]
    if MySum in G0 or MySum2 in G0:
        G0 += [MySum, MySum2]
    bases = [(rng.sample(adtk.NAMES, k), field_types(rng, k, k)) for k in (1, 2, 3, 3)]
    for _ in range(rng.randint(10, 25)):
        if rng.random() < .15:
            md.forget(rng)
            continue
        G = rng.choice(G0)
        names, ts = rng.choice(bases)
        names, ts = list(names), list(ts)
        r = rng.random()
        if r < .3:                              # permute
            p = rng.sample(range(len(ts)), len(ts))
            names, ts = [names[i] for i in p], [ts[i] for i in p]
        elif r < .4:                            # types only
            ts = rng.sample(ts, len(ts))
        elif r < .5:                            # one other
            ts[rng.randrange(len(ts))] = rng.choice(POOL)
        elif r < .55:                           # rename
            names[rng.randrange(len(ts))] = 'other'
        elif r < .6:                            # one fewer
            names, ts = names[:-1], ts[:-1]
        T = bind(rng, G, names, ts)
        if issubclass(G, Sum):
            key = (G, frozenset(ts))
            check_fields(ctx, T, G, list(dict.fromkeys(ts)), list(dict.fromkeys(ts)), False, 'binding')
        elif issubclass(G, AnonymousProduct):
            key = (G, tuple(zip(names, ts)))
            check_fields(ctx, T, G, names, ts, True, 'binding')
            for n, t in zip(names, ts):
                ctx.check(getattr(T, n) is t, 'binding: field read on the type', (T, n))
        else:
            key = (G, tuple(ts))
            check_fields(ctx, T, G, list(range(len(ts))), ts, True, 'binding')
            for i, t in enumerate(ts):
                ctx.check(T[i] is t and T[i - len(ts)] is t, 'binding: indexing the type', (T, i))
        md.define(key, T, 'binding')
        ctx.check(T.is_cached, 'binding: is_cached', T)
        # bound types of related generics are related in the same way
        for H in GENERIC:
            ok = issubclass(G, H) or issubclass(G, AnonymousProduct) and H is Tuple
            if issubclass(H, Sum) != issubclass(G, Sum):
                ok = False
            S = bind(rng, H, names, ts)
            ctx.check(issubclass(T, S) == ok, 'binding: relation to the same binding of another generic type', lambda: f'{T} {S}: {issubclass(T, S)}')
            ctx.ev((G.__name__, H.__name__, ok), 'related')
        ctx.sample(f'{T}')
    for G in G0:
        ctx.check(not G.is_bound and G.fields is None and G.unbound_t is G, 'a generic type changed', G)


# ---------------------------------------------------- class statements ------
def method_a(self): return 'a'
def method_b(self): return 'b'
def hash_a(self): return 5
def eq_a(self, other): return NotImplemented
def call_a(self): return 1
PROP = property(lambda self: 'prop')
MEMBERS = {'m_a': [method_a, method_b], 'm_b': [method_b, staticmethod(method_a)], 'const_': ['x', 'y', (1, 2), None, 1.5], 'prop_': [PROP, property(lambda self: 2)],
           '__str__': [method_a, method_b], '__hash__': [hash_a, method_a, None], '__call__': [call_a, method_b, functools.partial(int, 3), functools.partial(int, 3)],
           '__len__': [call_a, hash_a], '__iter__': [method_a, None, list], '_sunder_': [3, 4, 3.0], 'num_': [1, True, 1.0, 2, 2.0]}
CBASES = {'prod': [(Product,), (MyProduct,), (MyProductSub,), (Mixin, Product), (MyProduct, Mixin), (MyProduct2,)],
          'tu': [(TaggedUnion,), (MyTU,), (MyTU, Mixin), (adtk.twin_kind(MyTU),)],
          'enum': [(Enum,), (Enum, Mixin)]}


CLASS_NAMES = ('Foo', 'Bar', 'Inst', 'foo', 'FOO', 'Foo_', 'Product')


def member_names(kind):
    return [n for n in MEMBERS if kind != 'enum' or n != 'num_']      # numbers would be enum members


def definition(rng, kind):
    name = rng.choice(CLASS_NAMES)
    k = rng.randint(1, 4)
    names = rng.sample(adtk.NAMES if kind != 'enum' else adtk.ENAMES, k)
    vals = [rng.choice(POOL) for _ in names] if kind != 'enum' else rng.sample(range(-2, 9), k)
    if kind == 'enum' and rng.random() < .3:
        vals = [bool(v) if v in (0, 1) else v for v in vals]
    mem = {n: rng.choice(MEMBERS[n]) for n in rng.sample(member_names(kind), rng.choice((0, 0, 1, 2, 3)))}
    return dict(kind=kind, name=name, bases=rng.choice(CBASES[kind]), fields=list(zip(names, vals)), mem=mem)


def mutate(rng, d):
    d = dict(d, fields=list(d['fields']), mem=dict(d['mem']))
    fs, mem, kind = d['fields'], d['mem'], d['kind']
    r = rng.random()
    if r < .15:
        d['name'] = rng.choice(CLASS_NAMES)
    elif r < .3:
        rng.shuffle(fs)
    elif r < .45:
        i = rng.randrange(len(fs))
        v = fs[i][1]
        if kind == 'enum' and v in (0, 1):
            fs[i] = (fs[i][0], rng.choice((int(v), bool(v), 7)))
        else:
            fs[i] = (fs[i][0], rng.choice(POOL) if kind != 'enum' else rng.randint(-2, 9))
    elif r < .55:
        i = rng.randrange(len(fs))
        new = rng.choice(adtk.NAMES)
        if new not in [n for n, _ in fs]:
            fs[i] = (new, fs[i][1])
    elif r < .65 and len(fs) > 1:
        fs.pop(rng.randrange(len(fs)))
    elif r < .75:
        d['bases'] = rng.choice(CBASES[kind])
    elif r < .9:
        n = rng.choice(member_names(kind))
        mem[n] = rng.choice(MEMBERS[n])
    elif mem:
        mem.pop(rng.choice(list(mem)))
    return d


def key_of(d):
    fs = [(n, type(v), v) for n, v in d['fields']]
    fs = tuple(fs) if d['kind'] == 'prod' else frozenset(fs)
    return (d['kind'], d['name'], d['bases'], fs, frozenset((n, id(v)) for n, v in d['mem'].items()))


def execute(rng, d, cache, extra=True):
    import types
    kw = {} if cache and rng.random() < .6 else {'cache': cache}
    items = list(d['fields']) + list(d['mem'].items())
    if d['kind'] != 'prod' or rng.random() < .5:        # members may stand anywhere
        fs = iter(d['fields'])
        mix = list(d['mem'].items()) + [None] * len(d['fields'])
        rng.shuffle(mix)
        items = [next(fs) if m is None else m for m in mix]
    ns = dict(items)
    if extra and rng.random() < .3:
        ns['__doc__'] = 'words'
        ns['__qualname__'] = 'a.b.' + d['name']
    ns['__module__'] = rng.choice(('m1', 'm2'))
    if not d['mem'] and d['kind'] != 'enum' and len(d['bases']) == 1 and rng.random() < .3:
        return d['bases'][0].from_fields(d['name'], dict(d['fields']), **({} if cache and rng.random() < .5 else {'cache': cache}))
    if not d['mem'] and d['kind'] == 'enum' and d['bases'] == (Enum,) and rng.random() < .3:
        return Enum.from_fields(d['name'], dict(d['fields']), cache=cache)
    return types.new_class(d['name'], d['bases'], kw, lambda n: n.update(ns))


def generic_of(bases):
    for b in bases:
        if is_adt_type(b):
            return b


def check_definition(ctx, T, d):
    ctx.check(T.__name__ == d['name'], 'class: name', (T, d))
    G = generic_of(d['bases'])
    names, ts = [n for n, _ in d['fields']], [t for _, t in d['fields']]
    for b in d['bases']:
        ctx.check(issubclass(T, b), 'class: no subclass of its base', (T, b))
    if d['kind'] == 'enum':
        ctx.check(set(T.field_dict) == set(names) and len(T.fields) == len(names), 'class: fields of an enum', lambda: f'{T}: {dict(T.field_dict)}')
        for n, v in d['fields']:
            ctx.check(isinstance(getattr(T, n), T) and T.field_dict[n] is getattr(T, n), 'class: enum member', (T, n))
    else:
        ts_ = ts if d['kind'] == 'prod' else list(dict.fromkeys(ts))
        ctx.check(T.is_bound and T.unbound_t is G, 'class: unbound_t', (T, T.unbound_t, G))
        ctx.check(list(T.fields) == ts if d['kind'] == 'prod' else set(T.fields) == set(ts), 'class: fields', lambda: f'{T}: {T.fields}, expected {ts}')
        fd = T.field_dict
        ctx.check(set(fd) == set(names) and (d['kind'] != 'prod' or list(fd) == names), 'class: field_dict', lambda: f'{T}: {dict(fd)}, expected {names}')
        for n, t in d['fields']:
            ctx.check(fd[n] is t and getattr(T, n) is t, 'class: type of a field', lambda: f'{T}.{n}: {getattr(T, n)}, expected {t}')
            if d['kind'] == 'prod':
                ctx.check(T[n] is t and T[names.index(n)] is t, 'class: indexing the type', (T, n))
        base = AnonymousProduct[dict(d['fields'])] if d['kind'] == 'prod' else Sum[ts]
        ctx.check(issubclass(T, base), 'class: no subclass of its anonymous type', (T, base))
        if d['kind'] == 'prod':
            ctx.check(issubclass(T, Tuple[ts]), 'class: no subclass of its tuple type', (T, ts))
    for n, v in d['mem'].items():
        ctx.check(n in vars(T) and vars(T)[n] is v, 'class: member', lambda: f'{T}.{n}')


@group(600, 20000)
def classes(ctx, rng):
    md = Model(ctx)
    kind = rng.choice(('prod', 'prod', 'tu', 'enum'))
    ds = [definition(rng, kind) for _ in range(2)]
    uncached = []
    for _ in range(rng.randint(8, 20)):
        if rng.random() < .1:
            md.forget(rng)
            continue
        d = rng.choice(ds)
        if rng.random() < .6:
            d = mutate(rng, d)
            if rng.random() < .5:
                ds.append(d)
        if rng.random() < .2:
            T = execute(rng, d, False)
            check_definition(ctx, T, d)
            ctx.check(not any(T is S for S in uncached) and not any(T is S for S in md.live.values()), 'cache=False gave a type already made', (T, d))
            ctx.check(not T.is_cached, 'is_cached of cache=False', T)
            uncached.append(T)
            ctx.ev((str(key_of(d)[1:4])[:200],), 'uncached')
            continue
        T = execute(rng, d, True)
        check_definition(ctx, T, d)
        ctx.check(T.is_cached, 'is_cached', T)
        ctx.check(not any(T is S for S in uncached), 'a cached definition gave a type made with cache=False', (T, d))
        md.define(key_of(d), T, 'class')
    for T in list(md.live.values())[:3] + uncached[-2:]:
        if kind != 'enum':
            ctx.raises(TypeError, lambda: T.from_fields('Again', {'x': Bit}), 'from_fields of a bound type accepted', T)
    ctx.sample(f'{kind}: {ds[0]}')


# ------------------------------------------------------------ subclasses ----
@group(400, 8000)
def subclasses(ctx, rng):
    d = adt(rng, 2)
    T = d.T
    ns = {'extra_': method_a, '__len__': call_a}
    S = adtk.mk_class(T, adtk.fresh('Sub'), ns)
    ctx.check(issubclass(S, T) and S is not T and S.is_bound, 'subclass: kind', (S, T))
    ctx.check(S.fields == T.fields and dict(S.field_dict) == dict(T.field_dict) and list(S.field_dict) == list(T.field_dict), 'subclass: fields', lambda: f'{S}: {S.fields}, of {T}: {T.fields}')
    ctx.check(S.extra_ is method_a, 'subclass: member', S)
    if d.kind in ('prod', 'aprod', 'tu'):
        for k, c in zip(d.keys, d.kids):
            ctx.check(getattr(S, k) is c.T, 'subclass: field on the type', (S, k))
    x, m = adtk.value(rng, d)
    if d.kind == 'tuple' or d.kind in ('prod', 'aprod'):
        y = S(*[x[i] for i in range(len(d.kids))])
        ctx.check(type(y) is S and isinstance(y, T) and y.extra_() == 'a' and len(y) == 1, 'subclass: value', y)
        for i in range(len(d.kids)):
            ctx.check(y[i] is x[i], 'subclass: field of a value', (y, i))
    ctx.ev((d.kind, len(d.kids)))
    # binding something bound, or giving it other fields
    if d.kind in ('tuple', 'aprod', 'prod'):
        for idx in (BitVector[3], (Bit, Bit), [Bit], {'x': Bit}, len(d.kids) + 1, object()):
            ctx.raises(REFUSED, lambda: T[idx], 'a bound type was bound again', (T, idx))
    else:
        for idx in (BitVector[13], (Bit, BitVector[13]), (), object()):
            ctx.raises(REFUSED, lambda: T[idx], 'a bound type was bound again', (T, idx))
    if d.kind in ('prod', 'tu'):
        for X in (T, S):
            ctx.raises(TypeError, lambda: X.from_fields(adtk.fresh('N'), {'q': Bit}, **rng.choice(({}, {'cache': True}, {'cache': False}))), 'from_fields of a bound type accepted', X)
        ctx.raises(TypeError, lambda: (Product if d.kind == 'prod' else TaggedUnion)[dict(zip(d.keys, [c.T for c in d.kids]))], 'Product/TaggedUnion bound by brackets', T)
    if d.kind in ('prod', 'tuple', 'aprod'):
        ctx.raises(TypeError, lambda: adtk.mk_class(T, adtk.fresh('More'), {}) and type(T)(adtk.fresh('Two'), (T, Tuple[tuple(T.fields) + (Bit,)]), {}),
                   'inheriting from two bindings accepted', T)
    ctx.sample(f'{d}')


@group(300, 5000)
def nested(ctx, rng):
    """the types of a tree report what was declared, at every level"""
    d = adt(rng, 4)

    def go(T, e, path):
        ctx.check(T is e.T, 'nested: type', lambda: f'{path}: {T!r}, expected {e}')
        ctx.ev((e.kind, len(e.kids), path))
        if e.kind in ('leaf', 'enum'):
            return
        fd = T.field_dict
        ks = [c.T for c in e.kids] if e.kind == 'sum' else list(e.keys)
        ctx.check(set(fd) == set(ks) and (e.kind in ('sum', 'tu') or list(fd) == ks), 'nested: field_dict', lambda: f'{path}: {dict(fd)}')
        for k, c in zip(ks, e.kids):
            go(fd[k], c, f'{path}/{k}')
    go(d.T, d, '')
    gc.collect()
    go(d.T, d, '')
    ctx.sample(f'{d}')


# -------------------------------------------------------- reserved names ----
# the public names of the types' own interface, and the private ones this tree says it reserves
RESERVED = ['enumerate', 'fields', 'field_dict', 'is_bound', 'is_cached', 'value_dict', 'from_values', '_value_']
RESERVED += sorted(getattr(adt_meta, 'RESERVED_SUNDERS', ()))
SUNDERS = ('_value_', '_tag_', '_cached_', '_fields_', '_field_table_', '_unbound_base_', '_syntax_')


@group(60, 600)
def private_names(ctx, rng):
    """A name of the machinery's own attributes is refused, or it is an ordinary field; it never breaks the type."""
    k = rng.choice(SUNDERS)
    order = rng.sample((k, 'x'), 2)
    fs = {n: BitVector[2] if n == 'x' else Bit for n in order}
    for G in (Product, TaggedUnion, AnonymousProduct):
        try:
            T = G[fs] if G is AnonymousProduct else G.from_fields(adtk.fresh('R'), fs)
        except ReservedNameError:
            ctx.ev((k, G.__name__), 'refused')
            continue
        ctx.check(list(T.field_dict) == order and T.field_dict[k] is Bit and getattr(T, k) is Bit, 'a private name as a field', (G, k))
        if G is TaggedUnion:
            u = T(**{k: Bit(1)})
            ctx.check(getattr(u, k).match and not u.x.match and list(u.value_dict) == order, 'a private name as a field', (G, k))
        else:
            v = T(**{n: BitVector[2](2) if n == 'x' else Bit(1) for n in order})
            ctx.check(bool(getattr(v, k)) and int(v.x) == 2 and list(v.value_dict) == order, 'a private name as a field', (G, k))
        ctx.ev((k, G.__name__), 'field')


@group(200, 2000)
def reserved(ctx, rng):
    n = rng.choice(RESERVED)
    names = rng.sample([x for x in adtk.NAMES], rng.randint(0, 3))
    ts = [rng.choice(POOL) for _ in names]
    i = rng.randint(0, len(names))
    names.insert(i, n)
    ts.insert(i, rng.choice(POOL))
    fs = dict(zip(names, ts))
    for G in (Product, TaggedUnion, MyProduct, MyTU):
        for cache in (True, False):
            ctx.raises(ReservedNameError, lambda: G.from_fields(adtk.fresh('R'), fs, cache=cache), 'reserved name accepted by from_fields', (G, n))
            ctx.raises(ReservedNameError, lambda: adtk.mk_class(G, adtk.fresh('R'), fs, cache=cache), 'reserved name accepted by a class', (G, n))
    for G in (AnonymousProduct, MyAnon):
        ctx.raises(ReservedNameError, lambda: G[fs], 'reserved name accepted by AnonymousProduct', (G, n))
    ev = dict((k, j) for j, k in enumerate(names))
    ctx.raises(ReservedNameError, lambda: Enum.from_fields(adtk.fresh('R'), ev), 'reserved name accepted by from_fields', (Enum, n))
    ctx.raises(ReservedNameError, lambda: adtk.mk_class(Enum, adtk.fresh('R'), ev), 'reserved name accepted by a class', (Enum, n))
    ctx.ev((n, i, len(names)))
    ok = rng.sample(('Match', 'match', 'rebind_', 'keys', 'items', 'type', 'size', '_x', 'field', 'is_boundx', 'values', '_name'), 3)
    for k in ok:
        P = Product.from_fields(adtk.fresh('Ok'), {k: Bit, 'x': BitVector[2]})
        p = P(Bit(1), BitVector[2](2))
        ctx.check(getattr(P, k) is Bit and bool(getattr(p, k)) and int(p.x) == 2 and list(p.value_dict) == [k, 'x'], 'a name like a reserved one', (P, k))
        U = TaggedUnion.from_fields(adtk.fresh('Ok'), {k: Bit, 'x': BitVector[2]})
        u = U(**{k: Bit(1)})
        ctx.check(getattr(U, k) is Bit and getattr(u, k).match and bool(getattr(u, k).value) and not u.x.match, 'a name like a reserved one', (U, k))
        ctx.ev(k, 'allowed')
    ctx.sample(f'{names}')


# --------------------------------------------- which members are fields ----
NOT_FIELDS = ('_a_', '_tag2_', '_x1_', '__a__', '__note__', '__annotate_me__')
LIKE_THEM = ('_a', 'a_', '_a__', '__a_', '__a', 'a__', '_', '__', '___', '____', '_____', '__a___', '___a__', 'x', 'X9')


@group(200, 3000)
def members(ctx, rng):
    """types (ints, for Enum) are fields unless named like _x_ or __x__"""
    kind = rng.choice(('prod', 'tu', 'enum'))
    base = {'prod': Product, 'tu': TaggedUnion, 'enum': Enum}[kind]
    names = rng.sample(LIKE_THEM, rng.randint(1, 4)) + rng.sample(NOT_FIELDS, rng.randint(1, 3))
    rng.shuffle(names)
    ns, fields, rest = {}, {}, {}
    for j, k in enumerate(names):
        v = j if kind == 'enum' else rng.choice((Bit, BitVector[3], Tuple[Bit], int))
        ns[k] = v
        (rest if k in NOT_FIELDS else fields)[k] = v
    for j in range(rng.randint(0, 2)):
        k, v = f'z{j}', rng.choice(('text', (1, 2), None) + ((Bit, 2.5) if kind == 'enum' else (7, -1)))
        ns[k] = rest[k] = v
    T = adtk.mk_class(base, adtk.fresh('Mem'), ns)
    got = list(T.field_dict)
    ctx.check(set(got) == set(fields) and (kind != 'prod' or got == list(fields)), 'which members are fields', lambda: f'{base}: {got} of {ns}')
    for k, v in fields.items():
        if kind == 'enum':
            ctx.check(isinstance(getattr(T, k), T) and getattr(T, k)._value_ == v and getattr(T, k).name == k, 'enum member', (k, v))
        else:
            ctx.check(T.field_dict[k] is v and getattr(T, k) is v, 'field type', (k, v))
    for k, v in rest.items():
        ctx.check(getattr(T, k) is v and k not in T.field_dict, 'a member that is no field', (k, v))
    ctx.ev((kind, tuple(sorted(ns))))
    ctx.sample(f'{base.__name__}: {sorted(fields)} / {sorted(rest)}')


@group(3, 12)
def crowd(ctx, rng):
    """thousands of definitions alive at once, asked for again in any order"""
    leaves = [BitVector[n] for n in range(1, 13)] + [UIntVector[n] for n in range(1, 13)] + [Bit]
    asks = []
    for _ in range(700):
        ts = tuple(rng.choice(leaves) for _ in range(rng.randint(0, 6)))
        G = rng.choice((Tuple, MyTuple, MyTupleSub))
        asks.append((('t', G, ts), lambda G=G, ts=ts: G[ts]))
        fs = {f'f{i}': t for i, t in enumerate(ts)}
        A = rng.choice((AnonymousProduct, MyAnon))
        asks.append((('a', A, tuple(fs.items())), lambda A=A, fs=fs: A[fs]))
        if ts:
            S = rng.choice((Sum, MySum))
            asks.append((('s', S, frozenset(ts)), lambda S=S, ts=ts: S[ts]))
            P, name = rng.choice((Product, TaggedUnion)), rng.choice(('P', 'Q'))
            fk = tuple(fs.items()) if P is Product else frozenset(fs.items())
            asks.append((('p', P, name, fk), lambda P=P, name=name, fs=fs: P.from_fields(name, dict(fs))))
        ms = {k: rng.randint(0, 9) for k in rng.sample('abcdefgh', rng.randint(1, 4))}
        asks.append((('e', frozenset(ms.items())), lambda ms=ms: Enum.from_fields('E', dict(ms))))
    live = {}
    for k, f in asks:
        T = f()
        ctx.check(live.setdefault(k, T) is T, 'one definition gave two types', k)
        ctx.ev(k)
    ctx.eq(len(set(live.values())), len(live), 'different definitions share a type', len(live))
    rng.shuffle(asks)
    for k, f in asks:
        ctx.check(f() is live[k], 'one definition gave two types', k)
    ctx.sample(f'{len(live)} definitions alive')
