"""ADT types and values with a plain-Python model, and a history engine.

A description D says what a type is; a model of a value is
    ('L', int, type)              leaf (its pattern, its class)
    ('E', D, name)                enum member
    Rec(d, [children])            Tuple / AnonymousProduct / Product
    Alt(d, key, child)            Sum (key: the alternative D) / TaggedUnion (key: tag)
Rec and Alt are mutable and shared exactly as the real objects are.
"""
import collections
import weakref
import types
from hwtypes import Bit, BitVector, UIntVector, SIntVector
from hwtypes.adt import Tuple, Product, Sum, Enum, TaggedUnion, AnonymousProduct, new_instruction


class Word(BitVector): pass
class Delta(SIntVector): pass
class Flag(Bit): pass


def twin_kind(K):
    """another type of the same name, place and bases"""
    bases = (K,) if K.__module__.startswith('hwtypes') else K.__bases__      # (a subtype, for library kinds)
    return types.new_class(K.__name__, bases, {}, lambda n: n.update(__qualname__=K.__qualname__, __module__=K.__module__))


class Num:
    """a plain class: equality and hash of its own, nothing else"""
    def __init__(self, v): self.v = int(v)
    def __eq__(self, o): return self.v == o.v if isinstance(o, Num) else NotImplemented
    def __hash__(self): return hash(('Num', self.v))
    def __repr__(self): return f'Num({self.v})'


class Num2(Num): pass
PLAIN = (int, str, Num, Num2, bool)


# generics of one's own
class MyTuple(Tuple): pass
class MySum(Sum): pass
class MySum2(MySum): pass
class MyAnon(AnonymousProduct): pass
class MyProduct(Product):
    def first(self): return self[0]
class MyProduct2(MyProduct): pass
class MyTU(TaggedUnion): pass
MINE = {Tuple: (MyTuple,), Sum: (MySum, MySum2), AnonymousProduct: (MyAnon,), Product: (MyProduct, MyProduct2), TaggedUnion: (MyTU,)}


Word2 = twin_kind(Word)
KINDS = (BitVector, UIntVector, SIntVector, Word, Delta, Word2)
NAMES = ('x', 'y', 'z', 'a', 'b', 'op', 'data', 'value', 'imm', 'rs1', '_hidden', 'X', 'Bit', 'fieldName', 'i0', 'tag', 'index', 'count', 'T', 'k',
         'self', 'cls', 'super', 'name', 'type', 'AnonymousProduct', 'args', 'kwargs', 'Match', 'match')
ENAMES = ('a', 'b', 'c', 'd', 'red', 'green', 'Add', 'Sub', 'x', '_q', 'zero', 'op_1')


class D:
    __slots__ = ('kind', 'T', 'keys', 'kids', 'vals', '__weakref__')

    def __init__(self, kind, T, keys=(), kids=(), vals=()):
        self.kind, self.T, self.keys, self.kids, self.vals = kind, T, tuple(keys), tuple(kids), tuple(vals)

    def __repr__(self):
        if self.kind == 'leaf':
            return self.T.__name__
        if self.kind == 'enum':
            return f'{self.T.__name__}{{{",".join(self.keys)}}}'
        return f'{self.kind}({", ".join((f"{k}=" if isinstance(k, str) else "") + repr(c) for k, c in zip(self.keys, self.kids))})'

    def walk(self):
        yield self
        for c in self.kids:
            yield from c.walk()


class Rec:
    __slots__ = ('d', 'kids')
    def __init__(self, d, kids): self.d, self.kids = d, list(kids)


class Alt:
    __slots__ = ('d', 'i', 'kid')
    def __init__(self, d, i, kid): self.d, self.i, self.kid = d, i, kid


def mk_class(base, name, ns, **kw):
    return types.new_class(name, (base,), kw, lambda n: n.update(ns))


_n = [0]


def fresh(prefix):
    _n[0] += 1
    return f'{prefix}{_n[0]}'


_described = weakref.WeakValueDictionary()      # a live type keeps one description


def described(d):
    return _described.setdefault(id(d.T), d)


def name_of(rng, prefix):
    """a new name, or one that other types have, too"""
    return fresh(prefix) if rng is None or rng.random() < .7 else f'{prefix}_{rng.randrange(3)}'


def leaf(rng):
    r = rng.random()
    if r < .23:
        return D('leaf', Bit)
    if r < .31:
        return D('leaf', rng.choice(PLAIN))
    return D('leaf', rng.choice(KINDS)[rng.choice((0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 8, 16, 40))])


def enum(rng, lo=1, hi=4):
    names = rng.sample(ENAMES, rng.randint(lo, hi))
    vals = rng.sample(range(-3, 12), len(names))
    ns = {n: (new_instruction() if rng.random() < .3 else v) for n, v in zip(names, vals)}
    return described(D('enum', mk_class(Enum, name_of(rng, 'En'), ns), names, vals=[v if isinstance(v, int) else None for v in ns.values()]))


def twin(rng, d):
    """a description like d of another type with the same name and fields; None for library leaves"""
    if d.kind == 'leaf':
        K = None if d.T is Bit or d.T in PLAIN else d.T.unsized_t
        return D('leaf', twin_kind(K)[d.T.size]) if K in (Word, Word2, Delta) else None
    if d.kind == 'enum':
        ns = {k: (new_instruction() if v is None else v) for k, v in zip(d.keys, d.vals)}
        return D('enum', mk_class(Enum, d.T.__name__, ns, cache=False), d.keys, vals=d.vals)
    if not hasattr(d.T, 'unbound_t'):           # derived from a bound type
        return D(d.kind, mk_class(d.T.__mro__[1], d.T.__name__, {}), d.keys, d.kids)
    G = d.T.unbound_t
    fs = dict(zip(d.keys, (c.T for c in d.kids)))
    if d.kind in ('prod', 'tu'):
        return D(d.kind, G.from_fields(d.T.__name__, fs, cache=False), d.keys, d.kids)
    H = twin_kind(G)
    return D(d.kind, H[fs] if d.kind == 'aprod' else H[tuple(c.T for c in d.kids)], d.keys, d.kids)


def unrelated(kids):
    for i, a in enumerate(kids):
        for b in kids[i + 1:]:
            if a.T is b.T or issubclass(a.T, b.T) or issubclass(b.T, a.T):
                return False
    return True


def build(kind, keys, kids, name=None, how='class', rng=None):
    """the type of the given shape; how: 'class' statement or 'from_fields'"""
    base = {'tuple': Tuple, 'aprod': AnonymousProduct, 'sum': Sum, 'prod': Product, 'tu': TaggedUnion}[kind]
    if rng is not None and rng.random() < .15:
        base = rng.choice(MINE[base])
    if kind == 'aprod':
        return D(kind, base[dict((k, c.T) for k, c in zip(keys, kids))], keys, kids)
    if kind in ('tuple', 'sum'):
        return D(kind, base[tuple(k.T for k in kids)], range(len(kids)), kids)
    fs = dict((k, c.T) for k, c in zip(keys, kids))
    name = name or name_of(rng, 'P' if kind == 'prod' else 'U')
    T = mk_class(base, name, fs) if how == 'class' else base.from_fields(name, fs)
    return D(kind, T, keys, kids)


def adt(rng, depth, kinds=('tuple', 'aprod', 'prod', 'sum', 'tu'), mk_leaf=None, maxkids=4):
    """a random ADT type of at most this depth; the root is an ADT, not a leaf"""
    kind = rng.choice(kinds)
    kids = [node(rng, depth - 1, kinds, mk_leaf, maxkids) for _ in range(rng.randint(1, maxkids))]
    if rng.random() < .12:                      # many fields of few types
        few = kids[:2] + [leaf(rng)] if mk_leaf is None else kids[:2]
        kids = [rng.choice(few) for _ in range(rng.randint(4, 9) if rng.random() < .7 else rng.randint(10, 26))]
    if kind == 'sum':
        kids = list({c.T: c for c in kids}.values())
    if kind in ('sum', 'tu') and len(kids) > 1 and kind == 'tu' and rng.random() < .3:
        kids[-1] = kids[0]                      # two tags of one type
    if kind == 'sum':
        for _ in range(20):
            if unrelated(kids):
                break
            kids = [node(rng, depth - 1, kinds, mk_leaf, maxkids) for _ in range(len(kids))]
        else:
            kids = kids[:1]
    keys = rng.sample(NAMES, len(kids))
    d = build(kind, keys, kids, how=rng.choice(('class', 'from_fields')), rng=rng)
    if rng.random() < .07:                      # a class derived from the bound type
        d = D(kind, mk_class(d.T, name_of(rng, 'Sub'), {}), d.keys, d.kids)
    return described(d)


def node(rng, depth, kinds, mk_leaf=None, maxkids=4):
    if depth <= 0 or rng.random() < .45:
        return mk_leaf(rng) if mk_leaf else (leaf(rng) if rng.random() < .7 else enum(rng))
    return adt(rng, depth, kinds, mk_leaf, maxkids)


# ---------------------------------------------------------------- values ----
def pattern(x):
    return (int(x) if isinstance(x, (Bit, int, str)) else x.v if isinstance(x, Num) else x.as_uint())


def leaf_value(rng, T, exact=False):
    if T is Bit:
        v = rng.getrandbits(1)
        return Bit(v), ('L', v, Bit)
    if T in PLAIN:
        C = T if exact else {int: bool, Num: Num2}.get(T, T) if rng.random() < .2 else T
        v = rng.choice((0, 1)) if C is bool else rng.choice((0, 0, 1, -1, 2, 3, 10 ** 6))
        return C(v), ('L', v, C)
    v = rng.choice((0, 1, (1 << T.size) - 1, rng.getrandbits(T.size), rng.getrandbits(T.size))) & ((1 << T.size) - 1)
    C = T
    if not exact and rng.random() < .2:         # an instance of a subclass
        subs = [K for K in KINDS if issubclass(K, T.unsized_t) and K is not T.unsized_t]
        if subs:
            C = rng.choice(subs)[T.size]
    return C(v), ('L', v, C)


def value(rng, d, pool=(), exact=False, alias=.3):
    """(value, model); fields may alias objects of the pool"""
    if pool and d.kind not in ('leaf', 'enum') and rng.random() < alias:
        c = [(x, m) for x, m in pool if m.d is d]
        if c:
            return rng.choice(c)
    if d.kind == 'leaf':
        return leaf_value(rng, d.T, exact)
    if d.kind == 'enum':
        n = rng.choice(d.keys)
        return getattr(d.T, n), ('E', d, n)
    if d.kind in ('sum', 'tu'):
        i = rng.randrange(len(d.kids))
        x, m = value(rng, d.kids[i], pool, exact=exact, alias=alias)
        return make_alt(rng, d, i, x), Alt(d, i, m)
    parts = []
    for c in d.kids:
        twice = [p for e, p in zip(d.kids, parts) if e is c] if c.kids and alias else ()
        parts.append(rng.choice(twice) if twice and rng.random() < .25 else value(rng, c, pool, exact, alias))
    return make_rec(rng, d, [p[0] for p in parts]), Rec(d, [p[1] for p in parts])


def make_rec(rng, d, xs):
    if d.kind == 'tuple':
        return d.T(*xs)
    r = rng.random()
    if r < .4:
        return d.T(*xs)
    k = 0 if r < .8 else rng.randint(0, len(xs))
    kw = list(zip(d.keys, xs))[k:]
    rng.shuffle(kw)
    return d.T(*xs[:k], **dict(kw))


def make_alt(rng, d, i, x):
    if d.kind == 'tu':
        return d.T(**{d.keys[i]: x})
    T = d.kids[i].T
    if type(x) is T or d.kids[i].kind != 'leaf':
        return d.T(x)
    s = d.T(T(0))                               # an instance of a subclass can only be assigned
    s[T] = x
    return s


def model_eq(a, b):
    if isinstance(a, Rec):
        return isinstance(b, Rec) and a.d is b.d and all(model_eq(p, q) for p, q in zip(a.kids, b.kids))
    if isinstance(a, Alt):
        return isinstance(b, Alt) and a.d is b.d and a.i == b.i and model_eq(a.kid, b.kid)
    if a[0] == 'E':
        return b[0] == 'E' and a[1] is b[1] and (a[2] == b[2] or (
            a[1].vals[a[1].keys.index(a[2])] is not None and a[1].vals[a[1].keys.index(a[2])] == b[1].vals[b[1].keys.index(b[2])]))
    return b[0] == 'L' and a[1] == b[1]


def alike(a, b):
    """equal models: are the leaves of the same classes, too?  (Vectors of
    different classes may be equal, but hash by class: tests/test_hash.py)"""
    if isinstance(a, Rec):
        return all(alike(p, q) for p, q in zip(a.kids, b.kids))
    if isinstance(a, Alt):
        return alike(a.kid, b.kid)
    return a[0] == 'E' or a[2] is b[2]


def key(m):
    """hashable picture of a model"""
    if isinstance(m, Rec):
        return (m.d.T.__name__, tuple(key(k) for k in m.kids))
    if isinstance(m, Alt):
        return (m.d.T.__name__, m.i, key(m.kid))
    return m[1] if m[0] == 'L' else m[2]


def same(ctx, x, d, m, what, path=''):
    """x reads exactly as the model, by every route"""
    if not isinstance(x, d.T):
        ctx.check(False, f'{what}: ill-typed', lambda: f'{path or "value"} of {d}: {type(x).__name__}')
    if d.kind == 'leaf':
        if pattern(x) != m[1] or type(x) is not m[2]:
            ctx.check(False, f'{what}: value', lambda: f'{path or "value"} of {d}: {x!r} ({type(x).__name__}), expected {m[1]} ({m[2].__name__})')
    elif d.kind == 'enum':
        if x is not getattr(d.T, m[2]) or x.name != m[2]:
            ctx.check(False, f'{what}: enum member', lambda: f'{path} of {d}: {x!r}, expected {m[2]}')
    elif isinstance(m, Rec):
        ctx.check(type(x) is d.T, f'{what}: type', lambda: f'{path} of {d}: {type(x)}')
        vd = x.value_dict
        if tuple(vd) != d.keys:
            ctx.check(False, f'{what}: keys of value_dict', lambda: f'{path} of {d}: {tuple(vd)}')
        n = len(d.kids)
        for i, (k, c, e) in enumerate(zip(d.keys, d.kids, m.kids)):
            f = x[i]
            same(ctx, f, c, e, what, f'{path}[{k}]')
            ctx.check(x[i - n] is f and vd[k] is f, f'{what}: routes to one field differ', lambda: f'{path}[{k}] of {d}: {x[i - n]!r} {vd[k]!r} {f!r}')
            if d.kind != 'tuple':
                g = getattr(x, k)
                ctx.check(g is f, f'{what}: routes to one field differ', lambda: f'{path}.{k} of {d}: {g!r} {f!r}')
    else:
        ctx.check(type(x) is d.T, f'{what}: type', lambda: f'{path} of {d}: {type(x)}')
        vd = x.value_dict
        keys = [c.T for c in d.kids] if d.kind == 'sum' else list(d.keys)
        if set(vd) != set(keys) or len(vd) != len(keys):
            ctx.check(False, f'{what}: keys of value_dict', lambda: f'{path} of {d}: {tuple(vd)}')
        for i, (k, c) in enumerate(zip(keys, d.kids)):
            t = x[k] if d.kind == 'sum' else getattr(x, k)
            on = i == m.i
            if bool(t.match) is not on:
                ctx.check(False, f'{what}: match', lambda: f'{path} of {d}: {k} {"does not match" if on else "matches"}; last set {keys[m.i]}')
            if on:
                f = t.value
                same(ctx, f, c, m.kid, what, f'{path}[{k}]')
                ctx.check(vd[k] is f, f'{what}: value_dict', lambda: f'{path} of {d}: {vd}')
            else:
                ctx.check(vd[k] is None, f'{what}: inactive entry of value_dict', lambda: f'{path} of {d}: {vd}')
                ctx.raises(TypeError, lambda: t.value, f'{what}: value of an unmatched alternative', (d, k))


def read_model(x, d):
    """canonical picture of a value, read through the public interface"""
    if d.kind == 'leaf':
        return pattern(x)
    if d.kind == 'enum':
        return x.name
    if d.kind in ('sum', 'tu'):
        for i, c in enumerate(d.kids):
            t = x[c.T] if d.kind == 'sum' else getattr(x, d.keys[i])
            if t.match:
                return (d.T.__name__, i, read_model(t.value, c))
    return (d.T.__name__, tuple(read_model(x[i], c) for i, c in enumerate(d.kids)))


def nodes(pool):
    """all mutable nodes reachable from the pool: (value, model)"""
    out, seen = [], set()

    def go(x, m):
        if not isinstance(m, (Rec, Alt)) or id(x) in seen:
            return
        seen.add(id(x))
        out.append((x, m))
        if isinstance(m, Rec):
            for i, c in enumerate(m.kids):
                go(x[i], c)
        else:
            t = x[m.d.kids[m.i].T] if m.d.kind == 'sum' else getattr(x, m.d.keys[m.i])
            go(t.value, m.kid)
    for x, m in pool:
        go(x, m)
    return out


def compare(ctx, x, m, y, n, what):
    want = model_eq(m, n)
    e, f = x == y, x != y
    ctx.check(bool(e) == want, f'{what}: ==', lambda: f'{x!r} == {y!r} is {e}, expected {want}')
    ctx.check(bool(f) == (not want), f'{what}: !=', lambda: f'{x!r} != {y!r} is {f}, expected {not want}')
    if want and alike(m, n):
        ctx.check(hash(x) == hash(y), f'{what}: hashes of equal values differ', lambda: f'{x!r} {y!r}')
    return want


class History:
    def __init__(self, ctx, rng, kinds, depth=3, types=2, what='history'):
        self.ctx, self.rng, self.what = ctx, rng, what
        self.ds = [adt(rng, rng.randint(1, depth), kinds) for _ in range(types)]
        self.pool = []
        for d in self.ds:
            for _ in range(2):
                self.new(d)

    def new(self, d=None):
        d = d or self.rng.choice(self.ds)
        nd = [n for n in nodes(self.pool)]
        like = [(x, m) for x, m in nd if m.d is d]
        if like and self.rng.random() < .25:    # from another's fields
            x, m = again(*self.rng.choice(like))
        else:
            x, m = value(self.rng, d, nd)
        self.pool.append((x, m))
        if len(self.pool) > 6:
            self.pool.pop(self.rng.randrange(len(self.pool)))
        return x, m

    def write(self):
        rng = self.rng
        x, m = rng.choice(nodes(self.pool))
        d = m.d
        i = rng.randrange(len(d.kids))
        # inner objects of the same history may be aliased (types are finite trees, so no cycles)
        v, vm = value(rng, d.kids[i], nodes(self.pool))
        if isinstance(m, Rec):
            r = rng.random()
            if d.kind == 'tuple' or r < .35:
                x[i if r < .2 else i - len(d.kids)] = v
            else:
                setattr(x, d.keys[i], v)
            m.kids[i] = vm
        else:
            if d.kind == 'sum':
                x[d.kids[i].T] = v
            else:
                setattr(x, d.keys[i], v)
            m.i, m.kid = i, vm
        return d, i, vm

    def check(self):
        for x, m in self.pool:
            same(self.ctx, x, m.d, m, self.what)
            self.ctx.ev(key(m))

    def pairs(self, k=4):
        ns = nodes(self.pool)
        by = collections.defaultdict(list)
        for x, m in ns:
            by[id(m.d)].append((x, m))
        groups = [g for g in by.values()]
        for _ in range(k):
            g = self.rng.choice(groups)
            (x, m), (y, n) = self.rng.choice(g), self.rng.choice(g)
            if self.rng.random() < .4:          # a separately built equal value
                y, n = rebuild(self.rng, m)
            w = compare(self.ctx, x, m, y, n, self.what)
            self.ctx.ev((key(m), key(n), w), 'compared')


def again(x, m):
    """a value built from the fields of another: the same objects inside"""
    y = m.d.T.from_values(x.value_dict)
    return y, Rec(m.d, m.kids) if isinstance(m, Rec) else Alt(m.d, m.i, m.kid)


def rebuild(rng, m):
    """a fresh value equal to the model's"""
    if isinstance(m, Rec):
        ps = [rebuild_kid(rng, c, k) for c, k in zip(m.d.kids, m.kids)]
        return make_rec(rng, m.d, [p[0] for p in ps]), Rec(m.d, [p[1] for p in ps])
    p = rebuild_kid(rng, m.d.kids[m.i], m.kid)
    return make_alt(rng, m.d, m.i, p[0]), Alt(m.d, m.i, p[1])


def rebuild_kid(rng, d, m):
    if isinstance(m, (Rec, Alt)):
        return rebuild(rng, m)
    if m[0] == 'E':
        return getattr(d.T, m[2]), m
    return m[2](m[1]), m
