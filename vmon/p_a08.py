from hwtypes import Bit, BitVector
from hwtypes.adt import Enum, Product, Tuple, Sum, TaggedUnion, AnonymousProduct
from hwtypes.adt_util import ADTVisitor, ADTInstVisitor
from hwtypes.modifiers import make_modifier
from .core import group
from . import adtk, modtree
from .adtk import Rec, Alt

HANDLERS = ('Enum', 'Product', 'Tuple', 'TaggedUnion', 'Sum', 'leaf')
HANDLER = {'enum': 'Enum', 'prod': 'Product', 'aprod': 'Tuple', 'tuple': 'Tuple', 'tu': 'TaggedUnion', 'sum': 'Sum', 'leaf': 'leaf'}


class Stop(Exception): pass


def make_visitor(rng, base):
    """a visitor overriding some handlers: {name: 'go'|'end'}; calls are logged"""
    how = {h: rng.choice(('go', 'go', 'end')) for h in HANDLERS if rng.random() < .55}
    if rng.random() < .2:
        how = {h: 'go' for h in HANDLERS}
    elif rng.random() < .05:
        how = {}
    ns, root = {}, base
    for h, w in how.items():
        def f(self, node, h=h, w=w):
            self.log.append((h, node))
            if self.stop is not None and len(self.log) > self.stop:
                raise Stop
            if w == 'go':
                if h in ('Enum', 'leaf'):
                    return
                if rng.random() < .5:
                    self.generic_visit(node)
                else:
                    getattr(root, f'visit_{h}')(self, node)   # as by super()
        ns[f'visit_{h}'] = f
    if rng.random() < .4:                       # spread over two classes
        ks = list(ns)
        rng.shuffle(ks)
        a = {k: ns[k] for k in ks[:len(ks) // 2]}
        base = type('Base', (base,), a)
        ns = {k: v for k, v in ns.items() if k not in a}

    class V(base):
        stop = None
        def __init__(self):
            self.log = []
    for k, f in ns.items():
        setattr(V, k, f)
    return V, how


def expect(how, h, node, kids):
    """log of visiting a node of kind h; kids() gives the logs of its children in order"""
    out = []
    if h in how:
        out.append((h, node))
        if how[h] == 'end':
            return out
    if h in ('Enum', 'leaf'):
        return out
    for k in kids():
        out += k
    return out


def cmp(ctx, v, want, what, root):
    got = v.log
    ok = len(got) == len(want) and all(a[0] == b[0] and a[1] is b[1] for a, b in zip(got, want))
    ctx.check(ok, f'{what}: handler calls', lambda: f'{root}: {[(h, str(x)) for h, x in got]}, expected {[(h, str(x)) for h, x in want]}')


# --------------------------------------------------------------- types ------
def type_log(n, how):
    T = n.T

    def kids():
        by = {c.T: c for c in n.kids} if n.kind == 'sum' else dict(zip(n.keys, n.kids))
        fd = T.field_dict
        if n.kind in ('sum', 'tu'):
            return [type_log(by[k], how) for k in fd]          # unordered fields: the order the type reports
        return [type_log(c, how) for c in n.kids]
    return expect(how, HANDLER[n.kind], T, kids)


@group(900, 25000)
def type_visits(ctx, rng):
    n = modtree.tree(rng, 3, pl=.15, pn=.15, pc=.1, root=rng.random() > .1)
    for _ in range(3):
        V, how = make_visitor(rng, ADTVisitor)
        v = V()
        want = type_log(n, how)
        ctx.check(v.visit(n.T) is None, 'visit returned something', lambda: n)
        cmp(ctx, v, want, 'visiting a type', n)
        for h, x in want:
            ctx.ev((h, str(x), tuple(sorted(how.items()))), h)
        w = V()
        w.visit(n.T)
        v.visit(n.T)                            # again, and another visitor of the class
        cmp(ctx, w, want, 'a second visitor', n)
        cmp(ctx, v, want + want, 'visiting again', n)
        ctx.ev((repr(n), tuple(sorted(how.items()))), 'visits')
        if want:
            u = V()
            u.stop = rng.randrange(len(want))
            ctx.raises(Stop, lambda: u.visit(n.T), 'an exception of a handler was swallowed', n)
            cmp(ctx, u, want[:u.stop + 1], 'visit cut short', n)
    ctx.sample(f'{n}')


class S1(Tuple[Bit, BitVector[2]]): pass
class S2(Sum[Bit, BitVector[2]]): pass
class P0(Product):
    x = Bit
    y = Tuple[Bit]
class S3(P0): pass
class GT(Tuple): pass
class GP(Product):
    def f(self): pass
class P1(GP):
    x = BitVector[3]


@group(100, 1000)
def subclasses(ctx, rng):
    for T, h, kids in ((S1, 'Tuple', (Bit, BitVector[2])), (S2, 'Sum', None), (S3, 'Product', (Bit, Tuple[Bit])), (GT[Bit, GT[Bit]], 'Tuple', (Bit, GT[Bit])), (P1, 'Product', (BitVector[3],)),
                       (AnonymousProduct[dict(q=Bit)], 'Tuple', (Bit,)), (int, 'leaf', ()), (Bit, 'leaf', ()), (BitVector, 'leaf', ()), (BitVector[3], 'leaf', ())):
        class V(ADTVisitor):
            def __init__(self): self.log = []
        def top(name):
            def f(self, node):
                self.log.append((name, node))
                if len(self.log) == 1 and name not in ('leaf', 'Enum'):
                    self.generic_visit(node)
            return f
        for name in HANDLERS:
            setattr(V, f'visit_{name}', top(name))
        v = V()
        v.visit(T)
        ctx.check(v.log[0] == (h, T), 'kind of a type', (T, v.log))
        if kids is None:
            kids = tuple(T.fields)
        ctx.check([x for _, x in v.log[1:]] == list(kids), 'children of a type', (T, v.log))
        ctx.ev((T.__name__, h))


# -------------------------------------------------------------- values ------
def value_log(x, m, how):
    if isinstance(m, Rec):
        return expect(how, HANDLER[m.d.kind], x, lambda: [value_log(x[i], c, how) for i, c in enumerate(m.kids)])
    if isinstance(m, Alt):
        d = m.d
        kid = (x[d.kids[m.i].T] if d.kind == 'sum' else getattr(x, d.keys[m.i])).value
        return expect(how, HANDLER[d.kind], x, lambda: [value_log(kid, m.kid, how)])
    return expect(how, 'leaf' if m[0] == 'L' else 'Enum', x, lambda: [])


@group(900, 25000)
def value_visits(ctx, rng):
    d = adtk.adt(rng, 3) if rng.random() > .1 else rng.choice((adtk.leaf, adtk.enum))(rng)
    for _ in range(3):
        x, m = adtk.value(rng, d)
        if rng.random() < .3:                   # parts shared with another value
            x, m = adtk.value(rng, d, adtk.nodes([(x, m)]), alias=.7)
        V, how = make_visitor(rng, ADTInstVisitor)
        v = V()
        want = value_log(x, m, how)
        ctx.check(v.visit(x) is None, 'visit returned something', lambda: d)
        cmp(ctx, v, want, 'visiting a value', x)
        for h, y in want:
            ctx.ev((h, str(y), tuple(sorted(how.items()))), h)
        adtk.same(ctx, x, d, m, 'a visited value')
        if isinstance(m, Alt) and len(d.kids) > 1:          # another alternative, and again
            i = rng.randrange(len(d.kids))
            y, k = adtk.value(rng, d.kids[i])
            if d.kind == 'sum':
                x[d.kids[i].T] = y
            else:
                setattr(x, d.keys[i], y)
            m.i, m.kid = i, k
        elif isinstance(m, Rec):
            i = rng.randrange(len(d.kids))
            y, k = adtk.value(rng, d.kids[i])
            x[i] = y
            m.kids[i] = k
        w = V()
        w.visit(x)
        cmp(ctx, w, value_log(x, m, how), 'visiting an updated value', x)
        ctx.ev((adtk.key(m), tuple(sorted(how.items()))), 'visits')
    ctx.sample(f'{d}')


@group(200, 4000)
def flatten(ctx, rng):
    """a visitor in use: the leaves of a value in order, each with its path"""
    d = adtk.adt(rng, 3, ('tuple', 'aprod', 'prod'))
    x, m = adtk.value(rng, d)
    class F(ADTInstVisitor):
        def __init__(self): self.out = []
        def visit_leaf(self, v): self.out.append(v)
        def visit_Enum(self, v): self.out.append(v)
    f = F()
    f.visit(x)
    def flat(y, k):
        return [z for i, c in enumerate(k.kids) for z in flat(y[i], c)] if isinstance(k, Rec) else [y]
    want = flat(x, m)
    ctx.check(len(f.out) == len(want) and all(a is b for a, b in zip(f.out, want)), 'leaves of a value', lambda: f'{x}: {f.out}, expected {want}')
    class G(ADTVisitor):
        def __init__(self): self.out = []
        def visit_leaf(self, v): self.out.append(v)
        def visit_Enum(self, v): self.out.append(v)
    g = G()
    g.visit(d.T)
    want = [e.T for e in d.walk() if not e.kids]
    ctx.check(len(g.out) == len(want) and all(a is b for a, b in zip(g.out, want)), 'leaves of a type', lambda: f'{d}: {g.out}, expected {want}')
    ctx.ev((adtk.key(m),))
    ctx.sample(f'{d}')
