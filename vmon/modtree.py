"""ADT types with modifiers anywhere, and a reader of their structure."""
from hwtypes import Bit, BitVector, UIntVector, SIntVector, SMTBit, SMTBitVector, z3Bit, z3BitVector, AbstractBit, AbstractBitVector
from hwtypes.adt import Enum, Product, Tuple, Sum, TaggedUnion, AnonymousProduct, is_adt_type
from hwtypes.modifiers import make_modifier, unwrap_modifier, wrap_modifier
from . import adtk


class MyTuple(Tuple): pass
class MySum(Sum): pass
class MyAnon(AnonymousProduct): pass
class MyProduct(Product):
    def describe(self): return 1
class MyTU(TaggedUnion): pass


MODS = [make_modifier(f'A06{c}') for c in 'XYZUVWST']
VECS = (BitVector, UIntVector, SIntVector, adtk.Word, adtk.Delta, adtk.Word2, SMTBitVector, z3BitVector, AbstractBitVector)
BITS = (Bit, adtk.Flag, SMTBit, z3Bit, AbstractBit)
GEN = {'tuple': (Tuple, MyTuple), 'aprod': (AnonymousProduct, MyAnon), 'prod': (Product, MyProduct), 'sum': (Sum, MySum), 'tu': (TaggedUnion, MyTU)}
KINDS = tuple(GEN)


class N:
    """a node: its unmodified type is base(); T is the type with the modifiers"""
    def __init__(self, kind, U, mods=(), G=None, name=None, keys=(), kids=(), cache=True):
        self.kind, self.U, self.mods, self.G, self.name, self.keys, self.kids, self.cache = kind, U, list(mods), G, name, list(keys), list(kids), cache
        self.T = wrap_modifier(U, self.mods) if self.mods else U

    def __repr__(self):
        s = self.U.__name__ if self.kind in ('leaf', 'enum') else f'{self.G.__name__}{"" if self.name is None else ":" + self.name}({", ".join(f"{k}={c}" for k, c in zip(self.keys, self.kids))})'
        for m in self.mods:
            s = f'{m.__name__}<{s}>'
        return s

    def walk(self):
        yield self
        for c in self.kids:
            yield from c.walk()


def make_type(kind, G, name, keys, ts, cache=True):
    if kind in ('tuple', 'sum'):
        return G[tuple(ts)]
    if kind == 'aprod':
        return G[dict(zip(keys, ts))]
    return G.from_fields(name, dict(zip(keys, ts)), cache=cache)


def leafT(rng):
    r = rng.random()
    if r < .25:
        return rng.choice(BITS)
    if r < .32:
        return rng.choice(VECS)                 # unsized
    if r < .36:
        return rng.choice((int, str, object))
    return rng.choice(VECS)[rng.choice((0, 1, 1, 2, 2, 3, 3, 8, 8))]


def mods(rng, p):
    return rng.sample(MODS, rng.choice((1, 1, 2, 3)) if rng.random() < .9 else rng.randint(4, 6)) if rng.random() < p else []


def tree(rng, depth, pl=0., pn=0., pc=0., root=True, share=None):
    """pl, pn: chance of modifiers on leaves and inner nodes; pc: of cache=False"""
    share = [] if share is None else share
    if not root and share and rng.random() < .2:
        return rng.choice(share)
    if not root and (depth <= 0 or rng.random() < .4):
        n = N('leaf', leafT(rng), mods(rng, pl)) if rng.random() < .88 else N('enum', rng.choice(ENUMS))
    else:
        kind = rng.choice(KINDS)
        kids = [tree(rng, depth - 1, pl, pn, pc, False, share) for _ in range(rng.randint(1, 4))]
        if rng.random() < .12:                  # many fields of few types
            kids = [rng.choice(kids[:2]) for _ in range(rng.randint(4, 9) if rng.random() < .7 else rng.randint(10, 26))]
        if kind == 'sum':
            kids = list({k.T: k for k in kids}.values())
        keys = rng.sample(adtk.NAMES, len(kids)) if kind not in ('tuple', 'sum') else range(len(kids))
        G = rng.choice(GEN[kind])
        name = adtk.name_of(rng, 'R') if kind in ('prod', 'tu') else None
        cache = kind not in ('prod', 'tu') or rng.random() >= pc
        n = N(kind, make_type(kind, G, name, keys, [k.T for k in kids], cache), mods(rng, pn), G, name, keys, kids, cache)
    share.append(n)
    return n


ENUMS = [Enum.from_fields(f'A06E{i}', {'a': 0, 'b': i}) for i in range(3)]
ENUMS.append(Enum.from_fields('A06E0', {'a': 0, 'b': 0}, cache=False))


def sub(T, A):
    try:
        return issubclass(T, A)
    except TypeError:
        return False


def struct(T):
    """what T is, as read through its interface"""
    U, ms = unwrap_modifier(T)
    if not is_adt_type(U) or issubclass(U, Enum) or not U.is_bound:
        return (T,)
    G = U.unbound_t
    named = issubclass(U, (Product, TaggedUnion))
    fd = U.field_dict
    if issubclass(U, TaggedUnion):
        fs = frozenset((k, struct(t)) for k, t in fd.items())
    elif issubclass(U, Sum):
        fs = frozenset(struct(t) for t in fd.values())
    else:
        fs = tuple((k, struct(t)) for k, t in fd.items())
    return (G, U.__name__ if named else None, fs, tuple(ms))


