import gc
from hwtypes import (Bit, BitVector, UIntVector, SIntVector, SMTBit, SMTBitVector, z3Bit, z3BitVector, AbstractBit, AbstractBitVector)
from hwtypes.adt import Enum, Product, Tuple, Sum, TaggedUnion, AnonymousProduct, is_adt_type
from hwtypes.adt_util import rebind_bitvector, rebind_keep_modifiers, rebind_type
from hwtypes.modifiers import make_modifier, is_modified, unwrap_modifier, wrap_modifier
from .core import group
from . import adtk
from .modtree import N, tree, make_type, mods, leafT, sub, struct, ENUMS, MODS, VECS, MyTuple


class Exp:
    """what a rebound node must be: itself (T) or a node of the same shape"""
    def __init__(self, T=None, n=None, kids=(), mods=()):
        self.T, self.n, self.kids, self.mods = T, n, kids, mods

    def type(self):
        if self.T is not None:
            return self.T
        n = self.n
        U = make_type(n.kind, n.G, n.name, n.keys, [k.type() for k in self.kids], n.cache)
        return wrap_modifier(U, self.mods)


def rebuilt(n, kids, mods=()):
    """Exp of n with these children; n itself when none of them changed"""
    if all(e.T is c.T for e, c in zip(kids, n.kids)) and list(mods) == n.mods:
        return Exp(n.T)
    return Exp(None, n, kids, mods)


def check(ctx, got, e, n, what, detail):
    """got is the type e describes, obtained from n"""
    if e.T is not None:
        ctx.check(got is e.T, f'{what}: ' + ('a rebind that matches nothing changed the type' if e.T is n.T else 'wrong type'), lambda: f'{detail()}: {got!r}, expected {e.T!r}')
        ctx.ev((what, repr(n), str(e.T)), 'same' if e.T is n.T else 'replaced')
        return
    want = e.type()
    a, b = struct(got), struct(want)
    ctx.check(a == b, f'{what}: wrong type', lambda: f'{detail()}: {got!r} {a}, expected {want!r} {b}')
    if all(m.cache for m in n.walk()):
        ctx.check(got is want, f'{what}: not the type of that shape', lambda: f'{detail()}: {got!r}')
    elif not n.cache and not n.mods:
        ctx.check(not got.is_cached, f'{what}: is_cached', detail)
    ctx.ev((what, repr(n), repr(want)), 'rebuilt')


# --------------------------------------------------------------- models -----
def m_rebind(n, A, B, subs, rec):
    kids = []
    for c in n.kids:
        if c.T is A or subs and sub(c.T, A):
            kids.append(Exp(B))
        elif rec and c.kind not in ('leaf', 'enum'):
            kids.append(m_rebind(c, A, B, subs, True))
        else:
            kids.append(Exp(c.T))
    return rebuilt(n, kids, n.mods)


def m_bv(n, t0, t1, keep):
    if n.kind == 'leaf':
        T = n.U if keep else n.T
        if sub(n.U, t0) and isinstance(n.U, type(AbstractBitVector)):
            R = t1[n.U.size] if n.U.is_sized else t1
            return Exp(wrap_modifier(R, n.mods) if keep else R)
        return Exp(n.T)
    if n.kind == 'enum':
        return Exp(n.T)
    return rebuilt(n, [m_bv(c, t0, t1, keep) for c in n.kids], n.mods)


def m_keep(n, A, B):
    if sub(n.U, A):
        return Exp(wrap_modifier(B, n.mods))
    if n.kind in ('leaf', 'enum'):
        return Exp(n.T)
    return rebuilt(n, [m_keep(c, A, B) for c in n.kids], n.mods)


def m_family(n, fam):
    if n.kind == 'leaf':
        if sub(n.U, AbstractBitVector):
            R = fam.BitVector[n.U.size] if n.U.is_sized else fam.BitVector
        elif sub(n.U, AbstractBit):
            R = fam.Bit
        else:
            R = n.U
        return Exp(wrap_modifier(R, n.mods))
    if n.kind == 'enum':
        return Exp(n.T)
    return rebuilt(n, [m_family(c, fam) for c in n.kids], n.mods)


# --------------------------------------------------------------- groups -----
def all_structs(n):
    return [(m.T, struct(m.T)) for m in n.walk()]


def unchanged(ctx, snap, what):
    for T, s in snap:
        ctx.check(struct(T) == s, f'{what}: the original type changed', lambda: f'{T!r}: {struct(T)}, was {s}')


def pick_source(rng, n):
    ns = [m for m in n.walk()][1:]
    r = rng.random()
    m = rng.choice(ns)
    if r < .6:
        return m.T
    if r < .7:
        return rng.choice((Bit, BitVector, UIntVector, AbstractBitVector, AbstractBit, Tuple, Sum, Product, TaggedUnion, AnonymousProduct, Enum, MyTuple, object))
    if r < .85 and m.kind == 'leaf':
        return rng.choice(m.U.__mro__[:-1] or (m.U,))
    return leafT(rng)


def pick_target(rng, n):
    r = rng.random()
    if r < .5:
        return leafT(rng)
    if r < .75:
        return rng.choice([m for m in n.walk()]).T
    return tree(rng, 1).T


@group(1500, 40000)
def rebind(ctx, rng):
    n = tree(rng, 3, pl=.15, pc=.15)
    snap = all_structs(n)
    for _ in range(4):
        A, B = pick_source(rng, n), pick_target(rng, n)
        subs, rec = rng.random() < .5, rng.random() < .7
        e = m_rebind(n, A, B, subs, rec)
        kw = {}
        if subs or rng.random() < .5:
            kw['rebind_sub_types'] = subs
        if not rec or rng.random() < .5:
            kw['rebind_recursive'] = rec
        got = n.T.rebind(A, B, **kw)
        check(ctx, got, e, n, 'rebind', lambda: f'{n}.rebind({A!r}, {B!r}, {kw})')
        again = n.T.rebind(A, B, subs, rec)
        ctx.check(struct(again) == struct(got), 'rebind: positional options', lambda: f'{n}.rebind({A!r}, {B!r}, {subs}, {rec}): {again!r}, {got!r}')
        unchanged(ctx, snap, 'rebind')
        # back again, when B is new to the tree
        if rec and not subs and sub(A, object) and not any(m.T is B for m in n.walk()) and not is_adt_type(B) and B is not A and all(m.cache for m in n.walk()) \
                and not any(m.kind == 'sum' for m in n.walk()):
            back = got.rebind(B, A)
            ctx.check(back is n.T, 'rebind: there and back', lambda: f'{n} {A!r} <-> {B!r}: {back!r}')
            ctx.ev((repr(n), str(A), str(B)), 'back')
    # nothing to match, wherever modifiers stand
    m = tree(rng, 2, pl=.3, pn=.3)
    class Absent: pass
    for subs in (False, True):
        for rec in (False, True):
            ctx.check(m.T.rebind(Absent, Bit, subs, rec) is m.T, 'rebind: a rebind that matches nothing changed the type', lambda: f'{m}: {m.T.rebind(Absent, Bit, subs, rec)}')
            ctx.ev((repr(m), subs, rec), 'nothing')
    ctx.sample(f'{n}')


@group(900, 25000)
def bitvectors(ctx, rng):
    keep = rng.random() < .6
    n = tree(rng, 3, pl=.3, pn=.25 if keep else 0, pc=.1)
    if rng.random() < .15:
        n = N('leaf', leafT(rng), mods(rng, .4))
    snap = all_structs(n)
    for _ in range(3):
        t0 = rng.choice(VECS)
        if rng.random() < .15:
            t0 = t0[rng.choice((1, 2, 3, 8))]
        t1 = rng.choice(VECS)
        if n.kind == 'leaf' and n.mods and not keep and not sub(n.U, t0):
            continue
        e = m_bv(n, t0, t1, keep)
        args = (keep,) if keep or rng.random() < .5 else ()
        got = rebind_bitvector(n.T, t0, t1, *args)
        check(ctx, got, e, n, 'rebind_bitvector', lambda: f'rebind_bitvector({n}, {t0!r}, {t1!r}, {keep})')
        unchanged(ctx, snap, 'rebind_bitvector')
    ctx.sample(f'{n}')


@group(900, 25000)
def keep_modifiers(ctx, rng):
    n = tree(rng, 3, pl=.3, pn=.25, pc=.1)
    if rng.random() < .1:
        n = N('leaf', leafT(rng), mods(rng, .5))
    snap = all_structs(n)
    for _ in range(3):
        A = unwrap_modifier(pick_source(rng, n))[0] if n.kids else rng.choice((AbstractBit, BitVector, n.U))
        B = unwrap_modifier(pick_target(rng, n))[0]
        if A is object:
            continue
        e = m_keep(n, A, B)
        got = rebind_keep_modifiers(n.T, A, B)
        check(ctx, got, e, n, 'rebind_keep_modifiers', lambda: f'rebind_keep_modifiers({n}, {A!r}, {B!r})')
        unchanged(ctx, snap, 'rebind_keep_modifiers')
    ctx.sample(f'{n}')


@group(900, 25000)
def families(ctx, rng):
    n = tree(rng, 3, pc=.1)
    if rng.random() < .15:
        n = N('leaf', leafT(rng))
    if rng.random() < .3:
        n = N(n.kind, n.U, mods(rng, 1), n.G, n.name, n.keys, n.kids, n.cache)
    snap = all_structs(n)
    fams = [K.get_family() for K in (Bit, SMTBit, z3Bit)]
    seen = {}
    for fam in fams:
        e = m_family(n, fam)
        got = rebind_type(n.T, fam)
        check(ctx, got, e, n, 'rebind_type', lambda: f'rebind_type({n}, {fam})')
        seen[fam] = got
        unchanged(ctx, snap, 'rebind_type')
    if all(m.cache for m in n.walk()):
        for f in fams:
            for g in fams:
                r = rebind_type(seen[f], g)
                ctx.check(r is seen[g], 'rebind_type: by way of another family', lambda: f'{n}: {f} then {g}: {r!r}, expected {seen[g]!r}')
                ctx.ev((repr(n), str(f), str(g)), 'via')
    for x in (3, None, 'T', Bit(0), int, str, ENUMS[0]):
        ctx.check(rebind_type(x, fams[1]) is x, 'rebind_type: something else changed', x)
    ctx.sample(f'{n}')


@group(60, 500)
def enums(ctx, rng):
    E = rng.choice(ENUMS)
    for A in (Bit, int, Enum, E):
        for subs in (False, True):
            ctx.check(E.rebind(A, BitVector[2], subs) is E, 'rebind of an enum', (E, A))
            ctx.check(rebind_keep_modifiers(E, Bit, A) is E and rebind_bitvector(E, BitVector, UIntVector) is E, 'rebind of an enum', (E, A))
            ctx.ev((E.__name__, A.__name__, subs))
    ctx.sample(E)
