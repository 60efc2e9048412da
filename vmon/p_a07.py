import gc
from hwtypes import Bit, BitVector, UIntVector, SIntVector, AbstractBit, AbstractBitVector, SMTBit, SMTBitVector
from hwtypes.adt import Enum, Product, Tuple, Sum, TaggedUnion, AnonymousProduct, is_adt_type
from hwtypes.modifiers import (make_modifier, is_modified, is_modifier, get_modifier, get_unmodified, get_all_modifiers,
                               unwrap_modifier, wrap_modifier, strip_modifiers, push_modifiers, new)
from .core import group
from .ref import width_like
from . import adtk
from .modtree import N, tree, make_type, struct, ENUMS, MODS


class Plain: pass
class PlainSub(Plain): pass


def base_type(rng):
    r = rng.random()
    if r < .2:
        return rng.choice((Bit, adtk.Flag, SMTBit, AbstractBit))
    if r < .5:
        return rng.choice((BitVector, UIntVector, SIntVector, adtk.Word, SMTBitVector))[rng.choice((1, 2, 3, 8))]
    if r < .6:
        return rng.choice((BitVector, SIntVector, adtk.Delta, Plain, PlainSub, int))
    if r < .7:
        return rng.choice(ENUMS)
    return tree(rng, 2).T


def same_name(rng, T):
    """another type with the name, bases and fields of T (None: not made here)"""
    if T in (Plain, PlainSub):
        return type(T.__name__, T.__bases__, {'__qualname__': T.__qualname__})
    if is_adt_type(T) and T.is_bound if not issubclass(T, Enum) else False:
        G, fs = T.unbound_t, T.field_dict
        if issubclass(T, (Product, TaggedUnion)):
            return G.from_fields(T.__name__, dict(fs), cache=False)
        H = adtk.twin_kind(G)
        return H[dict(fs)] if issubclass(T, AnonymousProduct) else H[tuple(T.fields)]
    if issubclass(T, Enum):
        return Enum.from_fields(T.__name__, {'a': 0, 'b': 1}, cache=False)
    if T is adtk.Flag:
        return adtk.twin_kind(T)
    if issubclass(T, (adtk.Word, adtk.Delta)):
        K = adtk.twin_kind(T.unsized_t)
        return K[T.size] if T.is_sized else K


def modifiers(rng, k):
    return [make_modifier(rng.choice(('Global', 'In', 'Out', 'Q'))) for _ in range(k)]


def check_stack(ctx, T, base, ms, what):
    """T is base with the modifiers ms, innermost first"""
    ctx.check(is_modified(T) == bool(ms), f'{what}: is_modified', lambda: f'{T} {ms}')
    U, got = unwrap_modifier(T)
    ctx.check(U is base, f'{what}: unwrapped type', lambda: f'{T}: {U!r}, expected {base!r}')
    ctx.check(len(got) == len(ms) and all(a is b for a, b in zip(got, ms)), f'{what}: unwrapped modifiers', lambda: f'{T}: {got}, expected {ms}')
    al = list(get_all_modifiers(T))
    ctx.check(len(al) == len(ms) and all(a is b for a, b in zip(al, ms)), f'{what}: get_all_modifiers', lambda: f'{T}: {al}, expected {ms}')
    if not ms:
        ctx.raises(TypeError, lambda: get_modifier(T), f'{what}: modifier of an unmodified type', T)
        ctx.raises(TypeError, lambda: get_unmodified(T), f'{what}: unmodified of an unmodified type', T)
        return
    ctx.check(get_modifier(T) is ms[-1], f'{what}: get_modifier', (T, get_modifier(T)))
    V = get_unmodified(T)
    ctx.check(ms[-1](V) is T, f'{what}: not one and the same type', T)
    ctx.check(issubclass(T, base) and issubclass(T, V) and T is not V, f'{what}: no subtype of the original', (T, V))
    ctx.check(issubclass(T, ms[-1]), f'{what}: no instance of the modifier', (T, ms))
    if len(set(ms)) == len(ms):
        ctx.check(wrap_modifier(base, ms) is T, f'{what}: wrapped again', T)
        ctx.check(wrap_modifier(U, got) is T, f'{what}: wrapped again', T)
    ctx.ev((what, base.__name__, tuple(m.__name__ for m in ms)))


@group(700, 20000)
def stacks(ctx, rng):
    """modifiers applied, in any order, with types forgotten and collected"""
    bases = [base_type(rng) for _ in range(rng.randint(1, 3))]
    if rng.random() < .4:
        bases += [t for t in map(lambda b: same_name(rng, b), bases) if t is not None]
    ms = modifiers(rng, rng.randint(1, 4) if rng.random() < .9 else rng.randint(5, 8))
    others = modifiers(rng, 2)
    live = {}                                    # (base index, modifier indices) -> type
    for step in range(rng.randint(6, 20)):
        r = rng.random()
        if r < .12 and live:
            for k in rng.sample(list(live), rng.randint(1, len(live))):
                # the types under a living one live, too
                if not any(q[0] == k[0] and q[1][:len(k[1])] == k[1] and q != k for q in live):
                    del live[k]
            if rng.random() < .5:
                gc.collect()
            continue
        i = rng.randrange(len(bases))
        js = tuple(rng.sample(range(len(ms)), rng.randint(0, len(ms))))
        T = bases[i]
        if rng.random() < .5:
            T = wrap_modifier(T, [ms[j] for j in js])
        else:
            for j in js:
                T = ms[j](T)
        for n in range(len(js) + 1):
            U = wrap_modifier(bases[i], [ms[j] for j in js[:n]])
            k = (bases[i], js[:n])
            if k in live:
                ctx.check(live[k] is U, 'stack: the same modifiers gave another type', lambda: f'{U} {k}')
            for q, S in live.items():
                ctx.check((S is U) == (q == k), 'stack: different modifiers gave one type', lambda: f'{S} {q} {k}')
                want = q[0] is k[0] and k[1][:len(q[1])] == q[1]
                if q[0] is k[0] and want:
                    ctx.check(issubclass(U, S), 'stack: no subtype of a partial stack', lambda: f'{U} {S}')
            live[k] = U
        check_stack(ctx, T, bases[i], [ms[j] for j in js], 'stack')
        for m in others:
            ctx.check(not issubclass(T, m), 'stack: instance of a modifier not applied', (T, m))
        for j, m in enumerate(ms):
            if j not in js:
                ctx.check(not issubclass(T, m), 'stack: instance of a modifier not applied', (T, m))
        if js:
            m = ms[js[-1]]
            V = get_unmodified(T)
            for b in V.__bases__:
                if b is not object:
                    ctx.check(issubclass(T, m(b)), 'stack: no subtype of a modified base', (T, b))
            for S in [s for s in V.__mro__ if s is not object]:
                ctx.check(issubclass(T, S), 'stack: no subtype of a base', (T, S))
    for b in bases:
        check_stack(ctx, b, b, [], 'stack')
    dup = [ms[0]] + [rng.choice(ms) for _ in range(2)] + [ms[0]]
    ctx.raises(TypeError, lambda: wrap_modifier(bases[0], dup), 'a modifier wrapped twice', (bases[0], dup))
    ctx.sample(f'{bases} {ms}')


@group(400, 10000)
def registry(ctx, rng):
    """the modifiers themselves"""
    from hwtypes.modifiers import AbstractModifier
    names = ['A07' + adtk.fresh('c') for _ in range(2)]
    ms = {}
    plain = []
    for _ in range(rng.randint(4, 12)):
        n = rng.choice(names)
        if rng.random() < .5:
            M = make_modifier(n, cache=True)
            if n in ms:
                ctx.check(ms[n] is M, 'make_modifier(cache=True) gave another modifier', n)
            ms[n] = M
        elif rng.random() < .7:
            M = make_modifier(n) if rng.random() < .5 else make_modifier(n, cache=False)
            ctx.check(M not in plain and M not in ms.values(), 'make_modifier gave a modifier already made', n)
            plain.append(M)
        else:
            if rng.random() < .5:
                ms.pop(n, None)
            gc.collect()
            continue
        ctx.check(is_modifier(M) and M.__name__ == n and issubclass(M, AbstractModifier) and not is_modified(M), 'modifier', M)
        T = M(Bit)
        ctx.check(T.__name__ == n + 'Bit', 'name of a modified type', T)
        ctx.check(not is_modifier(T) and not is_modifier(Bit), 'a modified type is no modifier', T)
        alive = list(ms.values()) + plain
        for P in alive:
            ctx.check(issubclass(T, P) == (P is M), 'instance of another modifier', (T, P))
            ctx.check((P(Bit) is T) == (P is M), 'another modifier gave the same type', (T, P))
        ctx.check(not issubclass(Bit, M) and issubclass(T, Bit), 'modified and unmodified', T)
        ctx.ev((len(alive), M in plain))
    # a modifier forgotten, its modified type alive
    M = make_modifier('A07gone', cache=True)
    T = M(BitVector[3])
    m = id(M)
    del M
    gc.collect()
    M = get_modifier(T)
    ctx.check(id(M) == m and M(BitVector[3]) is T and unwrap_modifier(T) == (BitVector[3], [M]) and make_modifier('A07gone', cache=True) is M,
              'a modifier in use was lost', T)
    ctx.raises(TypeError, lambda: AbstractModifier(Bit), 'AbstractModifier applied', None)
    ctx.raises(TypeError, lambda: AbstractModifier(), 'AbstractModifier instanced', None)
    ctx.sample(f'{names}')


@group(500, 12000)
def values(ctx, rng):
    """values of modified types are values of the type, too"""
    n = width_like(rng, (1, 2, 3, 8, 16))
    K = rng.choice((BitVector, UIntVector, SIntVector, adtk.Word))
    ms = modifiers(rng, rng.randint(1, 3) if rng.random() < .9 else rng.randint(4, 7))
    T = wrap_modifier(K[n], ms)
    v = rng.getrandbits(n)
    x = T(v)
    ctx.check(type(x) is T and isinstance(x, K[n]) and isinstance(x, ms[-1]) and x.as_uint() == v and T.size == n and T.is_sized, 'value of a modified vector', (T, x))
    ctx.check(not isinstance(K[n](v), ms[-1]) and not isinstance(K[n](v), T), 'value of the unmodified type', (T, x))
    ctx.check(bool(x == K[n](v)), 'modified and unmodified value', (T, x))
    B = wrap_modifier(Bit, ms)
    b = B(v & 1)
    ctx.check(type(b) is B and isinstance(b, Bit) and isinstance(b, ms[-1]) and bool(b) == bool(v & 1), 'value of a modified bit', (B, b))
    d = adtk.adt(rng, 2)
    D = wrap_modifier(d.T, ms)
    ctx.check(list(D.field_dict) == list(d.T.field_dict) and all(D.field_dict[k] is d.T.field_dict[k] for k in d.T.field_dict) and D.fields == d.T.fields and D.is_bound,
              'fields of a modified ADT type', lambda: f'{D}: {dict(D.field_dict)}')
    y, m = adtk.value(rng, d, exact=True)
    if d.kind in ('tuple', 'aprod', 'prod'):
        xs = [y[i] for i in range(len(d.kids))]
        z = D(*xs)
        for i in range(len(xs)):
            ctx.check(z[i] is xs[i], 'field of a modified value', (D, i))
        if d.kind != 'tuple':
            z = D(**dict(zip(d.keys, xs)))
            for k, c in zip(d.keys, xs):
                ctx.check(getattr(z, k) is c and getattr(D, k) is d.T.field_dict[k], 'field of a modified value', (D, k))
    elif d.kind == 'sum':
        z = D(y[d.kids[m.i].T].value)
        for i, c in enumerate(d.kids):
            ctx.check(bool(z[c.T].match) == (i == m.i), 'match of a modified value', (D, c))
    else:
        z = D(**{d.keys[m.i]: getattr(y, d.keys[m.i]).value})
        for i, k in enumerate(d.keys):
            ctx.check(bool(getattr(z, k).match) == (i == m.i), 'match of a modified value', (D, k))
    ctx.check(type(z) is D and isinstance(z, d.T) and isinstance(z, ms[-1]) and not isinstance(y, ms[-1]), 'value of a modified ADT type', (D, z))
    ctx.ev((T.__name__, v, D.__name__))
    ctx.sample(f'{T} {D}')


# ------------------------------------------------------------- trees --------
def m_strip(n):
    if n.kind in ('leaf', 'enum'):
        return n.U
    ts = [m_strip(c) for c in n.kids]
    if all(t is c.T for t, c in zip(ts, n.kids)):
        return n.U
    return make_type(n.kind, n.G, n.name, n.keys, ts)


class Dup(Exception): pass


def m_push(n, ms=()):
    ms = list(n.mods) + list(ms)
    if n.kind in ('leaf', 'enum'):
        if len(set(ms)) != len(ms):
            raise Dup
        return wrap_modifier(n.U, ms)
    ts = [m_push(c, ms) for c in n.kids]
    if all(t is c.T for t, c in zip(ts, n.kids)):
        return n.U
    return make_type(n.kind, n.G, n.name, n.keys, ts)


def leaves(n, ms=()):
    ms = list(n.mods) + list(ms)
    if not n.kids:
        return [(n, ms)]
    return [x for c in n.kids for x in leaves(c, ms)]


@group(900, 25000)
def strip(ctx, rng):
    n = tree(rng, 3, pl=.4, pn=.4, root=rng.random() > .1)
    before = struct(n.T)
    got, want = strip_modifiers(n.T), m_strip(n)
    ctx.check(got is want and struct(got) == struct(want), 'strip: wrong type', lambda: f'{n}: {got!r} {struct(got)}, expected {want!r} {struct(want)}')
    ctx.check(strip_modifiers(got) is got, 'strip: not idempotent', lambda: f'{n}: {got!r}')
    ctx.check(struct(n.T) == before, 'strip: the original type changed', lambda: f'{n}')
    ctx.ev((repr(n), repr(got)))
    ctx.sample(f'{n}')


@group(900, 25000)
def push(ctx, rng):
    n = tree(rng, 3, pl=.3, pn=.3, root=rng.random() > .1)
    before = struct(n.T)
    try:
        want = m_push(n)
    except Dup:
        ctx.raises(TypeError, lambda: push_modifiers(n.T), 'push: a modifier pushed twice to a leaf', lambda: f'{n}')
        ctx.ev(repr(n), 'twice')
        return
    got = push_modifiers(n.T)
    ctx.check(got is want and struct(got) == struct(want), 'push: wrong type', lambda: f'{n}: {got!r} {struct(got)}, expected {want!r} {struct(want)}')
    ctx.check(push_modifiers(got) is got or is_modified(n.T) and not n.kids, 'push: not idempotent', lambda: f'{n}: {got!r}')
    ctx.check(strip_modifiers(got) is strip_modifiers(n.T), 'push: stripped differently', lambda: f'{n}: {got!r}')
    again = push_modifiers(n.T)
    ctx.check(again is got, 'push: differs when repeated', lambda: f'{n}')
    ctx.check(struct(n.T) == before, 'push: the original type changed', lambda: f'{n}')
    for m, ms in leaves(n):
        ctx.ev((repr(m), tuple(x.__name__ for x in ms)))
    ctx.sample(f'{n}')


class WithMethod(Product):
    x = Bit
    y = BitVector[4]
    def total(self): return 7


@group(40, 400)
def methods(ctx, rng):
    M = rng.choice(MODS)
    for f in (strip_modifiers, push_modifiers):
        ctx.check(f(WithMethod) is WithMethod, f'{f.__name__}: a type without modifiers changed', WithMethod)
    ctx.check(strip_modifiers(M(WithMethod)) is WithMethod, 'strip_modifiers: more than the modifiers removed', M)
    T = Tuple[M(WithMethod), M(Bit)]
    ctx.check(strip_modifiers(T) is Tuple[WithMethod, Bit], 'strip_modifiers: more than the modifiers removed', T)
    ctx.ev(M.__name__)


@group(3, 12)
def crowd(ctx, rng):
    """many modifiers and thousands of modified types alive at once"""
    ms = [make_modifier(adtk.fresh('Crowd')) for _ in range(40)]
    named = {n: make_modifier(n, cache=True) for n in (adtk.fresh('Cached') for _ in range(300))}
    bases = [K[n] for K in (BitVector, SIntVector) for n in range(1, 31)] + [Tuple[BitVector[n], Bit] for n in range(1, 31)]
    live = {}
    for T in bases:
        for M in rng.sample(ms, 12):
            live[T, M] = M(T)
            L = rng.choice(ms)
            if L is not M:
                live[live[T, M], L] = L(live[T, M])
    ctx.eq(len(set(live.values())), len(live), 'different modified types are one', len(live))
    for (T, M), X in rng.sample(list(live.items()), len(live)):
        ctx.check(M(T) is X, 'a live modified type was replaced', (T, M))
        ctx.check(issubclass(X, T) and issubclass(X, M) and get_modifier(X) is M and get_unmodified(X) is T, 'modified type', (T, M))
        U, us = unwrap_modifier(X)
        ctx.check(wrap_modifier(U, us) is X and us[-1] is M and list(get_all_modifiers(X)) == us, 'unwrapping', (T, M))
        ctx.ev((T.__name__, M.__name__))
    for n, M in named.items():
        ctx.check(make_modifier(n, cache=True) is M and make_modifier(n) is not M, 'a live cached modifier was replaced', n)
    ctx.sample(f'{len(live)} modified types alive')
