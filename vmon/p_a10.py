import gc
import warnings
from hwtypes import Bit, BitVector
from hwtypes.adt import Enum, Product, Tuple, Sum, new_instruction
from .core import group
from . import adtk

NAMES = adtk.ENAMES + ('e0', 'e1', 'MAX', 'MIN', 'value1', 'T', 'Enum', 'self', 'cls', 'name', 'value', '_name', 'mro')


def members(rng, k=None):
    k = k or (rng.randint(1, 8) if rng.random() < .96 else rng.randint(9, 40))
    names = rng.sample(NAMES + tuple(f'm{i}' for i in range(40)) if k > 8 else NAMES, k)
    auto = lambda: new_instruction()
    vals = [auto() if rng.random() < .35 else rng.choice((0, 1, 2, 3, -1, 7, 10 ** 20, True)) if k < 9 or rng.random() < .5 else rng.randint(-50, 50) for _ in names]
    return names, vals


def make(rng, names, vals, base=Enum, name=None, how=None):
    name = name or adtk.fresh('E')
    ns = dict(zip(names, vals))
    if base is Enum and (how == 'from_fields' or how is None and rng.random() < .4):
        return Enum.from_fields(name, ns)
    return adtk.mk_class(base, name, ns)


def is_auto(v):
    return not isinstance(v, int)


def unreachable(ctx, E, e, n, what):
    if n in ('name', 'value'):                  # the member's own name or value
        ctx.check(not isinstance(getattr(e, n), Enum), what, lambda: f'{E} {e}.{n}')
    else:
        ctx.raises(AttributeError, lambda: getattr(e, n), what, lambda: f'{E} {e}.{n}')


def check_enum(ctx, E, names, vals, base=Enum):
    es = [getattr(E, n) for n in names]
    for i, (n, e) in enumerate(zip(names, es)):
        ctx.check(type(e) is E and isinstance(e, base) and isinstance(e, Enum), 'type of a member', (E, n, type(e)))
        ctx.check(e.name == n, 'name of a member', (E, n, e.name))
        ctx.check(getattr(E, n) is e, 'member not constant', (E, n))
        ctx.check(E(e) is e, 'an enum applied to its own member', (E, n))
        for j, (p, f) in enumerate(zip(names, es)):
            want = i == j or (not is_auto(vals[i]) and not is_auto(vals[j]) and vals[i] == vals[j])
            ctx.check(bool(e == f) == want and bool(e != f) == (not want), 'equality of members',
                      lambda: f'{E} {n}={vals[i]} {p}={vals[j]}: == {e == f}, != {e != f}')
            if want:
                ctx.check(hash(e) == hash(f), 'equal members hash differently', lambda: f'{E} {n} {p}')
            ctx.check((e is f) == (i == j), 'identity of members', lambda: f'{E} {n} {p}')
            unreachable(ctx, E, e, p, 'member reached through a member')
            ctx.ev((n, p, want))
    ctx.check(len({id(e) for e in es}) == len(names), 'members are one object')
    ctx.check(list(E.field_dict) == list(names) and all(E.field_dict[n] is e for n, e in zip(names, es)), 'field_dict of an enum', (E, dict(E.field_dict)))
    ctx.check(len(E.fields) == len(names) and all(a is b for a, b in zip(E.fields, es)), 'fields of an enum', (E, E.fields))
    for f in (lambda: E.field_dict.__setitem__(names[0], es[-1]), lambda: E.field_dict.__delitem__(names[0]), lambda: E.field_dict.clear(),
              lambda: E.field_dict.update(zz=es[0]), lambda: E.fields.__setitem__(0, es[-1]), lambda: E.fields.clear()):
        ctx.raises((TypeError, AttributeError), f, 'members changed through a view', E)
    ctx.check(list(E.field_dict) == list(names) and all(E.field_dict[n] is e for n, e in zip(names, es)), 'field_dict of an enum after a write', (E, dict(E.field_dict)))
    got = list(E.enumerate())
    ctx.check(len(got) == len(names) and {id(e) for e in got} == {id(e) for e in es}, 'enumerated members', (E, got))
    return es


@group(1200, 30000)
def single(ctx, rng):
    names, vals = members(rng)
    E = make(rng, names, vals)
    es = check_enum(ctx, E, names, vals)
    for v in list(vals) + names + [0, 1, 99, None, E, Bit(0), object()]:
        if not any(v is e for e in es):
            ctx.raises((TypeError, ValueError), lambda: E(v), 'enum built by value', (E, v))
    for args in ((), (0, 1), (es[0], es[0])):
        ctx.raises((TypeError, ValueError), lambda: E(*args), 'enum built by value', (E, args))
    ctx.raises((TypeError, ValueError), lambda: E(value=0), 'enum built by value', E)
    for o in (0, 1, None, names[0], vals[0], Bit(0), (0,), object()):
        ctx.check((es[0] == o) is False and (es[0] != o) is True, 'member equal to a foreign value', (E, es[0], o))
    ctx.sample(f'{names} = {vals}')


@group(600, 15000)
def several(ctx, rng):
    """members of different types with the same names and values"""
    names, vals = members(rng)
    Es = [make(rng, names, vals) for _ in range(3)]
    Es += [adtk.mk_class(Enum, E.__name__, dict(zip(names, vals)), cache=False) for E in Es[:2]]
    if rng.random() < .5:
        Es.append(make(rng, names, vals, how='from_fields'))
    groups = [check_enum(ctx, E, names, vals) for E in Es]
    ns = names[::-1]
    vs = [v + 1 if isinstance(v, int) else new_instruction() for v in vals]
    Es.append(adtk.mk_class(Enum, Es[0].__name__, dict(zip(ns, vs)), cache=False))
    groups.append(check_enum(ctx, Es[-1], ns, vs))
    for i, es in enumerate(groups):
        for j, fs in enumerate(groups):
            if i == j:
                continue
            for e in es:
                for f in fs:
                    ctx.check((e == f) is False and (e != f) is True, 'members of different enums are equal', lambda: f'{e!r} {f!r}')
                    ctx.raises((TypeError, ValueError), lambda: Es[i](f), 'foreign member accepted', (Es[i], f))
                    ctx.ev((e.name, f.name, i, j))
    d = {e: (i, e.name) for i, es in enumerate(groups) for e in es}
    for i, es in enumerate(groups):
        for e in es:
            k, n = d[e]
            ctx.check(k == i and bool(getattr(Es[k], n) == e), 'lookup of a member', lambda: f'{e!r}: {k, n}')
    ctx.sample(f'{len(Es)} enums with {names} = {vals}')


@group(600, 15000)
def inherited(ctx, rng):
    """sub-enums: own members only"""
    names, vals = members(rng, rng.randint(1, 4))
    E = make(rng, names, vals)
    es = check_enum(ctx, E, names, vals)
    rest = [n for n in NAMES if n not in names]
    sub = rng.sample(rest, rng.randint(1, 4)) + ([rng.choice(names)] if rng.random() < .3 else [])
    sv = [new_instruction() if rng.random() < .3 else rng.choice([v for v in vals if not is_auto(v)] + [0, 1, 5]) for _ in sub]
    F = make(rng, sub, sv, base=E)
    fs = check_enum(ctx, F, sub, sv, base=E)
    ctx.check(issubclass(F, E), 'sub-enum is no subclass')
    for e in es:
        for f in fs:
            ctx.check((e == f) is False and (f == e) is False and (e != f) is True and (f != e) is True, 'members of an enum and its sub-enum are equal', lambda: f'{e!r} {f!r}')
            ctx.ev((e.name, f.name))
        for n in sub:
            if n not in names:
                unreachable(ctx, E, e, n, 'member of a sub-enum reached through a member')
        ctx.raises((TypeError, ValueError), lambda: F(e), "a base enum's member accepted by the sub-enum", (F, e))
    for f in fs:
        for n in names:
            unreachable(ctx, F, f, n, 'inherited member reached through a member')
    check_enum(ctx, E, names, vals)                     # the base is unchanged
    O = make(rng, ['q1'], [0], base=Enum)
    ctx.raises(TypeError, lambda: adtk.mk_class(E, adtk.fresh('Two'), {'zz': 1}) and type(E)(adtk.fresh('Two'), (E, O), {'zz': 1}), 'inheriting from two enums accepted')
    ctx.sample(f'{names} <- {sub}')


@group(400, 8000)
def with_methods(ctx, rng):
    """methods and properties beside the members"""
    names, vals = members(rng, rng.randint(1, 4))
    ns = dict(zip(names, vals))
    ns['describe_'] = lambda self: (self.name, 'ok')
    ns['label_'] = property(lambda self: self.name.upper())
    ns['__str__'] = lambda self: f'<{self.name}>'
    E = adtk.mk_class(Enum, adtk.fresh('M'), ns)
    es = check_enum(ctx, E, names, vals)
    for e in es:
        ctx.check(e.describe_() == (e.name, 'ok') and e.label_ == e.name.upper() and str(e) == f'<{e.name}>', 'methods of a member', (E, e))
        ctx.ev((e.name, e.label_))
    ctx.sample(f'{names} with methods')


@group(300, 5000)
def in_values(ctx, rng):
    """members as fields keep identity and hash"""
    names, vals = members(rng, rng.randint(2, 5))
    E = make(rng, names, vals)
    T = Tuple[E, E]
    for i, a in enumerate(names):
        for j, b in enumerate(names):
            t = T(getattr(E, a), getattr(E, b))
            ctx.check(t[0] is getattr(E, a) and t[1] is getattr(E, b), 'member in a tuple', t)
            u = T(getattr(E, a), getattr(E, b))
            ctx.check(t == u and hash(t) == hash(u), 'tuples of members', (t, u))
            ctx.ev((a, b))
    fresh = [new_instruction() for _ in range(5)]
    G = make(rng, [f'm{i}' for i in range(5)], fresh)
    gs = [getattr(G, f'm{i}') for i in range(5)]
    ctx.check(len(set(gs)) == 5, 'automatic values coincide', gs)
    gc.collect()
    ctx.check(all(getattr(G, f'm{i}') is g for i, g in enumerate(gs)), 'member not constant', G)
    ctx.sample(f'Tuple of {names}')
