import itertools
from hwtypes import Bit, SMTBit, SMTBitVector, SMTInt, z3Bit
from hwtypes.smt_utils import And, Or, Implies, FormulaConstructor
from .core import group
from .smteval import evaluate, symbols


def leaves(rng, k):
    """k leaf bits over k variables: variables, and terms over them"""
    vs = [SMTBit() for _ in range(k)]
    names = [v.value.symbol_name() for v in vs]
    envs = [dict(zip(names, p)) for p in itertools.product((False, True), repeat=k)]
    if len(envs) > 32:
        envs = rng.sample(envs, 32)
    return vs, envs


def build(rng, vs, depth):
    """(formula or bit, meaning env -> bool, leaf bits in order)"""
    r = rng.random()
    if depth == 0 or r < .15:
        q = rng.random()
        a = rng.choice(vs)
        if q < .6:
            v = a
        elif q < .75:
            v = ~a
        elif q < .9:
            v = a ^ rng.choice(vs)
        else:
            v = SMTBit(rng.getrandbits(1))
        node = v.value
        return v, lambda e: evaluate(node, e), [v]
    if r < .4:
        p, q = build(rng, vs, depth - 1), build(rng, vs, depth - 1)
        return Implies(p[0], q[0]), lambda e: (not p[1](e)) or q[1](e), p[2] + q[2]
    parts = [build(rng, vs, depth - 1) for _ in range(rng.choice((0, 1, 1, 2, 2, 3, 4, 7) if depth > 1 else (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 17, 22, 40)))]
    args = [p[0] for p in parts]
    C, f = rng.choice(((And, all), (Or, any)))
    form = C(rng.choice((args, tuple(args))))
    if rng.random() < .5:                       # the caller's list is its own
        rng.choice((args.clear, lambda: args.append(SMTBit(0)), lambda: args.append(SMTBit(1)), args.reverse))()
    return form, lambda e: f([p[1](e) for p in parts]), [x for p in parts for x in p[2]]


def check_form(ctx, form, meaning, ls, envs):
    nodes = [v.value for v in ls]
    b = form.to_hwtypes() if isinstance(form, FormulaConstructor) else form
    ctx.check(type(b) is SMTBit, 'type of a formula', type(b))
    for e in envs:
        got, want = evaluate(b.value, e), bool(meaning(e))
        ctx.check(got == want, 'meaning of a formula', lambda: f'{form.serialize() if isinstance(form, FormulaConstructor) else form}: {got} under {e}')
        ctx.ev((type(form).__name__, len(ls), want, tuple(e.values())))
    ctx.check(all(v.value is n for v, n in zip(ls, nodes)), 'building a formula altered a part')
    return b


@group(1500, 40000)
def formulas(ctx, rng):
    vs, envs = leaves(rng, rng.randint(1, 6))
    form, meaning, ls = build(rng, vs, rng.randint(1, 4))
    b = check_form(ctx, form, meaning, ls, envs)
    if isinstance(form, FormulaConstructor):
        text = form.serialize()
        again = check_form(ctx, form, meaning, ls, envs)
        ctx.check(form.serialize() == text, 'printing a formula changed it', text)
        for prefix, indent in (('', '|   '), ('>>', '  '), ('# ', '\t')):
            s = form.serialize(prefix, indent)
            pos = 0
            for v in ls:
                t = v.value.serialize()
                i = s.find(t, pos)
                ctx.check(i >= 0, 'printed form lacks a leaf', lambda: f'{t} not after {pos} in {s}')
                pos = i + len(t)
            ctx.ev((len(ls), len(s)), 'printed')
    ctx.sample(form.serialize().replace('\n', ' ')[:200] if isinstance(form, FormulaConstructor) else str(form))


@group(200, 2000)
def truth_tables(ctx, rng):
    """And/Or/Implies of 0..4 leaves, constants included"""
    for k in range(0, 5):
        for pat in itertools.product((0, 1), repeat=k):
            cs = [SMTBit(x) for x in pat]
            for C, f in ((And, all), (Or, any)):
                r = C(cs).to_hwtypes()
                ctx.check(type(r) is SMTBit and r.value.is_bool_constant() and r.value.constant_value() == f(pat),
                          f'{C.__name__} of constants', (pat, r))
                ctx.ev((C.__name__, pat))
    for p in (0, 1):
        for q in (0, 1):
            r = Implies(SMTBit(p), SMTBit(q)).to_hwtypes()
            ctx.check(r.value.constant_value() == (not p or bool(q)), 'Implies of constants', (p, q))
            ctx.ev(('Implies', p, q))
    ctx.sample('And/Or/Implies of up to four constants')


@group(40, 300)
def wide(ctx, rng):
    """each of many members decides alone"""
    for n in rng.sample(range(25), 6) + [rng.randint(25, 70)]:
        vs = [SMTBit() for _ in range(n)]
        names = [v.value.symbol_name() for v in vs]
        for C, neutral in ((And, True), (Or, False)):
            node = C(vs).to_hwtypes().value
            base = dict.fromkeys(names, neutral)
            ctx.check(evaluate(node, base) == neutral, f'{C.__name__} of many', n)
            for k in names:
                ctx.check(evaluate(node, {**base, k: not neutral}) != neutral, f'{C.__name__} of many: a member does not count', lambda: f'{names.index(k)} of {n}')
            ctx.ev((C.__name__, n))
        ctx.sample(f'And/Or of {n}')


@group(200, 2000)
def rejected(ctx, rng):
    x = SMTBit()
    for bad in (True, 0, 1, None, 'x', Bit(1), SMTBitVector[1](), SMTInt(), z3Bit(), x.value, [x], (x,), And):
        good = [x] * rng.randint(0, 3)
        for C in (And, Or):
            arg = list(good)
            arg.insert(rng.randint(0, len(arg)), bad)
            keep = list(arg)
            ctx.raises(ValueError, lambda: C(arg), 'bad member accepted', (C.__name__, type(bad).__name__))
            ctx.check(len(arg) == len(keep) and all(a is b for a, b in zip(arg, keep)), 'the list passed in was changed')
            ctx.ev((C.__name__, type(bad).__name__, len(good)))
        ctx.raises(ValueError, lambda: Implies(x, bad), 'bad member accepted', type(bad).__name__)
        ctx.raises(ValueError, lambda: Implies(bad, x), 'bad member accepted', type(bad).__name__)
        ctx.raises(ValueError, lambda: Implies(And([x]), bad), 'bad member accepted', type(bad).__name__)
    ctx.sample('members that are no bits')


@group(150, 2000)
def shared(ctx, rng):
    """one formula used as a part of several, lists edited afterwards"""
    vs, envs = leaves(rng, 4)
    base, meaning, ls = build(rng, vs, 2)
    args = [base, vs[0]]
    f, g = And(args), Or(args)
    args.append(SMTBit(0))
    args[0] = vs[1]
    h = Implies(f, g)
    for form, m in ((f, lambda e: meaning(e) and evaluate(vs[0].value, e)), (g, lambda e: meaning(e) or evaluate(vs[0].value, e)),
                    (h, lambda e: True)):
        check_form(ctx, form, m, ls, envs)
    check_form(ctx, base, meaning, ls, envs)
    ctx.sample('And/Or sharing an argument list edited afterwards')


@group(60, 900)
def lookalike_parts(ctx, rng):
    """parts that print alike where pysmt cuts them off"""
    vs, envs = leaves(rng, 5)
    steps = [rng.choice(vs[3:]) for _ in range(rng.randint(5, 12))]
    def deep(v):
        for o in steps:
            v = v ^ o
        return v
    bs = [deep(v) for v in vs[:3]]
    A, B, D = [(b, lambda e, b=b: evaluate(b.value, e)) for b in bs]
    both = lambda *ps: (And([p[0] for p in ps]), lambda e: all(p[1](e) for p in ps))
    some = lambda *ps: (Or([p[0] for p in ps]), lambda e: any(p[1](e) for p in ps))
    then = lambda p, q: (Implies(p[0], q[0]), lambda e: not p[1](e) or q[1](e))
    inv = lambda p: (~p[0], lambda e: not p[1](e))
    for C in (both, some):
        for form, meaning in (C(A, B, D), C(A, B), C(D, B, A), C(C(A), C(B), D), C(A, inv(B)), C(then(A, B), then(A, D)), C(both(A, B), some(B, D))):
            check_form(ctx, form, meaning, bs, envs)
    for p in (A, B, D):
        for q in (A, B, D):
            check_form(ctx, *then(p, q), bs, envs)
    for form, order in ((And(bs), bs), (Or([And(bs[:2]), bs[2]]), bs), (Implies(bs[2], Or([bs[0]])), (bs[2], bs[0]))):
        s, pos = form.serialize(), 0
        for v in order:
            t = v.value.serialize()
            i = s.find(t, pos)
            ctx.check(i >= 0, 'printed form lacks a deep leaf', lambda: f'{t} not after {pos} in {s}')
            pos = i + len(t)
        ctx.ev((len(s), len(steps)), 'printed')
    ctx.sample(f'formulas of {bs[0]}')
