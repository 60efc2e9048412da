from hwtypes import Bit, BitVector, SMTBit, SMTBitVector
from .core import group
from .symprog import *
from .smtbackend import Smt
from .smteval import evaluate, symbols


def build(ctx, rng, na=5, steps=(4, 14)):
    be = Smt(na)
    m = Machine(ctx, rng, be, na)
    m.divisions = False
    widths = [rng.randint(1, 6), rng.choice((8, 13, 32, 65))]
    m.inputs(rng.randint(3, 6) if rng.random() < .9 else rng.randint(7, 14), widths)
    m.vars = list(m.regs)
    for _ in range(rng.randint(*steps)):
        m.step()
    return be, m


def type_of(r):
    return type(r.conc[0])


def width_of(r):
    return 0 if type_of(r) is Bit else type_of(r).size


def replacement(rng, be, m, v):
    """an expression of v's sort: another variable, a constant, or a term"""
    same = [r for r in m.regs if width_of(r) == width_of(v)]
    r = rng.random()
    if r < .4:
        same = [r for r in m.vars if width_of(r) == width_of(v)]
    elif r < .6:
        w = width_of(v)
        c = value(rng, w) if w else rng.getrandbits(1)
        S = be.sized(type_of(v))
        return S(c), [c] * m.na, str(c)
    o = rng.choice(same)
    return o.sym, [conc_int(x) for x in o.conc], o.text


def envs_after(be, m, pairs):
    """the assignments in which the original expression must be read"""
    out = []
    for k in range(m.na):
        e = dict(be.envs[k])
        for v, (_, vals, _) in pairs:
            x = vals[k]
            e[v.sym.value.symbol_name()] = bool(x) if width_of(v) == 0 else x
        out.append(e)
    return out


@group(900, 20000)
def substitution(ctx, rng):
    be, m = build(ctx, rng)
    for _ in range(5):
        e = rng.choice(m.regs[len(m.vars) // 2:])
        vs = rng.sample(m.vars, rng.randint(0, len(m.vars)))
        pairs = [(v, replacement(rng, be, m, v)) for v in vs]
        node = e.sym.value
        S = SMTBit if width_of(e) == 0 else SMTBitVector[width_of(e)]
        args = [(v.sym, r[0]) for v, r in pairs]
        got = e.sym.substitute(*args)
        text = f'({e.text}).substitute({[(v.text, r[2]) for v, r in pairs]})'
        ctx.check(isinstance(got, S) and getattr(got, 'size', 0) == width_of(e), 'type of a substitution result',
                  f'{text}: {type(got)}')
        ctx.check(e.sym.value is node, 'substitution changed the expression', text)
        ctx.check(all(v.sym.value.symbol_name() in be.envs[0] for v, _ in pairs), 'substitution changed a variable', text)
        for k, env in enumerate(envs_after(be, m, pairs)):
            want = int(evaluate(node, env))
            val = int(evaluate(got.value, be.envs[k], be.memos[k]))
            ctx.check(val == want, 'value after substitution',
                      lambda: f'{text} = {got.value.serialize()[:300]} under {be.show(k)}: {val:#x}, expected {want:#x}')
            ctx.ev((len(pairs), S.__name__, want, len(symbols(node))))
        # pairs in another order mean the same
        rng.shuffle(args)
        again = e.sym.substitute(*args)
        ctx.check(all(evaluate(again.value, be.envs[k], be.memos[k]) == evaluate(got.value, be.envs[k], be.memos[k])
                      for k in range(m.na)), 'substitution depends on the order of pairs', text)
    ctx.sample(text)


@group(400, 8000)
def swaps(ctx, rng):
    """permutations of same-sort variables, simultaneous by definition"""
    na = 5
    be = Smt(na)
    m = Machine(ctx, rng, be, na)
    m.divisions = False
    w = width_like(rng, (1, 2, 5, 8, 33))
    K = rng.choice(list(be.KMAP))
    T = K[w] if rng.random() < .8 else Bit
    for i in range(rng.randint(2, 4)):
        vals = [value(rng, w) if T is not Bit else rng.getrandbits(1) for _ in range(na)]
        m.regs.append(Reg(be.var(T, vals), [T(v) for v in vals], f'v{i}'))
    m.vars = list(m.regs)
    for _ in range(rng.randint(3, 9)):
        m.step()
    perm = list(m.vars)
    rng.shuffle(perm)
    pairs = [(v, (p.sym, [conc_int(x) for x in p.conc], p.text)) for v, p in zip(m.vars, perm)]
    for e in m.regs:
        got = e.sym.substitute(*[(v.sym, r[0]) for v, r in pairs])
        for k, env in enumerate(envs_after(be, m, pairs)):
            want = int(evaluate(e.sym.value, env))
            ctx.eq(int(evaluate(got.value, be.envs[k])), want, 'value after swapping variables',
                   lambda: f'{e.sym.value.serialize()[:200]} with {[(v.text, r[2]) for v, r in pairs]}')
            ctx.ev((T.__name__, want))
        back = got.substitute(*[(r[0], v.sym) for v, r in pairs])
        for k in range(na):
            ctx.eq(int(evaluate(back.value, be.envs[k])), int(evaluate(e.sym.value, be.envs[k])), 'swapping back', e.text)
    ctx.sample(f'{[(v.text, r[2]) for v, r in pairs]} in {len(m.regs)} terms')


@group(300, 5000)
def chains(ctx, rng):
    """histories of substitutions down to constants"""
    be, m = build(ctx, rng, na=1)
    e = m.regs[-1]
    cur, node = e.sym, e.sym.value
    todo = list(m.vars)
    rng.shuffle(todo)
    while todo:
        k = rng.randint(1, len(todo))
        part, todo = todo[:k], todo[k:]
        cur = cur.substitute(*[(v.sym, be.sized(type_of(v))(conc_int(v.conc[0]))) for v in part])
        left = {v.sym.value.symbol_name() for v in todo}
        ctx.check(symbols(cur.value) <= left, 'a substituted variable is left over', lambda: f'{symbols(cur.value) - left}')
        ctx.eq(int(evaluate(cur.value, be.envs[0])), conc_int(e.conc[0]), 'value after partial assignment', e.text)
        ctx.ev((type_of(e).__name__, conc_int(e.conc[0])))
    ctx.check(cur.value.is_constant() and int(cur.value.constant_value()) == conc_int(e.conc[0]), 'full assignment is not a constant',
              lambda: f'{node.serialize()[:200]} -> {cur.value}')
    ctx.check(e.sym.value is node, 'substitution changed the expression', e.text)
    ctx.sample(f'{node.serialize()[:150]} -> {cur.value}')


@group(60, 900)
def lookalike_replacements(ctx, rng):
    """replacements and expressions that print alike, one after the other"""
    na = 4
    be = Smt(na)
    m = Machine(ctx, rng, be, na)
    T = rng.choice(list(be.KMAP))[rng.choice((1, 2, 8, 33))] if rng.random() < .7 else Bit
    ls, over = lookalikes(m, rng, T, rng.randint(4, 12), n=3)
    val = lambda: rng.getrandbits(1) if T is Bit else value(rng, T.size)
    vs = []
    for i in range(2):
        vals = [val() for _ in range(na)]
        vs.append(Reg(be.var(T, vals), [T(v) for v in vals], f'v{i}'))
    a, b = vs
    es = [a.sym ^ b.sym, PYOP['^' if T is Bit else '-'](a.sym, over[0].sym)]
    es += [PYOP['^' if T is Bit else '-'](x.sym, a.sym) for x in ls[:2]]
    for e in es:
        for x in ls:
            for args in ([(a, x)], [(a, x), (b, rng.choice(ls))], [(over[0], x)]):
                pairs = [(v, (r.sym, [conc_int(c) for c in r.conc], r.text)) for v, r in args]
                got = e.substitute(*[(v.sym, r.sym) for v, r in args])
                for k, env in enumerate(envs_after(be, m, pairs)):
                    want = int(evaluate(e.value, env))
                    ctx.eq(int(evaluate(got.value, be.envs[k], be.memos[k])), want, 'value after substituting a deep term',
                           lambda: f'{e.value} with {[(v.text, r.text) for v, r in args]}')
                    ctx.ev((T.__name__, len(args), want))
    ctx.sample(f'{es[0]} with terms that print as {str(ls[0].sym.value)[:120]}')
