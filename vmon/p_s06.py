import operator
from hwtypes import Bit, BitVector, SMTBit, SMTBitVector, SMTInt
from hwtypes.smt_bit_vector import SMTUIntVector, SMTSIntVector
from .core import group
from .symprog import AUG, value, width, width_like, sgn, mask, IntLike
from .smteval import evaluate
from .smtbackend import SWord, SDelta

NA = 6
ARITH = {'+': operator.add, '-': operator.sub, '*': operator.mul, '//': operator.floordiv}
REL = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge, '==': operator.eq, '!=': operator.ne}
VK = (SMTBitVector, SMTUIntVector, SMTSIntVector, SWord, SDelta)


def integer(rng):
    r = rng.random()
    if r < .5:
        return rng.randint(-9, 9)
    if r < .8:
        return rng.choice((1, -1)) * (1 << rng.randint(0, 70)) + rng.randint(-2, 2)
    return rng.randint(-10 ** 20, 10 ** 20)


class Env:
    def __init__(self, rng):
        self.rng = rng
        self.envs = [{} for _ in range(NA)]
        self.memos = [{} for _ in range(NA)]
        self.keep = []

    def ev(self, v, k):
        return evaluate(v.value, self.envs[k], self.memos[k])

    def bind(self, v, vals):
        self.keep.append(v)
        for e, x in zip(self.envs, vals):
            e[v.value.symbol_name()] = x
        return v

    def var(self):
        vals = [integer(self.rng) for _ in range(NA)]
        return self.bind(SMTInt(), vals), vals

    def bv(self, n):
        vals = [value(self.rng, n) for _ in range(NA)]
        return self.bind(self.rng.choice(VK)[n](), vals), vals


def check(ctx, env, r, want, what, T=SMTInt):
    ctx.check(type(r) is T, f'type of {what[0]}', lambda: f'{what}: {type(r)}')
    for k in range(NA):
        got = env.ev(r, k)
        ok = got == want[k]
        if not ok:
            ctx.check(False, f'value of {what[0]}', f'{what[1]}: got {got}, expected {want[k]} under {env.envs[k]}')
        ctx.ev((what[0], want[k]))


@group(1200, 25000)
def programs(ctx, rng):
    env = Env(rng)
    regs = [env.var() + (f'x{i}',) for i in range(rng.randint(2, 3))]
    c = integer(rng)
    regs.append((SMTInt(rng.choice((c, IntLike(c)))), [c] * NA, str(c)))
    check(ctx, env, regs[-1][0], [c] * NA, ('constant', c))
    if rng.random() < .6:
        n = width(rng, hi=70)
        v, vals = env.bv(n)
        regs.append((v.as_uint(), vals, 'uint(v)'))
        regs.append((v.as_sint(), [sgn(n, x) for x in vals], 'sint(v)'))
        regs.append((SMTInt(v), vals, 'int(v)'))
        if rng.random() < .5:
            d = value(rng, n)
            w = v + d
            regs.append((w.as_sint(), [sgn(n, (x + d) & mask(n)) for x in vals], f'sint(v + {d})'))
    for r in regs:
        check(ctx, env, r[0], r[1], ('input', r[2]))
    for step in range(rng.randint(4, 12)):
        a, av, at = rng.choice(regs)
        r = rng.random()
        if r < .1:
            check(ctx, env, -a, [-x for x in av], ('negation', f'-{at}'))
            regs.append((-a, [-x for x in av], f'(-{at})'))
            continue
        op = rng.choice(list(ARITH)) if r < .65 else rng.choice(list(REL))
        f = ARITH.get(op) or REL[op]
        if op in ARITH and rng.random() < .25:
            f = AUG[op]                         # augmented assignment
        c = rng.choice((integer(rng), rng.choice(av), True, False))
        q = rng.random()
        if q < .5:
            b, bv, bt = rng.choice(regs)
            if op == '//' and 0 in bv:
                continue
            sym, want, t = f(a, b), [f(x, y) for x, y in zip(av, bv)], f'({at} {op} {bt})'
        elif q < .75:
            if op == '//' and c == 0:
                continue
            sym, want, t = f(a, c), [f(x, c) for x in av], f'({at} {op} {c})'
        else:
            if op == '//' and 0 in av:
                continue
            sym, want, t = f(c, a), [f(c, x) for x in av], f'({c} {op} {at})'
        check(ctx, env, sym, want, (op, t), SMTInt if op in ARITH else SMTBit)
        if op in ARITH and max(map(abs, want)) < 1 << 400:
            regs.append((sym, want, t))
    ctx.sample(f'{regs[-1][2]}')


@group(300, 6000)
def divisions(ctx, rng):
    env = Env(rng)
    x, xv = env.var()
    dv = [integer(rng) or 3 for _ in range(NA)]
    d = env.bind(SMTInt(), dv)
    c = integer(rng) or -7
    check(ctx, env, x // d, [a // b for a, b in zip(xv, dv)], ('x // d', 'x // d'))
    check(ctx, env, x // c, [a // c for a in xv], ('x // const', f'x // {c}'))
    check(ctx, env, c // d, [c // b for b in dv], ('const // d', f'{c} // d'))
    check(ctx, env, SMTInt(c) // d, [c // b for b in dv], ('const // d', f'SMTInt({c}) // d'))
    for _ in range(4):
        a, b = integer(rng), integer(rng) or -2
        check(ctx, env, SMTInt(a) // b, [a // b] * NA, ('const // const', f'{a} // {b}'))
        check(ctx, env, a // SMTInt(b), [a // b] * NA, ('const // const', f'{a} // {b}'))
    q = x // d
    check(ctx, env, x - q * d, [a % b for a, b in zip(xv, dv)], ('x - x // d * d', 'remainder'))
    ctx.sample(f'x // {c} for x in {xv[:3]}')


@group(400, 8000)
def readings(ctx, rng):
    """signed and unsigned readings of vectors, and of terms over them"""
    env = Env(rng)
    n = width(rng, hi=130)
    v, vals = env.bv(n)
    check(ctx, env, v.as_uint(), vals, ('as_uint', f'width {n}'))
    check(ctx, env, v.as_sint(), [sgn(n, x) for x in vals], ('as_sint', f'width {n}'))
    w, wv = type(v)(), [value(rng, n) for _ in range(NA)]
    env.bind(w, wv)
    s, sv = v + w, [(a + b) & mask(n) for a, b in zip(vals, wv)]
    check(ctx, env, s.as_uint(), sv, ('as_uint', f'sum, width {n}'))
    check(ctx, env, s.as_sint(), [sgn(n, x) for x in sv], ('as_sint', f'sum, width {n}'))
    c = value(rng, n)
    k = rng.choice(VK)[n](c)
    check(ctx, env, k.as_uint(), [c] * NA, ('as_uint', f'constant {c}, width {n}'))
    check(ctx, env, k.as_sint(), [sgn(n, c)] * NA, ('as_sint', f'constant {c}, width {n}'))
    check(ctx, env, v.as_uint() + w.as_uint() >= 1 << n, [a + b >= 1 << n for a, b in zip(vals, wv)],
          ('carry', f'width {n}'), SMTBit)
    check(ctx, env, v.as_sint() < w.as_sint(), [sgn(n, a) < sgn(n, b) for a, b in zip(vals, wv)],
          ('signed order', f'width {n}'), SMTBit)
    check(ctx, env, v.bvslt(w) == (v.as_sint() < w.as_sint()), [1] * NA, ('agreement of orders', f'width {n}'), SMTBit)
    e = v.sext(2)
    check(ctx, env, e.as_sint(), [sgn(n, x) for x in vals], ('as_sint', f'sign extended from {n}'))
    ctx.sample(f'{type(v).__name__}: {[hex(x) for x in vals[:3]]}')


@group(30, 300)
def narrow(ctx, rng):
    """every value of narrow vectors"""
    n = 1 + ctx.case % 6
    K = rng.choice(VK)
    v = K[n]()
    name = v.value.symbol_name()
    u, s = v.as_uint(), v.as_sint()
    for a in range(1 << n):
        ctx.eq(evaluate(u.value, {name: a}), a, 'as_uint', (K.__name__, n))
        ctx.eq(evaluate(s.value, {name: a}), sgn(n, a), 'as_sint', (K.__name__, n, a))
        ctx.eq(int(K[n](a).as_sint().value.constant_value()), sgn(n, a), 'as_sint of a constant', (n, a))
        ctx.ev((K.__name__, n, a))
    ctx.sample(f'{K.__name__}[{n}]')


@group(60, 900)
def lookalike_terms(ctx, rng):
    """terms that print alike"""
    env = Env(rng)
    over = [env.var() for _ in range(3)]
    steps = [(rng.choice('-+'), rng.randrange(3)) for _ in range(rng.randint(5, 12))]
    ls = []
    for i in range(2):
        v, vals = env.var()
        for s, o in steps:
            v, vals = ARITH[s](over[o][0], v), [ARITH[s](over[o][1][k], x) for k, x in enumerate(vals)]
        ls.append((v, vals))
    n = width_like(rng, (1, 4, 9, 33))
    vo, vov = env.bv(n)
    for i in range(2):
        v, vals = env.bv(n)
        for s, o in steps:
            v, vals = type(v)(vo) - v, [(y - x) & mask(n) for x, y in zip(vals, vov)]
        for r, f in ((v.as_uint(), lambda x: x), (v.as_sint(), lambda x: sgn(n, x)), (SMTInt(v), lambda x: x)):
            check(ctx, env, r, [f(x) for x in vals], ('reading of a deep term', ''))
            ls.append((r, [f(x) for x in vals]))
    c = integer(rng) or 1
    for a, av in ls:
        check(ctx, env, a, av, ('deep term', ''))
        check(ctx, env, -a, [-x for x in av], ('deep -', ''))
        for s, f in ARITH.items():
            check(ctx, env, f(a, c), [f(x, c) for x in av], (f'deep {s}', f'{s} {c}'))
        for b, bv in ls:
            for s in '+-*':
                check(ctx, env, ARITH[s](a, b), [ARITH[s](x, y) for x, y in zip(av, bv)], (f'deep {s}', ''))
            for s, f in REL.items():
                check(ctx, env, f(a, b), [f(x, y) for x, y in zip(av, bv)], (f'deep {s}', ''), SMTBit)
    ctx.sample(f'{ls[0][0]}')


@group(150, 3000)
def readings_after_writes(ctx, rng):
    """readings taken between writes to the vector"""
    env = Env(rng)
    n = width(rng, hi=40)
    v, vals = env.bv(n)
    k = rng.choice(VK)[n](value(rng, n))
    kv = [env.ev(k, 0)] * NA
    cells = [(v, vals), (k, kv), (type(v)(v) + type(v)(k), [(a + b) & mask(n) for a, b in zip(vals, kv)])]
    kept = []
    for step in range(rng.randint(3, 8)):
        j = rng.randrange(3)
        x, xv = cells[j]
        u, s, t = x.as_uint(), x.as_sint(), SMTInt(x)
        for r, f in ((u, lambda a: a), (s, lambda a: sgn(n, a)), (t, lambda a: a)):
            want = [f(a) for a in xv]
            check(ctx, env, r, want, ('reading between writes', f'step {step}, width {n}'))
            kept.append((r, want))
        i = rng.randrange(-n, n)
        b, bv = rng.choice(((True, [1] * NA), (0, [0] * NA), (x.bvslt(k), None), (~x[i], None)))
        if bv is None:
            bv = [env.ev(b, q) for q in range(NA)]
        x[i] = b
        p = i % n
        cells[j] = x, [a & ~(1 << p) | bool(c) << p for a, c in zip(xv, bv)]
    for x, xv in cells:
        check(ctx, env, x.as_uint(), xv, ('reading after writes', f'width {n}'))
        check(ctx, env, x.as_sint(), [sgn(n, a) for a in xv], ('reading after writes', f'width {n}'))
    for r, want in kept:
        check(ctx, env, r, want, ('reading taken before a write', f'width {n}'))
    ctx.sample(f'width {n}')


@group(60, 800)
def strangers(ctx, rng):
    """operands that are no numbers: an error, and == False, never a symbolic result"""
    import operator as o
    for x in (SMTInt(), SMTInt(integer(rng)), SMTInt() + integer(rng)):
        for y in (None, object(), {}, 'x', b'x', [1], (0,), Ellipsis):
            for f in (o.add, o.sub, o.mul, o.floordiv, o.lt, o.le, o.gt, o.ge):
                if f is o.mul and isinstance(y, (str, bytes, list, tuple)):
                    continue
                ctx.raises(TypeError, lambda: f(x, y), 'operand of no use', lambda: f'{f.__name__} of SMTInt and {y!r}')
                ctx.raises(TypeError, lambda: f(y, x), 'operand of no use', lambda: f'{f.__name__} of {y!r} and SMTInt')
            for a, b in ((x, y), (y, x)):
                for f in (o.eq, o.ne):
                    try:
                        r = f(a, b)
                    except TypeError:
                        continue
                    ctx.check(r is (f is o.ne), 'compared with something of no use', lambda: f'{f.__name__}({a!r}, {b!r}) gave {r!r}')
            ctx.ev((type(y).__name__, 'stranger'))
    ctx.sample('SMTInt with operands of no use')
