import z3
from hwtypes import (Bit, BitVector, UIntVector, SIntVector, z3Bit, z3BitVector)
from hwtypes.z3_bit_vector import z3UIntVector, z3SIntVector
from .core import group, Violation
from .symprog import *
from .z3backend import Z3, Const, as_int


@group(600, 9000)
def programs(ctx, rng):
    run_program(ctx, rng, Z3(4), nassign=4)


@group(400, 6000)
def constants(ctx, rng):
    run_program(ctx, rng, Const(1), nassign=1)


@group(60, 1500)
def rotations(ctx, rng):
    """chains of rotations by symbolic amounts"""
    n = width_like(rng, (1, 2, 3, 5, 6, 7, 8, 9, 12, 31, 33))
    K = rng.choice(list(Z3.KMAP))
    be = Z3(6)
    m = Machine(ctx, rng, be, 6)
    T = K[n]
    for i in range(3):
        vals = [shift_amount(rng, n) if i else value(rng, n) for _ in range(6)]
        m.regs.append(Reg(be.var(T, vals), [T(v) for v in vals], f'v{i}'))
    cur = m.regs[0]
    for _ in range(rng.randint(2, 5)):
        op, b = rng.choice(('bvrol', 'bvror')), rng.choice(m.regs)
        m.apply(lambda x, y: getattr(x, op)(y), [cur, b], op, f'{cur.text}.{op}({b.text})')
        cur = m.regs[-1]
    ctx.sample(f'{T.__name__}: ' + '; '.join(m.trace))


@group(60, 500)
def narrow_exhaustive(ctx, rng):
    n = rng.choice((1, 2, 2))
    K = rng.choice(list(Z3.KMAP))
    pairs = [(a, b) for a in range(1 << n) for b in range(1 << n)]
    be = Z3(len(pairs))
    m = Machine(ctx, rng, be, len(pairs))
    T = K[n]
    A = Reg(be.var(T, [p[0] for p in pairs]), [T(p[0]) for p in pairs], 'a')
    B = Reg(be.var(T, [p[1] for p in pairs]), [T(p[1]) for p in pairs], 'b')
    m.regs = [A, B]
    for op in METHODS + CMPS + ['bvcomp', 'bvrol', 'bvror']:
        m.apply(lambda x, y: getattr(x, op)(y), [A, B], op, f'a.{op}(b)')
    for s in ARITH + REL:
        if s in ('//', '%') and issubclass(K, SIntVector):
            m.signed_div(A, B, s)
            m.signed_div(A, B, s, rng.randrange(1 << n))
        else:
            m.apply(PYOP[s], [A, B], s, f'a {s} b')
            c = rng.randrange(-(1 << n), 1 << n)
            m.apply(lambda x: PYOP[s](x, c), [A], f'{s} const', f'a {s} {c}')
    for op in ('bvsdiv', 'bvsrem'):
        m.signed_div(A, B, op)
    for k in range(0, 4):
        m.apply(lambda x: (x.zext(k), x.sext(k), x.ext(k)), [A], 'extend', f'a by {k}')
    m.apply(lambda x, y: x.adc(y, 1), [A, B], 'adc', 'a.adc(b, 1)')
    ctx.sample(f'{K.__name__}[{n}]: every operation on every pair')


@group(8, 150)
def lookalike_terms(ctx, rng):
    run_lookalikes(ctx, rng, Z3(3), 3, rng.choice((6, 12, 28)))


@group(100, 4000)
def derived_types(ctx, rng):
    run_derived(ctx, rng, Z3(4), 4)


@group(1, 1)
def recorded_findings(ctx, rng):
    be = Z3(3)
    m = Machine(ctx, rng, be, 3)
    T = SIntVector[4]
    A = Reg(be.var(T, [9, 9, 7]), [T(9), T(9), T(7)], 'a')      # -7, -7, 7
    B = Reg(be.var(T, [2, 0, 14]), [T(2), T(0), T(14)], 'b')    # 2, 0, -2
    m.signed_div(A, B, 'bvsdiv')
    m.signed_div(A, B, 'bvsrem')
    ctx.ev('recorded')
    ctx.sample('-7 // 2, -7 // 0, 7 // -2 and remainders')


@group(250, 5000)
def equivalence(ctx, rng):
    """decided for all values at once: the term equals the reference circuit"""
    n = width_like(rng, (1, 2, 3, 5, 8, 16, 33, 64))
    K = rng.choice(list(Z3.KMAP))
    T = Z3.KMAP[K][n]
    a, b = T(), T()
    x, y = a.value, b.value
    signed = issubclass(K, SIntVector)
    ops = [
        (a & b, x & y), (a | b, x | y), (a ^ b, x ^ y), (a + b, x + y), (a - b, x - y),
        (a.bvnand(b), ~(x & y)), (a.bvnor(b), ~(x | y)), (a.bvxnor(b), ~(x ^ y)),
        (a << b, x << y), (a >> b, x >> y if signed else z3.LShR(x, y)), (a.bvashr(b), x >> y), (a.bvlshr(b), z3.LShR(x, y)),
        (~a, ~x), (-a, -x),
        (a < b, x < y if signed else z3.ULT(x, y)), (a <= b, x <= y if signed else z3.ULE(x, y)),
        (a > b, x > y if signed else z3.UGT(x, y)), (a >= b, x >= y if signed else z3.UGE(x, y)),
        (a == b, x == y), (a != b, x != y), (a.bvult(b), z3.ULT(x, y)), (a.bvsle(b), x <= y),
    ]
    i = rng.randrange(len(ops))
    got, want = ops[i]
    s = z3.Solver()
    s.set('timeout', 20000)
    s.add(got.value != want)
    r = s.check()
    ctx.check(r == z3.unsat or r == z3.unknown, 'z3 term differs from the operation',
              lambda: f'operation {i} on {T.__name__}: {s.model() if r == z3.sat else r}')
    if r == z3.unsat:
        ctx.ev((i, T.__name__))
    ctx.sample(f'{T.__name__}: {str(want)[:60]} for all values')


@group(120, 2000)
def constructors(ctx, rng):
    n = width(rng, hi=200)
    K = rng.choice(list(Z3.KMAP))
    S = Z3.KMAP[K]
    for _ in range(4):
        v = value(rng, n)
        v = rng.choice((v, sgn(n, v), v + (1 << n), v - (1 << n), -v, rng.getrandbits(n + 9), -rng.getrandbits(n + 9)))
        want = v & mask(n)
        for arg in (v, IntLike(v), BitVector[n](v), SIntVector[n](v), [(want >> i) & 1 for i in range(n)],
                    tuple(bool((want >> i) & 1) for i in range(n))):
            r = S[n](arg)
            ctx.check(type(r) is S[n] and z3.is_bv_value(r.value) and r.value.as_long() == want and r.value.size() == n,
                      'constant', lambda: f'{S.__name__}[{n}]({arg!r}) = {r!r}')
            ctx.ev((n, want, type(arg).__name__))
        for r in (S.make_constant(v, n), S[n].make_constant(v)):
            ctx.check(type(r) is S[n] and r.value.as_long() == want, 'make_constant', (n, v))
        a = S[n](v)
        ctx.check(z3.eq(S[n](a).value, a.value) and a.size == n and len(a) == n and a.num_bits == n, 'copy', n)
    for b in (True, False, 0, 1, Bit(0), Bit(1)):
        r = z3Bit(b)
        ctx.check(as_int(r.value) == bool(b), 'bit constant', b)
        ctx.eq(as_int(S[n](z3Bit(b)).value), int(bool(b)), 'vector of constant bit')
    for bad in (2, -1):
        ctx.raises(ValueError, lambda: z3Bit(bad), 'bit of a bad value')
    w = n + rng.randint(1, 3)
    x, y = S[n](), rng.choice(list(Z3.KMAP.values()))[w]()
    for x, y in ((x, y), (y, x), (S[n](1), y), (x, S[w](1))):
        for op in METHODS + CMPS + ['bvcomp', 'bvsdiv', 'bvsrem']:
            ctx.raises(TypeError, lambda: getattr(x, op)(y), 'widths mixed', (op, n, w))
        for s in ARITH + REL:
            ctx.raises(TypeError, lambda: PYOP[s](x, y), 'widths mixed', (s, n, w))
        ctx.raises(TypeError, lambda: x.adc(y, 1), 'widths mixed', ('adc', n, w))
        for i in (x.size, -x.size - 1, x.size + rng.randint(1, 99)):
            ctx.raises(IndexError, lambda: x[i], 'index out of range', (x.size, i))
        for o in (1, None, True, [1, 0], BitVector[n](1)):
            ctx.raises(TypeError, lambda: x.concat(o), 'concat with something else', (n, o))
        for op in ('zext', 'sext', 'ext'):
            ctx.raises(ValueError, lambda: getattr(x, op)(-rng.randint(1, 3)), 'negative extension', (op, n))
    ctx.sample(f'{S.__name__}[{n}]')


@group(60, 800)
def strangers(ctx, rng):
    n = width(rng, hi=70)
    xs = [S[n]() for S in Z3.KMAP.values()] + [S[n](value(rng, n)) for S in Z3.KMAP.values()]
    run_strangers(ctx, rng, xs, ARITH, REL)
    ctx.sample(f'width {n}: {len(xs)} vectors with {len(STRANGERS)} operands of no use')
