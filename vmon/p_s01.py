from hwtypes import (Bit, BitVector, UIntVector, SIntVector, SMTBit, SMTBitVector)
from hwtypes.smt_bit_vector import SMTUIntVector, SMTSIntVector
from hwtypes.bit_vector_abc import InconsistentSizeError
from .core import group, Violation
from .symprog import *
from .smtbackend import Smt, Const


@group(1400, 25000)
def programs(ctx, rng):
    run_program(ctx, rng, Smt(6))


@group(700, 10000)
def constants(ctx, rng):
    run_program(ctx, rng, Const(1), nassign=1)


@group(100, 2000)
def narrow_exhaustive(ctx, rng):
    """one operation on two variables, all values of a narrow width"""
    n = rng.choice((1, 2, 2, 3, 3))
    K = rng.choice(list(Smt.KMAP))
    pairs = [(a, b) for a in range(1 << n) for b in range(1 << n)]
    be = Smt(len(pairs))
    m = Machine(ctx, rng, be, len(pairs))
    T = K[n]
    A = Reg(be.var(T, [p[0] for p in pairs]), [T(p[0]) for p in pairs], 'a')
    B = Reg(be.var(T, [p[1] for p in pairs]), [T(p[1]) for p in pairs], 'b')
    m.regs = [A, B]
    for op in METHODS + CMPS + ['bvcomp']:
        m.apply(lambda x, y: getattr(x, op)(y), [A, B], op, f'a.{op}(b)')
    for s in ARITH + REL:
        if s in ('//', '%') and issubclass(K, SIntVector):
            m.signed_div(A, B, s)
            for c in range(1 << n):
                m.signed_div(A, B, s, c)
        else:
            m.apply(PYOP[s], [A, B], s, f'a {s} b')
            for c in range(-(1 << n), 1 << n):
                m.apply(lambda x: PYOP[s](c, x), [A], f'const {s}', f'{c} {s} a')
                m.apply(lambda x: PYOP[s](x, c), [A], f'{s} const', f'a {s} {c}')
    for op in ('bvsdiv', 'bvsrem'):
        m.signed_div(A, B, op)
    for k in range(0, 4):
        m.apply(lambda x: (x.zext(k), x.sext(k), x.ext(k), x.bvrol(k), x.bvror(k)), [A], 'extend/rotate', f'a by {k}')
    m.apply(lambda x, y: x.adc(y, 1), [A, B], 'adc', 'a.adc(b, 1)')
    ctx.sample(f'{K.__name__}[{n}]: every operation on every pair')


@group(40, 600)
def lookalike_terms(ctx, rng):
    run_lookalikes(ctx, rng, Smt(4), 4, rng.randint(4, 12))


@group(200, 4000)
def derived_types(ctx, rng):
    run_derived(ctx, rng, Smt(5), 5)


@group(1, 1)
def recorded_findings(ctx, rng):
    """the exact deviations recorded as K1 and K2"""
    be = Smt(3)
    m = Machine(ctx, rng, be, 3)
    T = SIntVector[4]
    A = Reg(be.var(T, [9, 9, 7]), [T(9), T(9), T(7)], 'a')      # -7, -7, 7
    B = Reg(be.var(T, [2, 0, 14]), [T(2), T(0), T(14)], 'b')    # 2, 0, -2
    m.signed_div(A, B, 'bvsdiv')
    m.signed_div(A, B, 'bvsrem')
    ctx.ev('recorded')
    ctx.sample('-7 // 2, -7 // 0, 7 // -2 and remainders')


@group(200, 3000)
def constructors(ctx, rng):
    """constants of every accepted kind reduce like the concrete ones"""
    n = width(rng, hi=200)
    K = rng.choice(list(Smt.KMAP))
    S = Smt.KMAP[K]
    for _ in range(6):
        v = value(rng, n)
        v = rng.choice((v, sgn(n, v), v + (1 << n), v - (1 << n), -v, rng.getrandbits(n + 9), -rng.getrandbits(n + 9)))
        want = v & mask(n)
        args = [v, IntLike(v), BitVector[n](v), SIntVector[n](v), [(want >> i) & 1 for i in range(n)],
                tuple(bool((want >> i) & 1) for i in range(n))]
        for arg in args:
            r = S[n](arg)
            ctx.check(type(r) is S[n] and r.value.is_bv_constant() and r.value.constant_value() == want
                      and r.value.bv_width() == n, 'constant', lambda: f'{S.__name__}[{n}]({arg!r}) = {r!r}')
            ctx.ev((n, want, type(arg).__name__))
        for r in (S.make_constant(v, n), S[n].make_constant(v)):
            ctx.check(type(r) is S[n] and r.value.constant_value() == want, 'make_constant', (n, v))
        a = S[n](v)
        ctx.check(S[n](a).value is a.value and a.size == n and len(a) == n and a.num_bits == n, 'copy', n)
    for b in (True, False, 0, 1, Bit(0), Bit(1)):
        r = SMTBit(b)
        ctx.check(r.value.is_bool_constant() and r.value.constant_value() == bool(b), 'bit constant', b)
        ctx.eq(S[n](SMTBit(b)).value.constant_value(), int(bool(b)), 'vector of constant bit')
    for bad in (2, -1):
        ctx.raises(ValueError, lambda: SMTBit(bad), 'bit of a bad value')
    w = n + rng.randint(1, 3)
    x, y = S[n](), rng.choice(list(Smt.KMAP.values()))[w]()
    for x, y in ((x, y), (y, x), (S[n](1), y), (x, S[w](1))):
        for op in METHODS + CMPS + ['bvcomp', 'bvsdiv', 'bvsrem']:
            ctx.raises(InconsistentSizeError, lambda: getattr(x, op)(y), 'widths mixed', (op, n, w))
        for s in ARITH + REL:
            ctx.raises(InconsistentSizeError, lambda: PYOP[s](x, y), 'widths mixed', (s, n, w))
        ctx.raises(InconsistentSizeError, lambda: x.adc(y, 1), 'widths mixed', ('adc', n, w))
        for i in (x.size, -x.size - 1, x.size + rng.randint(1, 99)):
            ctx.raises(IndexError, lambda: x[i], 'index out of range', (x.size, i))
        for o in (1, None, True, [1, 0], BitVector[n](1)):
            ctx.raises(TypeError, lambda: x.concat(o), 'concat with something else', (n, o))
        for op in ('zext', 'sext', 'ext'):
            ctx.raises(ValueError, lambda: getattr(x, op)(-rng.randint(1, 3)), 'negative extension', (op, n))
    ctx.sample(f'{S.__name__}[{n}]')


@group(60, 800)
def strangers(ctx, rng):
    n = width(rng, hi=70)
    xs = [S[n]() for S in Smt.KMAP.values()] + [S[n](value(rng, n)) for S in Smt.KMAP.values()]
    run_strangers(ctx, rng, xs, ARITH, REL)
    ctx.sample(f'width {n}: {len(xs)} vectors with {len(STRANGERS)} operands of no use')
