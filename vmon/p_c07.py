from hwtypes import overflow, InconsistentSizeError
from hwtypes.bit_vector import overflow as overflow2
from .core import group
from .cbv import *


def adc(ctx, K, T, n, a, b, c, form):
    r = T(a).adc(T(b), form)
    ctx.check(isinstance(r, tuple) and len(r) == 2, 'adc result shape', repr(r))
    check_bv(ctx, r[0], T, (a + b + c) & mask(n), 'adc sum')
    check_bit(ctx, r[1], (a + b + c) >> n, 'adc carry', lambda: f'{T.__name__} {a:#x}+{b:#x}+{c}')
    ctx.ev((n, a, b, c), 'adc')


def ovf(ctx, T, n, a, b):
    A, B = T(a), T(b)
    s = sgn(n, a) + sgn(n, b)
    want = not -(1 << n - 1) <= s < (1 << n - 1)
    check_bit(ctx, overflow(A, B, A + B), want, 'overflow', lambda: f'{T.__name__} {a:#x}+{b:#x}')
    ctx.ev((n, a, b), 'overflow')


@group(24, 36)
def exhaustive(ctx, rng):
    K = KINDS[ctx.case % len(KINDS)]
    n = ctx.case // len(KINDS) + 1
    T = K[n]
    for a in range(1 << n):
        for b in range(1 << n):
            for c in (0, 1):
                adc(ctx, K, T, n, a, b, c, rng.choice((Bit(c), c, bool(c), K[1](c))))
            ovf(ctx, T, n, a, b)
    ctx.sample(f'{T.__name__}: all a, b, carry')


@group(4000, 80000)
def wide(ctx, rng):
    n = width(rng)
    K, T = pick_type(rng, n)
    a, b = pair(rng, n)
    c = rng.getrandbits(1)
    adc(ctx, K, T, n, a, b, c, rng.choice((Bit(c), c, bool(c), K[1](c), BitVector[1](c))))
    if rng.random() < .3:                  # plain second operand
        x = rng.choice((sgn(n, b), b))
        r = T(a).adc(x, Bit(c))
        check_bv(ctx, r[0], T, (a + b + c) & mask(n), 'adc sum with int')
        check_bit(ctx, r[1], (a + b + c) >> n, 'adc carry with int')
    ovf(ctx, T, n, a, b)
    ctx.sample(f'{T.__name__} {a:#x} + {b:#x} + {c}')


@group(500, 8000)
def limbs(ctx, rng):
    """wide addition and subtraction from chained limbs of differing widths"""
    K = rng.choice(KINDS)
    ws = [width_like(rng, (1, 2, 3, 4, 7, 8, 16, 32, 33, 64)) for _ in range(rng.randint(1, 10))]
    total = sum(ws)
    a, b = pair(rng, total)
    sub = rng.random() < .4
    c = Bit(1) if sub else Bit(rng.getrandbits(1))
    exact = a + ((~b & mask(total)) if sub else b) + int(c)
    out, pos = 0, 0
    for w in ws:
        x, y = K[w](a >> pos & mask(w)), K[w](b >> pos & mask(w))
        s, c = x.adc(~y if sub else y, c)
        out |= s.as_uint() << pos
        pos += w
        ctx.ev((w, x.as_uint(), y.as_uint()))
    ctx.eq(out, exact & mask(total), 'chained sum', f'{ws} {a:#x} {b:#x} sub={sub}')
    ctx.eq(int(c), exact >> total, 'final carry', f'{ws} {a:#x} {b:#x} sub={sub}')
    ctx.sample(f'{K.__name__} limbs {ws}')


@group(300, 4000)
def operands(ctx, rng):
    """one object twice, operands of other kinds and forms, wrong widths"""
    n = width(rng, hi=200)
    K, T = pick_type(rng, n)
    a, b = pair(rng, n)
    c = rng.getrandbits(1)
    x = T(a)
    r = x.adc(x, Bit(c))
    check_bv(ctx, r[0], T, (2 * a + c) & mask(n), 'adc with itself')
    check_bit(ctx, r[1], (2 * a + c) >> n, 'carry of adc with itself')
    _, TB = pick_type(rng, n)
    for form in (TB(b), [(b >> i) & 1 for i in range(n)], b - (1 << n), b + (5 << n)):
        r = x.adc(form, rng.choice((c, bool(c), [c], rng.choice(KINDS)[1](c), Bit(c))))
        check_bv(ctx, r[0], T, (a + b + c) & mask(n), 'adc with another form')
        check_bit(ctx, r[1], (a + b + c) >> n, 'carry of adc with another form')
        ctx.ev((n, a, b, c, type(form).__name__))
    for m in {n + 1, max(n - 1, 1), 2 * n} - {n}:
        ctx.raises(InconsistentSizeError, lambda: x.adc(K[m](b), Bit(c)), 'adc of another width', (T.__name__, m))
    for m in (2, n + 1):
        ctx.raises(InconsistentSizeError, lambda: x.adc(T(b), K[m](c)), 'carry of another width', (T.__name__, m))
    y = T(b)
    s = sgn(n, a) + sgn(n, b)
    for p, q in ((x, TB(b)), (x, y)):
        check_bit(ctx, overflow(p, q, x + y), not -(1 << n - 1) <= s < (1 << n - 1), 'overflow', f'{a:#x}+{b:#x}')
    s = 2 * sgn(n, a)
    check_bit(ctx, overflow(x, x, x + x), not -(1 << n - 1) <= s < (1 << n - 1), 'overflow of a doubling', f'{a:#x}')
    ctx.check(x.as_uint() == a and y.as_uint() == b, 'operand changed', T.__name__)
    ctx.sample(f'{T.__name__} {a:#x} + {b:#x} + {c}')


@group(200, 3000)
def counter(ctx, rng):
    """accumulate a stream with adc and flag every signed overflow"""
    n = width_like(rng, (2, 4, 8, 16, 32))
    K, T = pick_type(rng, n)
    acc, m, flags, want = T(0), 0, 0, 0
    for _ in range(30):
        x = value(rng, n)
        s = sgn(n, m) + sgn(n, x)
        want += not -(1 << n - 1) <= s < (1 << n - 1)
        new, co = acc.adc(T(x), Bit(0))
        check_bit(ctx, co, (m + x) >> n, 'carry in stream')
        flags += int(overflow(acc, T(x), new))
        acc, m = new, (m + x) & mask(n)
        check_bv(ctx, acc, T, m, 'running sum')
        ctx.eq(flags, want, 'overflow count', f'{T.__name__} at {m:#x} adding {x:#x}')
        ctx.ev((n, m, x))
    ctx.sample(f'{T.__name__} stream')
