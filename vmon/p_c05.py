from hwtypes import InconsistentSizeError
from .core import group
from .cbv import *


class IntLike:
    def __init__(self, v): self.v = v
    def __int__(self): return self.v
    def __repr__(self): return f'IntLike({self.v})'


def plain(rng, n):
    """(operand, pattern it denotes)"""
    b = value(rng, n)
    r = rng.randrange(8)
    if r == 0: return b, b
    if r == 1: return sgn(n, b), b
    if r == 2:
        x = b + (rng.choice((1, -1, 5)) << n)
        return x, b
    if r == 3:
        t = rng.random() < .5
        return t, int(t)
    if r == 4: return [(b >> i) & 1 for i in range(n)], b
    if r == 5:
        k = rng.randint(0, min(n, 9) + 2)
        return k, k & mask(n)
    if r == 6: return IntLike(b), b
    x = rng.choice((200, 7, 0, 1, -1, -7, 1 << n, mask(n)))
    return x, x & mask(n)


@group(4000, 80000)
def coercion(ctx, rng):
    n = width(rng, hi=300)
    K, T = pick_any(rng, n)
    a = value(rng, n)
    A = T(a)
    x, b = plain(rng, n)
    tag = type(x).__name__
    for sym, ops in INFIX.items():
        op = ops[signed(K)]
        for left in (True, False):
            try:
                r = PYOP[sym](A, x) if left else PYOP[sym](x, A)
            except Exception as e:
                ctx.check(False, f'{"vector" if left else tag} {sym} {tag if left else "vector"} raised',
                          f'{T.__name__}({a:#x}) {x!r}: {e!r}')
            want = binop(op, n, a, b) if left else binop(op, n, b, a)
            if type(r) is not T or r.as_uint() != want:
                ctx.check(False, f'vector {sym} {tag}' if left else f'{tag} {sym} vector',
                          f'{T.__name__}({a:#x}) and {x!r}: got {r!r}, expected {want:#x}')
            ctx.ev((sym, left, tag, n, a, b))
    for op in BIN:
        check_bv(ctx, getattr(A, op)(x), T, binop(op, n, a, b), f'{op} with {tag}')
    for op, f in CMP.items():
        check_bit(ctx, getattr(A, op)(x), f(n, a, b), f'{op} with {tag}', f'{T.__name__}({a:#x}) {x!r}')
    for sym, ops in INFIX_CMP.items():
        op = ops[signed(K)]
        check_bit(ctx, PYOP[sym](A, x), CMP[op](n, a, b), f'vector {sym} {tag}', f'{T.__name__}({a:#x}) {x!r}')
        check_bit(ctx, PYOP[sym](x, A), CMP[op](n, b, a), f'{tag} {sym} vector', f'{x!r} {T.__name__}({a:#x})')
    ctx.check(A.as_uint() == a, 'operand changed', T.__name__)
    ctx.sample(f'{T.__name__}({a:#x}) with {x!r}')


@group(300, 4000)
def with_bits(ctx, rng):
    n = width(rng, hi=100)
    K, T = pick_any(rng, n)
    a, b = value(rng, n), rng.getrandbits(1)
    A = T(a)
    for sym, ops in INFIX.items():
        want = binop(ops[signed(K)], n, a, b)
        r = PYOP[sym](A, Bit(b))
        check_bv(ctx, r, T, want, f'vector {sym} Bit')
        if sym in ('+', '-', '*', '<<', '>>', '//', '%'):
            check_bv(ctx, PYOP[sym](Bit(b), A), T, binop(ops[signed(K)], n, b, a), f'Bit {sym} vector')
        ctx.ev((sym, n, a, b))
    ctx.sample(f'{T.__name__}({a:#x}) with Bit({b})')


NAMED = list(BIN) + list(ROT) + list(CMP) + ['bvcomp']


@group(1000, 12000)
def width_mismatch(ctx, rng):
    n = width(rng, hi=200)
    m = rng.choice((n + 1, max(1, n - 1), 2 * n, width(rng, hi=200)))
    if n == m:
        m = n + 1
    K, TA = pick_any(rng, n)
    _, TB = pick_any(rng, m)
    A, B = TA(value(rng, n)), TB(value(rng, m))
    a, b = A.as_uint(), B.as_uint()
    for op in NAMED:
        ctx.raises(InconsistentSizeError, lambda: getattr(A, op)(B), f'{op} mixed widths', (TA, TB))
        ctx.ev((op, n, m))
    for sym in list(INFIX) + list(INFIX_CMP):
        ctx.raises(InconsistentSizeError, lambda: PYOP[sym](A, B), f'{sym} mixed widths', (TA, TB))
        ctx.ev((sym, n, m))
    ctx.raises(InconsistentSizeError, lambda: A.adc(B, Bit(0)), 'adc mixed widths', (TA, TB))
    if n > 1 and TA is K[n]:
        carry = rng.choice(KINDS)[rng.choice((n, 2))](rng.getrandbits(2))
        ctx.raises(InconsistentSizeError, lambda: A.adc(A, carry), 'adc with a wide carry', (TA, type(carry)))
    ctx.check(A.as_uint() == a and B.as_uint() == b, 'operand changed', '')
    ctx.check(issubclass(InconsistentSizeError, TypeError), 'InconsistentSizeError is a TypeError', '')
    ctx.sample(f'{TA.__name__} with {TB.__name__}')


@group(200, 2000)
def unconvertible(ctx, rng):
    n = width(rng, hi=64)
    K, T = pick_any(rng, n)
    A = T(value(rng, n))
    for bad in (None, object(), {}, {1}, len):
        for sym in INFIX:
            ctx.raises(TypeError, lambda: PYOP[sym](A, bad), f'vector {sym} non-value', (T, bad))
            if not (sym == '%' and isinstance(bad, str)):
                ctx.raises(TypeError, lambda: PYOP[sym](bad, A), f'non-value {sym} vector', (T, bad))
            ctx.ev((sym, type(bad).__name__))
        for sym in ('<', '<=', '>', '>='):
            ctx.raises(TypeError, lambda: PYOP[sym](A, bad), f'vector {sym} non-value', (T, bad))
            ctx.raises(TypeError, lambda: PYOP[sym](bad, A), f'non-value {sym} vector', (T, bad))
        ctx.check((A == bad) is False and (bad == A) is False, 'equal to a non-value', (T, bad))
        ctx.check((A != bad) is True and (bad != A) is True, 'not != a non-value', (T, bad))
        for op in NAMED:
            ctx.raises(TypeError, lambda: getattr(A, op)(bad), f'{op} non-value', (T, bad))
    ctx.sample(f'{T.__name__} against None, object, dict, set, function')


@group(200, 3000)
def deferring(ctx, rng):
    """a foreign operand type gets its reflected method, in the right order"""
    class Foreign:
        calls = []
        def __getattr__(self, name): raise AttributeError(name)
    def make(name):
        def f(self, other):
            Foreign.calls.append((name, other))
            return ('foreign', name)
        return f
    names = {'+': '__radd__', '-': '__rsub__', '*': '__rmul__', '&': '__rand__', '|': '__ror__',
             '^': '__rxor__', '<<': '__rlshift__', '>>': '__rrshift__', '//': '__rfloordiv__', '%': '__rmod__'}
    for sym, name in names.items():
        setattr(Foreign, name, make(name))
    n = width(rng, hi=64)
    K, T = pick_any(rng, n)
    A = T(value(rng, n))
    for sym, name in names.items():
        r = PYOP[sym](A, Foreign())
        ctx.eq(r, ('foreign', name), f'{sym} does not defer to a foreign operand', T)
        ctx.ev((sym, n, T.__name__))
    ctx.sample(f'{T.__name__} op Foreign()')


BITOPS = ('&', '|', '^', '==', '!=')


@group(150, 2000)
def bits_with_ints(ctx, rng):
    """a Bit and an int: 0 and 1 are bits, no other integer is"""
    for v in (0, 1):
        b = Bit(v)
        for x in (0, 1, True, False):
            for sym in BITOPS:
                want = {'&': v & x, '|': v | x, '^': v ^ x, '==': v == x, '!=': v != x}[sym]
                check_bit(ctx, PYOP[sym](b, x), want, f'Bit {sym} {x!r}', v)
                check_bit(ctx, PYOP[sym](x, b), want, f'{x!r} {sym} Bit', v)
                ctx.ev((sym, v, x))
        for x in (2, -1, 3, 255, 256, -2, value(rng, 70) + 2, -value(rng, 70) - 1):
            for sym in BITOPS:
                ctx.raises(ValueError, lambda: PYOP[sym](b, x), f'Bit {sym} an integer that is no bit', (v, x))
                ctx.raises(ValueError, lambda: PYOP[sym](x, b), f'an integer that is no bit {sym} Bit', (v, x))
                ctx.ev((sym, v, x))
            ctx.raises(ValueError, lambda: Bit(x), 'Bit built from an integer that is no bit', x)
        ctx.check(bool(b) is bool(v), 'operand changed', v)
    ctx.sample('Bit with 0, 1, 2, -1, ...')
