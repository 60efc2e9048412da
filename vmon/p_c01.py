import hashlib
import zlib

from .core import group
from .cbv import *


def one(ctx, K, T, n, a, b, kinds=None):
    A, B = T(a), T(b)
    for op in BIN:
        want = binop(op, n, a, b)
        r = getattr(A, op)(B)
        w = f'{op} a={a:#x} b={b:#x}'
        check_bv(ctx, r, T, want, op) if r.as_uint() != want or type(r) is not T else None
        ctx.check(r is not A and r is not B, f'{op}: result is an operand object', w)
        ctx.ev((op, n, a, b), 'method')
    for sym, (u, s) in INFIX.items():
        op = s if signed(K) else u
        want = binop(op, n, a, b)
        r = PYOP[sym](A, B)
        if type(r) is not T or r.as_uint() != want:
            ctx.check(False, f'infix {sym} on {"signed" if signed(K) else "unsigned"}',
                      f'{T.__name__} {a:#x} {sym} {b:#x}: got {r!r}, expected {want:#x}')
        ctx.ev((sym, n, a, b), 'infix')
    for op, f in UN.items():
        check_bv(ctx, getattr(A, op)(), T, f(n, a) & mask(n), op)
    check_bv(ctx, ~A, T, ~a & mask(n), '~')
    check_bv(ctx, -A, T, -a & mask(n), 'unary -')
    ctx.check(A.as_uint() == a and B.as_uint() == b, 'operand changed',
              f'{T.__name__} {a:#x} {b:#x}')


@group(18, 30)
def exhaustive(ctx, rng):
    i = ctx.case
    K = KINDS[i % len(KINDS)]
    n = i // len(KINDS) + 1                       # quick: widths 1..3, thorough 1..5
    T = K[n]
    for a in range(1 << n):
        for b in range(1 << n):
            one(ctx, K, T, n, a, b)
    ctx.sample(f'{T.__name__}: all {1 << 2 * n} operand pairs')


@group(900, 40000)
def wide(ctx, rng):
    n = width(rng)
    K, T = pick_any(rng, n)
    for _ in range(3):
        a, b = pair(rng, n)
        if rng.random() < .35:
            b = shift_amount(rng, n)
        one(ctx, K, T, n, a, b)
    ctx.sample(f'{T.__name__} a={a:#x} b={b:#x}')


@group(300, 8000)
def mixed_kind_methods(ctx, rng):
    """named operations between different kinds of one width; sized subclasses"""
    n = width(rng, hi=200)
    if rng.random() < .2:
        n, TA = rng.choice(((8, SizedU8), (16, SizedS16)))
    else:
        _, TA = pick_any(rng, n)
    _, TB = pick_any(rng, n)
    for op in BIN:
        a, b = pair(rng, n)
        if 'sh' in op:
            b = shift_amount(rng, n)
        r = getattr(TA(a), op)(TB(b))
        want = binop(op, n, a, b)
        if type(r) is not TA or r.as_uint() != want:
            ctx.check(False, f'{op} between kinds', f'{TA.__name__}({a:#x}).{op}({TB.__name__}'
                      f'({b:#x})) = {r!r} : {type(r)}, expected {want:#x}')
        ctx.ev((op, n, a, b, TA.__name__, TB.__name__))
    ctx.sample(f'{TA.__name__} with {TB.__name__}')


@group(250, 6000)
def same_object(ctx, rng):
    """one object as both operands of methods and operators"""
    n = width(rng)
    K, T = pick_any(rng, n)
    for a in (value(rng, n), rng.choice((0, 0, 1, mask(n), 1 << (n - 1)))):
        x = T(a)
        for op in BIN:
            check_bv(ctx, getattr(x, op)(x), T, binop(op, n, a, a), f'{op} with itself')
            ctx.ev((op, n, a, 'self'))
        for sym, (u, s) in INFIX.items():
            check_bv(ctx, PYOP[sym](x, x), T, binop(s if signed(K) else u, n, a, a), f'{sym} with itself')
            ctx.ev((sym, n, a, 'self'))
        ctx.check(x.as_uint() == a, 'operand changed', f'{T.__name__} {a:#x}')
    ctx.sample(f'{T.__name__}({a:#x}) with itself')


@group(60, 600)
def operator_chains(ctx, rng):
    """long expression chains shadowed step by step by integers"""
    n = width(rng, hi=300)
    K, T = pick_any(rng, n)
    vals = [(T(v), v) for v in (value(rng, n) for _ in range(4))]
    for _ in range(60):
        (x, a), (y, b) = rng.choice(vals), rng.choice(vals)
        sym = rng.choice(list(INFIX))
        op = INFIX[sym][signed(K)]
        if rng.random() < .15:
            b = rng.choice((0, 1, 2, n, -1, 7, mask(n), -(1 << n - 1)))
            y, b = b, b & mask(n)
        want = binop(op, n, a, b)
        r = (AUG if rng.random() < .3 else PYOP)[sym](x, y)
        if type(r) is not T or r.as_uint() != want:
            ctx.check(False, f'chain {sym}', f'{T.__name__} {a:#x} {sym} {b:#x}: {r!r}, expected {want:#x}')
        ctx.ev((sym, n, a, b))
        vals[rng.randrange(len(vals))] = (r, want)
    for x, a in vals:
        ctx.check(x.as_uint() == a, 'chain operand changed', f'{T.__name__}')


# ---------------------------------------------------------------- programs --
class Monitor:
    """Wraps the infix operators of a kind while a program runs and checks
    every single application against the integer model (online)."""
    NAMES = {'__add__': '+', '__sub__': '-', '__mul__': '*', '__and__': '&', '__or__': '|',
             '__xor__': '^', '__lshift__': '<<', '__rshift__': '>>', '__floordiv__': '//',
             '__mod__': '%'}

    def __init__(self, ctx, K):
        self.ctx, self.K, self.bad = ctx, K, None
        self.saved = {}

    def __enter__(self):
        K, ctx = self.K, self.ctx
        for name, sym in self.NAMES.items():
            real = getattr(K, name)
            self.saved[name] = K.__dict__.get(name)
            op = INFIX[sym][signed(K)]

            def oper(x, y, real=real, sym=sym, op=op):
                n, a = x.size, x.as_uint()
                r = real(x, y)
                if r is NotImplemented:
                    return r
                b = y.as_uint() if isinstance(y, BitVector) else int(y) & mask(n)
                want = binop(op, n, a, b)
                ctx.ev((sym, n, a, b))
                if r.as_uint() != want and self.bad is None:
                    self.bad = f'{type(x).__name__} {a:#x} {sym} {b:#x}: got {r.as_uint():#x}, expected {want:#x}'
                return r
            setattr(K, name, oper)
        return self

    def __exit__(self, *exc):
        for name, old in self.saved.items():
            if old is None:
                delattr(self.K, name)
            else:
                setattr(self.K, name, old)
        if exc[0] is None:
            self.ctx.check(self.bad is None, 'operator inside a program', self.bad)


def rotr(x, k):
    return (x >> k) | (x << (x.size - k))


def sha256_block(W32, state, block):
    K = []
    # constants from cube roots of primes, computed with integers
    primes, c = [], 2
    while len(primes) < 64:
        if all(c % q for q in primes):
            primes.append(c)
        c += 1
    for q in primes:
        v = q << 96
        lo, hi = 0, 1 << 40
        while lo < hi:
            m = (lo + hi + 1) // 2
            if m ** 3 <= v:
                lo = m
            else:
                hi = m - 1
        K.append(W32(lo & 0xffffffff))
    w = [W32(int.from_bytes(block[4 * i:4 * i + 4], 'big')) for i in range(16)]
    for i in range(16, 64):
        s0 = rotr(w[i - 15], 7) ^ rotr(w[i - 15], 18) ^ (w[i - 15] >> 3)
        s1 = rotr(w[i - 2], 17) ^ rotr(w[i - 2], 19) ^ (w[i - 2] >> 10)
        w.append(w[i - 16] + s0 + w[i - 7] + s1)
    a, b, c, d, e, f, g, h = state
    for i in range(64):
        S1 = rotr(e, 6) ^ rotr(e, 11) ^ rotr(e, 25)
        ch = (e & f) ^ (~e & g)
        t1 = h + S1 + ch + K[i] + w[i]
        S0 = rotr(a, 2) ^ rotr(a, 13) ^ rotr(a, 22)
        maj = (a & b) ^ (a & c) ^ (b & c)
        a, b, c, d, e, f, g, h = t1 + S0 + maj, a, b, c, d + t1, e, f, g
    return [x + y for x, y in zip(state, (a, b, c, d, e, f, g, h))]


@group(2, 40)
def program_sha256(ctx, rng):
    K = rng.choice((BitVector, UIntVector))
    W32 = K[32]
    msg = rng.randbytes(rng.randint(0, 119))
    m = msg + b'\x80' + bytes((55 - len(msg)) % 64) + (8 * len(msg)).to_bytes(8, 'big')
    H = [W32(v) for v in (0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a,
                          0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19)]
    with Monitor(ctx, K):
        for i in range(0, len(m), 64):
            H = sha256_block(W32, H, m[i:i + 64])
    got = b''.join(int(x).to_bytes(4, 'big') for x in H)
    ctx.check(got == hashlib.sha256(msg).digest(), 'SHA-256 program', msg.hex())
    ctx.sample(f'sha256 of {len(msg)} bytes')


@group(6, 60)
def program_crc_lfsr(ctx, rng):
    K = rng.choice((BitVector, UIntVector))
    data = rng.randbytes(rng.randint(1, 30))
    with Monitor(ctx, K):
        crc = ~K[32](0)
        for byte in data:
            crc = crc ^ K[8](byte).zext(24)
            for _ in range(8):
                low = crc & 1
                crc = (crc >> 1) ^ (-low & 0xEDB88320)
        crc = ~crc
        x = s = 1 + rng.getrandbits(63)
        v = K[64](s)
        for _ in range(20):
            v = v ^ (v << 13)
            v = v ^ (v >> 7)
            v = v ^ (v << 17)
            x ^= x << 13 & mask(64); x ^= x >> 7; x ^= x << 17 & mask(64)
    ctx.check(int(crc) == zlib.crc32(data), 'CRC-32 program', data.hex())
    ctx.check(int(v) == x, 'xorshift program', hex(s))
    ctx.sample(f'crc32 {data.hex()} = {int(crc):#x}')


@group(20, 300)
def program_arith(ctx, rng):
    """shift-add multiplication, restoring division, gcd and fixed-point sums"""
    n = rng.choice((4, 8, 13, 32, 64, 100))
    K = rng.choice((BitVector, UIntVector, SIntVector))
    T = K[n]
    a, b = pair(rng, n)
    with Monitor(ctx, K):
        acc, x = T(0), T(a)
        for i in range(n):
            if T(b)[i]:
                acc = acc + x
            x = x << 1
        ctx.check(acc.as_uint() == a * b & mask(n), 'shift-add multiplier', (n, a, b))
        U = UIntVector[n + 1]
        if b:
            rem, quo = U(0), U(0)
            for i in reversed(range(n)):
                rem = (rem << 1) | U(a >> i & 1)
                if rem >= b:
                    rem, quo = rem - b, quo | (U(1) << i)
            ctx.check((int(quo), int(rem)) == divmod(a, b), 'restoring divider', (n, a, b))
        if n <= 64:
            import math
            p, q = UIntVector[n](a), UIntVector[n](b)
            while q:
                p, q = q, p % q
            ctx.check(int(p) == math.gcd(a, b), 'gcd program', (n, a, b))
        # signed filter: q*b + r == a for the signed pair
        S = SIntVector[n + 2]
        sa, sb = S(sgn(n, a)), S(sgn(n, b))
        ctx.check(int((sa // sb) * sb + sa % sb) == sgn(n, a) or sgn(n, b) == 0,
                  'signed division identity', (n, a, b))
    ctx.ev((n, a, b))
    ctx.sample(f'{T.__name__} a={a:#x} b={b:#x}')


@group(60, 400)
def empty(ctx, rng):
    """the vector of width 0 is the number 0 throughout"""
    K, T = pick_any(rng, 0)
    x, y = T(rng.randint(-3, 3)), T(rng.choice((0, True, (), [], T(0))))
    for op in BIN:
        check_bv(ctx, getattr(x, op)(y), T, 0, f'{op} of empty vectors')
        ctx.ev((T.__name__, op))
    for sym in ('&', '|', '^', '+', '-', '*', '<<', '>>', '//', '%'):
        c = rng.choice((y, 0, 5, -7))
        check_bv(ctx, PYOP[sym](x, c), T, 0, f'{sym} of empty vectors')
        check_bv(ctx, PYOP[sym](c, x), T, 0, f'{sym} of empty vectors')
        ctx.ev((T.__name__, sym))
    for f in (lambda: ~x, lambda: -x, x.bvnot, x.bvneg):
        check_bv(ctx, f(), T, 0, 'negation of an empty vector')
    ctx.sample(T.__name__)
