from hwtypes import NumVector
from .core import group
from .cbv import *

PAIRS = [(A, B) for A in KINDS for B in KINDS if A is not B]


def common(A, B):
    """most specific kinds both belong to"""
    return [C for C in A.__mro__ if C in B.__mro__ and isinstance(C, type(BitVector))
            and issubclass(C, BitVector)]


def probe(ctx, m, K, n, a, rng, what):
    """m (a mixed value) must behave like K[n](a)"""
    S = signed(K)
    w = lambda: f'{what} standing for {K.__name__}[{n}]({a:#x})'
    ctx.check(m.as_uint() == a and m.as_sint() == sgn(n, a) and len(m) == n == m.size, 'reading of mixed value', w)
    ctx.check(m.bits() == [(a >> i) & 1 for i in range(n)], 'bits of mixed value', w)
    ctx.check(bool(m) is (a != 0), 'truth of mixed value', w)
    b = value(rng, n)
    other = rng.choice((b, sgn(n, b), K[n](b)))
    for sym, ops in INFIX.items():
        op = ops[S]
        r = PYOP[sym](m, other)
        ctx.check(r.as_uint() == binop(op, n, a, b) and r.size == n, f'mixed {sym}',
                  lambda: f'{w()} {sym} {other!r}: {r.as_uint():#x} expected {binop(op, n, a, b):#x}')
        r = PYOP[sym](b, m)
        ctx.check(r.as_uint() == binop(op, n, b, a), f'int {sym} mixed',
                  lambda: f'{b:#x} {sym} {w()}: {r.as_uint():#x} expected {binop(op, n, b, a):#x}')
        r = PYOP[sym](m, m)
        ctx.check(r.as_uint() == binop(op, n, a, a), f'mixed {sym} itself', w)
        ctx.ev((sym, K.__name__, n, a, b))
    for sym, ops in INFIX_CMP.items():
        check_bit(ctx, PYOP[sym](m, other), CMP[ops[S]](n, a, b), f'mixed {sym}', lambda: f'{w()} {sym} {other!r}')
        check_bit(ctx, PYOP[sym](b, m), CMP[ops[S]](n, b, a), f'int {sym} mixed', lambda: f'{b:#x} {sym} {w()}')
        ctx.ev((sym, K.__name__, n, a, b))
    for op in BIN:
        ctx.check(getattr(m, op)(other).as_uint() == binop(op, n, a, b), f'mixed {op}', w)
    for op, f in CMP.items():
        check_bit(ctx, getattr(m, op)(other), f(n, a, b), f'mixed {op}', w)
    ctx.check((~m).as_uint() == ~a & mask(n) and (-m).as_uint() == -a & mask(n), 'mixed ~/-', w)
    k = rng.randint(0, 9)
    top = a >> (n - 1) & 1
    sx = a | (mask(k) << n if top else 0)
    for name, want in (('zext', a), ('sext', sx), ('ext', sx if S else a)):
        r = getattr(m, name)(k)
        ctx.check(r.size == n + k and r.as_uint() == want, f'mixed {name}',
                  lambda: f'{w()}.{name}({k}) = {r.as_uint():#x} expected {want:#x}')
    i = rng.randrange(-n, n)
    check_bit(ctx, m[i], a >> (i % n) & 1, 'mixed index', w)
    r = m[k % n:]
    ctx.check(r.as_uint() == a >> (k % n), 'mixed slice', w)
    for op, f in ROT.items():
        ctx.check(getattr(m, op)(b).as_uint() == f(n, a, b) & mask(n), f'mixed {op}', w)
    c = rng.getrandbits(1)
    s, co = m.adc(other, Bit(c))
    ctx.check(s.as_uint() == (a + b + c) & mask(n) and int(co) == (a + b + c) >> n, 'mixed adc', w)


@group(900, 20000)
def pairwise(ctx, rng):
    A, B = PAIRS[ctx.case % len(PAIRS)]
    n = width(rng, hi=130)
    a, b = pair(rng, n)
    for sel in (1, 0):
        s = rng.choice((Bit(sel), BitVector[4](sel * 9)))
        m = s.ite(A[n](a), B[n](b))
        K, v = (A, a) if sel else (B, b)
        what = f'ite({sel}, {A.__name__}, {B.__name__})'
        for C in common(A, B):
            ctx.check(isinstance(m, C) and isinstance(m, C[n]), 'mixed value misses a common kind', f'{what}: {C.__name__}')
        for C in KINDS + (NumVector,):
            if not (issubclass(A, C) and issubclass(B, C)):
                ctx.check(not isinstance(m, C), 'mixed value of a kind only one branch has', f'{what}: {C.__name__}')
        probe(ctx, m, K, n, v, rng, what)
        # results keep the behaviour
        d = value(rng, n)
        probe(ctx, m + d, K, n, (v + d) & mask(n), rng, what + ' + int')
        probe(ctx, ~m, K, n, ~v & mask(n), rng, '~' + what)
        t = v >> (n - 1) & 1
        probe(ctx, m.ext(2), K, n + 2, v | (3 << n if t and signed(K) else 0), rng, what + '.ext')
        ctx.ev((A.__name__, B.__name__, sel, n, a, b), 'pair')
    ctx.sample(f'{what} width {n}: {a:#x} / {b:#x}')


def tree(rng, n, depth):
    """nested ite; returns (value, kind, pattern)"""
    if depth == 0 or rng.random() < .2:
        K, a = rng.choice(STD + (CountVector, DeltaVector)), value(rng, n)
        return K[n](a), K, a
    t, f = tree(rng, n, depth - 1), tree(rng, n, depth - 1)
    s = rng.getrandbits(1)
    v = Bit(s).ite(t[0], f[0])
    _, K, a = t if s else f
    r = rng.random()
    if r < .3:
        d = value(rng, n)
        v, a = v - d, (a - d) & mask(n)
    elif r < .4:
        d = rng.randint(0, min(mask(n), n))
        v, a = v >> d, binop('bvashr' if signed(K) else 'bvlshr', n, a, d)
    return v, K, a


@group(300, 6000)
def nested(ctx, rng):
    n = width(rng, hi=70)
    v, K, a = tree(rng, n, rng.randint(2, 3))
    probe(ctx, v, K, n, a, rng, 'nested ite')
    ctx.sample(f'nested ite of width {n} behaving as {K.__name__}')


@group(200, 3000)
def in_tuples(ctx, rng):
    n = width(rng, hi=70)
    A, B = rng.choice(PAIRS)
    C, D = rng.choice(PAIRS)
    vals = [pair(rng, n), pair(rng, n)]
    for sel in (0, 1):
        r = Bit(sel).ite((A[n](vals[0][0]), (C[n](vals[1][0]), Bit(1))), (B[n](vals[0][1]), (D[n](vals[1][1]), Bit(0))))
        probe(ctx, r[0], A if sel else B, n, vals[0][1 - sel], rng, 'tuple element')
        probe(ctx, r[1][0], C if sel else D, n, vals[1][1 - sel], rng, 'nested tuple element')
        check_bit(ctx, r[1][1], sel, 'bit in tuple')
    ctx.sample(f'tuple of {A.__name__}/{B.__name__}, {C.__name__}/{D.__name__}')


class FlagBit(Bit):
    pass


class LoudBit(Bit):
    def __invert__(self):
        return Bit(1)


@group(100, 1000)
def mixed_bits(ctx, rng):
    """bits of different kinds: operators dispatch to the selected kind"""
    for sel in (0, 1):
        for a in (0, 1):
            for b in (0, 1):
                m = Bit(sel).ite(FlagBit(a), LoudBit(b))
                v = a if sel else b
                ctx.check(bool(m) is bool(v) and isinstance(m, Bit), 'mixed bit', (sel, a, b))
                ctx.check(bool(~m) is (not a if sel else True), 'mixed bit ~', (sel, a, b))
                for c in (0, 1):
                    ctx.check(bool(m & c) is bool(v & c) and bool(m | c) is bool(v | c) and bool(m ^ c) is bool(v ^ c)
                              and bool(m == c) is (v == c) and bool(m != c) is (v != c), 'mixed bit logic', (sel, a, b, c))
                    ctx.ev((sel, a, b, c))
    ctx.sample('FlagBit / LoudBit')


def bit_twin(k):
    class TwinBit(Bit):
        def __and__(self, other):
            return Bit(bool(self) == bool(k))
        def shown(self):
            return UIntVector[4](2 * int(self) + k)
    return TwinBit


@group(60, 600)
def bit_twins(ctx, rng):
    """bit types of one name"""
    A, B = bit_twin(0), bit_twin(1)
    for sel in (0, 1):
        for a in (0, 1):
            for b in (0, 1):
                m = Bit(sel).ite(A(a), B(b))
                v, k = (a, 0) if sel else (b, 1)
                w = (sel, a, b)
                ctx.check(isinstance(m, Bit) and not isinstance(m, A) and not isinstance(m, B), 'mixed bit of a kind only one branch has', w)
                ctx.check(bool(m) is bool(v), 'mixed bit', w)
                ctx.check(bool(m & 1) is (v == k), 'user operator of mixed bit', w)
                ctx.check(m.shown().as_uint() == 2 * v + k, 'user method of mixed bit', w)
                ctx.check(bool(m | 0) is bool(v) and bool(~m) is (not v), 'mixed bit logic', w)
                ctx.check(type(Bit(sel).ite(A(a), A(b))) is A and type(Bit(sel).ite(B(a), B(b))) is B, 'one bit type', w)
                ctx.ev(w)
    ctx.sample('two bit types of one name')


class ScaledVector(UIntVector):
    """user kind overriding an operator and adding its own method"""
    def __add__(self, other):
        return self.bvadd(other).bvadd(1)
    def scaled(self):
        return self.bvmul(3)


    def __rsub__(self, other):
        return self.bvxor(other)
    @property
    def own(self):
        return self.bvnot()


class HalvedVector(UIntVector):
    def scaled(self):
        return self.bvlshr(1)


@group(200, 3000)
def user_methods(ctx, rng):
    n = rng.randint(3, 40)
    a, b = pair(rng, n)
    for sel in (0, 1):
        m = Bit(sel).ite(ScaledVector[n](a), HalvedVector[n](b))
        v = a if sel else b
        ctx.eq(m.scaled().as_uint(), (v * 3 if sel else v >> 1) & mask(n), 'user method of mixed value', (n, a, b, sel))
        ctx.eq((m + 5).as_uint(), (v + 5 + sel) & mask(n), 'user operator of mixed value', (n, a, b, sel))
        ctx.eq((9 - m).as_uint(), v ^ (9 & mask(n)) if sel else (9 - v) & mask(n), 'user reflected operator of mixed value', (n, a, b, sel))
        ctx.check(isinstance(m, UIntVector[n]), 'common kind', sel)
        # members that only one kind has
        K = rng.choice((UIntVector, SIntVector, BitVector))
        for m in (Bit(sel).ite(ScaledVector[n](a), K[n](b)), Bit(1 - sel).ite(K[n](b), ScaledVector[n](a))):
            ctx.eq((m + 5).as_uint(), (v + 5 + sel) & mask(n), 'user operator of mixed value', (n, a, b, sel, K.__name__))
            ctx.check(type(Bit(1).ite(ScaledVector[n](a), ScaledVector[n](b))) is ScaledVector[n], 'one kind', n)
        ctx.ev((n, a, b, sel))
    ctx.sample(f'ScaledVector/HalvedVector[{n}]')


def twin(base, k):
    """user kinds made by one definition: equal names, different behaviour"""
    class Twin(base):
        STEP = k
        def moved(self, by=1):
            return self.bvadd(k * by)
        def __xor__(self, other):
            return self.bvxor(other).bvadd(k)
        @property
        def shown(self):
            return self.bvmul(k)
        @classmethod
        def made(cls, v):
            return UIntVector[12](v * k)
        @staticmethod
        def fixed():
            return UIntVector[12](k)
    return Twin


@group(200, 3000)
def twins(ctx, rng):
    n = rng.randint(3, 40)
    a, b = pair(rng, n)
    base = rng.choice((UIntVector, SIntVector, BitVector))
    ks = rng.sample(range(1, 7), 2)
    A, B = twin(base, ks[0]), twin(base, ks[1])
    for sel in (0, 1):
        m = Bit(sel).ite(A[n](a), B[n](b))
        v, k = (a, ks[0]) if sel else (b, ks[1])
        w = (n, a, b, sel, tuple(ks), base.__name__)
        d = value(rng, n)
        ctx.eq(m.moved().as_uint(), (v + k) & mask(n), 'user method of mixed value', w)
        ctx.eq(m.moved(3).as_uint(), (v + 3 * k) & mask(n), 'user method of mixed value', w)
        ctx.eq(m.moved(by=2).as_uint(), (v + 2 * k) & mask(n), 'user method of mixed value', w)
        ctx.eq((m ^ d).as_uint(), ((v ^ d) + k) & mask(n), 'user operator of mixed value', w)
        ctx.eq(m.as_uint(), v, 'reading of mixed value', w)
        ctx.check(isinstance(m, base[n]), 'common kind', w)
        ctx.check(not isinstance(m, A) and not isinstance(m, B), 'mixed value of a kind only one branch has', w)
        same = Bit(sel).ite(A[n](a), A[n](b))
        ctx.check(type(same) is A[n], 'one kind', w)
        # mixing once more with a third one
        C = twin(base, 9)
        for s2 in (0, 1):
            q = Bit(s2).ite(C[n](d), m)
            u, j = (d, 9) if s2 else (v, k)
            ctx.eq(q.moved(2).as_uint(), (u + 2 * j) & mask(n), 'user method of nested mixed value', w)
            ctx.eq((q ^ 5).as_uint(), ((u ^ (5 & mask(n))) + j) & mask(n), 'user operator of nested mixed value', w)
        ctx.ev(w)
    ctx.sample(f'two kinds of one name over {base.__name__}[{n}]')


class Named: pass


def offspring(rng, n):
    """sized types, and classes that inherit from them, from each other and from a mixin"""
    pool = [(K[n], K) for K in rng.sample(KINDS, 4)]
    for i in range(rng.randint(2, 5)):
        T, K = rng.choice(pool[-4:])
        bases = (Named, T) if rng.random() < .2 and not issubclass(T, Named) else (T,)
        pool.append((type(T)(f'D{i}', bases, {}), K))
    return pool


@group(400, 8000)
def inherited(ctx, rng):
    """branches of classes that inherit from sized types"""
    n = width(rng, hi=70)
    pool = offspring(rng, n)
    for _ in range(6):
        (A, K), (B, L) = rng.choice(pool), rng.choice(pool[4:])
        if rng.random() < .5:
            A, K, B, L = B, L, A, K
        a, b = pair(rng, n)
        for sel in (0, 1):
            m = Bit(sel).ite(A(a), B(b))
            v, k = (a, K) if sel else (b, L)
            w = lambda: f'ite({sel}, {A.__mro__[:3]}({a:#x}), {B.__mro__[:3]}({b:#x}))'
            for C in [T for T, _ in pool] + [Named, UIntVector, SIntVector, NumVector, BitVector]:
                both = issubclass(A, C) and issubclass(B, C)
                ctx.check(isinstance(m, C) == both, 'mixed value: common classes', lambda: f'{w()}: {C}')
            ctx.check(m.as_uint() == v and m.as_sint() == sgn(n, v) and m.size == n and len(m) == n, 'reading of mixed value', w)
            d = value(rng, n)
            for o in (d, A(d), B(d)):
                for sym in ('+', '-', '>>', '//', '%', '^'):
                    op = INFIX[sym][signed(k)]
                    r = PYOP[sym](m, o)
                    ctx.check(r.as_uint() == binop(op, n, v, d) and isinstance(r, BitVector[n]), f'mixed {sym}', lambda: f'{w()} {sym} {d:#x}: {r!r}')
                for sym in ('<', '>=', '=='):
                    check_bit(ctx, PYOP[sym](m, o), CMP[INFIX_CMP[sym][signed(k)]](n, v, d), f'mixed {sym}', w)
            ctx.check((~m).as_uint() == ~v & mask(n) and isinstance(~m, BitVector[n]), 'mixed ~', w)
            i = rng.randrange(-n, n)
            check_bit(ctx, m[i], v >> (i % n) & 1, 'mixed index', w)
            m2 = Bit(1).ite(m >> 1, B(b))
            ctx.check(m2.as_uint() == binop(INFIX['>>'][signed(k)], n, v, 1), 'nested mixed value', w)
            ctx.ev((n, a, b, sel, len(A.__mro__), len(B.__mro__)), 'inherited')
    ctx.sample(f'{[T.__name__ for T, _ in pool]}')
