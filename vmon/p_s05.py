import z3
from hwtypes import (Bit, BitVector, UIntVector, SIntVector, SMTBit, SMTBitVector, z3Bit, z3BitVector)
from hwtypes.smt_bit_vector import SMTUIntVector, SMTSIntVector, SMTNumVector
from hwtypes.z3_bit_vector import z3UIntVector, z3SIntVector
from .core import group
from .symprog import *
from .smtbackend import Smt, SWord, SDelta
from .smteval import evaluate
from .z3backend import Z3

NA = 6


class SPointMeta(type):
    def _bitvector_t_(cls):
        return cls.STORE


class SPoint(metaclass=SPointMeta):
    STORE = SMTBitVector[12]
    def __init__(self, x): self.x = x
    @classmethod
    def _from_bitvector_(cls, bv):
        assert type(bv) is cls.STORE, f'protocol given a {type(bv)}'
        return cls(bv ^ 0x5a5)
    def _to_bitvector_(self):
        return self.x ^ 0x5a5


class SOffset(SPoint):
    STORE = SMTSIntVector[9]
    @classmethod
    def _from_bitvector_(cls, bv):
        assert type(bv) is cls.STORE, f'protocol given a {type(bv)}'
        return cls(bv.bvnot())
    def _to_bitvector_(self):
        return self.x.bvnot()


KINDS = (BitVector, UIntVector, SIntVector, CWord, CDelta)


class Src:
    """symbolic sources with known values"""
    def __init__(self, rng, na=NA):
        self.rng, self.na, self.be = rng, na, Smt(na)

    def vec(self, K, n):
        """(symbolic value of exactly KMAP[K][n], its values)"""
        rng, be = self.rng, self.be
        if rng.random() < .2:
            c = value(rng, n)
            return be.KMAP[K][n](c), [c] * self.na
        vals = [value(rng, n) for _ in range(self.na)]
        v = be.var(K[n], vals)
        r = rng.random()
        if r < .25:
            c = value(rng, n)
            return v + c, [(x + c) & mask(n) for x in vals]
        if r < .35:
            return ~v, [~x & mask(n) for x in vals]
        return v, vals

    def bit(self):
        rng, be = self.rng, self.be
        vals = [rng.getrandbits(1) for _ in range(self.na)]
        vals[0], vals[1] = 0, 1
        r = rng.random()
        if r < .1:
            c = rng.getrandbits(1)
            return SMTBit(c), [c] * self.na
        if r < .7:
            return be.var(Bit, vals), vals
        n = rng.choice((1, 3, 8))
        a, av = self.vec(BitVector, n)
        if r < .85:
            i = rng.randrange(n)
            return a[i], [x >> i & 1 for x in av]
        c = value(rng, n)
        return a.bvult(c), [int(x < c) for x in av]

    def select(self):
        if self.rng.random() < .7:
            return self.bit()
        K = self.rng.choice(KINDS)
        n = width_like(self.rng, (1, 2, 3, 17))
        v, vals = self.vec(K, n)
        for k in range(self.na):
            pass
        return v, [int(x != 0) for x in vals]


def leaf(rng, src):
    r = rng.random()
    if r < .25:
        return ('bit',) + tuple(src.bit() for _ in range(2))
    n = width_like(rng, (1, 2, 3, 8, 16, 33, 64))
    if r < .6:
        K = rng.choice(KINDS)
        return ('vec', src.vec(K, n), src.vec(K, n))
    if r < .8:
        K, L = rng.sample(KINDS, 2)
        return ('poly', src.vec(K, n), src.vec(L, n), K, L)
    P, K, n = rng.choice(((SPoint, BitVector, 12), (SOffset, SIntVector, 9)))
    return ('proto', src.vec(K, n), src.vec(K, n), P)


def shape(rng, src, depth):
    if depth == 0 or rng.random() < .35:
        return leaf(rng, src)
    return [shape(rng, src, depth - 1) for _ in range(rng.choice((0, 1, 2, 2, 3)))]


def branch(s, i):
    if isinstance(s, list):
        return tuple(branch(x, i) for x in s)
    v = s[1 + i][0]
    return s[3](v) if s[0] == 'proto' else v


def common(S, U):
    return [C for C in S.__mro__ if C in U.__mro__ and isinstance(C, type(SMTBitVector)) and issubclass(C, SMTBitVector)]


def match(ctx, got, s, sel, be, path='', show=''):
    if isinstance(s, list):
        ctx.check(type(got) is tuple and len(got) == len(s), 'tuple shape of ite', (path, repr(got)[:200]))
        for j, (g, x) in enumerate(zip(got, s)):
            match(ctx, g, x, sel, be, f'{path}[{j}]', show)
        return
    if s[0] == 'poly':
        for C in common(type(s[1][0]), type(s[2][0])):
            ctx.check(isinstance(got, C), 'mixed value misses a common kind', (path, C))
        for C in (*Smt.KMAP.values(), SMTNumVector):
            if not (isinstance(s[1][0], C) and isinstance(s[2][0], C)):
                ctx.check(not isinstance(got, C), 'mixed value of a kind only one branch has', (path, C))
    elif s[0] == 'proto':
        ctx.check(type(got) is s[3], 'type selected by ite', (path, type(got)))
        got = got.x
    else:
        ctx.check(type(got) is type(s[1][0]), 'type selected by ite', (path, type(got), type(s[1][0])))
    for k in range(be.na if hasattr(be, 'na') else NA):
        want = s[1][1][k] if sel[k] else s[2][1][k]
        g = be.evaluate(got, k)
        ctx.check(g == want, 'value selected by a symbolic ite',
                  lambda: f'{path or "top"} {s[0]}: {g:#x} instead of {want:#x}, select {sel[k]}')
        ctx.ev((s[0], sel[k], want))


@group(2000, 20000)
def select(ctx, rng):
    src = Src(rng)
    s = shape(rng, src, rng.choice((0, 0, 1, 2, 3)))
    sel, sv = src.select()
    match(ctx, sel.ite(branch(s, 0), branch(s, 1)), s, sv, src.be)
    ctx.sample(f'{type(sel).__name__} selecting between {repr(branch(s, 0))[:150]} ..')


def probe(ctx, m, per, n, rng, be, what, kinds):
    """m stands for pattern per[k][1] of kind per[k][0] at assignment k"""
    def watch(r, f, op, w=n):
        for k, (K, a) in enumerate(per):
            want = int(f(K, a))
            got = be.evaluate(r, k)
            ctx.check(got == want, f'mixed {op}', lambda: f'{what}: operand {K.__name__}[{n}]({a:#x}): got {got:#x}, expected {want:#x}')
            ctx.ev((op, K.__name__, n, a))
        if w:
            ctx.check(r.size == w, f'mixed {op}: width', (what, type(r)))
        else:
            ctx.check(type(r) is SMTBit, f'mixed {op}: type', (what, type(r)))
    S = lambda K: issubclass(K, SIntVector)
    watch(m, lambda K, a: a, 'reading')
    anysigned = any(S(K) for K in kinds)
    b = value(rng, n)
    other = rng.choice((b, sgn(n, b)))
    for sym, ops in INFIX.items():
        if sym in ('//', '%') and anysigned:
            continue
        watch(PYOP[sym](m, other), lambda K, a: binop(ops[S(K)], n, a, b), sym)
        watch(PYOP[sym](b, m), lambda K, a: binop(ops[S(K)], n, b, a), f'int {sym}')
        watch(PYOP[sym](m, m), lambda K, a: binop(ops[S(K)], n, a, a), f'{sym} itself')
    for sym, ops in INFIX_CMP.items():
        watch(PYOP[sym](m, other), lambda K, a: CMP[ops[S(K)]](n, a, b), sym, 0)
        watch(PYOP[sym](b, m), lambda K, a: CMP[ops[S(K)]](n, b, a), f'int {sym}', 0)
    for op in METHODS:
        watch(getattr(m, op)(other), lambda K, a: binop(op, n, a, b), op)
    for op in CMPS:
        watch(getattr(m, op)(other), lambda K, a: CMP[op](n, a, b), op, 0)
    watch(~m, lambda K, a: ~a & mask(n), '~')
    watch(-m, lambda K, a: -a & mask(n), '-')
    q = rng.randint(0, 9)
    sx = lambda a: a | (mask(q) << n if a >> (n - 1) & 1 else 0)
    watch(m.zext(q), lambda K, a: a, 'zext', n + q)
    watch(m.sext(q), lambda K, a: sx(a), 'sext', n + q)
    watch(m.ext(q), lambda K, a: sx(a) if S(K) else a, 'ext', n + q)
    i = rng.randrange(n)
    watch(m[i], lambda K, a: a >> i & 1, 'index', 0)
    watch(m[i:], lambda K, a: a >> i, 'slice', n - i)
    watch(m.bvrol(q), lambda K, a: ROT['bvrol'](n, a, q & mask(n)) & mask(n), 'bvrol')
    s, c = m.adc(other, SMTBit(1))
    watch(s, lambda K, a: (a + b + 1) & mask(n), 'adc')
    watch(c, lambda K, a: (a + b + 1) >> n, 'adc carry', 0)


def mixed_tree(rng, src, n, depth):
    """(value, [(kind, pattern) per assignment], kinds in it)"""
    if depth == 0:
        K = rng.choice(KINDS)
        v, vals = src.vec(K, n)
        return v, [(K, x) for x in vals], {K}
    t, f = mixed_tree(rng, src, n, depth - 1), mixed_tree(rng, src, n, rng.randrange(depth))
    s, sv = src.select()
    v = s.ite(t[0], f[0])
    per = [t[1][k] if sv[k] else f[1][k] for k in range(src.na)]
    if rng.random() < .3:
        d = value(rng, n)
        v, per = v - d, [(K, (a - d) & mask(n)) for K, a in per]
    elif rng.random() < .2:
        d = rng.randint(0, min(mask(n), n))
        v, per = v >> d, [(K, binop('bvashr' if issubclass(K, SIntVector) else 'bvlshr', n, a, d)) for K, a in per]
    return v, per, t[2] | f[2]


@group(400, 6000)
def mixed_kinds(ctx, rng):
    src = Src(rng, 4)
    n = width_like(rng, (1, 2, 3, 8, 16, 31, 40))
    v, per, kinds = mixed_tree(rng, src, n, rng.choice((1, 1, 2, 3)))
    probe(ctx, v, per, n, rng, src.be, f'ite over {sorted(k.__name__ for k in kinds)}', kinds)
    ctx.sample(f'{sorted(k.__name__ for k in kinds)} width {n}')


@group(30, 400)
def lookalike_selects(ctx, rng):
    """mixed values chosen by conditions that print alike"""
    src = Src(rng, 4)
    be = src.be
    mach = Machine(ctx, rng, be, 4)
    sels, _ = lookalikes(mach, rng, Bit, rng.randint(4, 12), n=3)
    n = width_like(rng, (1, 2, 5, 8, 17))
    K, L = rng.sample(KINDS, 2)
    (a, av), (b, bv) = src.vec(K, n), src.vec(L, n)
    ls, _ = lookalikes(mach, rng, K[n], rng.randint(4, 12))
    vals = lambda r: [conc_int(c) for c in r.conc]
    ms = []
    for s in sels:
        for x, xv in [(a, av)] + [(l.sym, vals(l)) for l in ls]:
            per = [(K, xv[k]) if int(s.conc[k]) else (L, bv[k]) for k in range(4)]
            ms.append((s.sym.ite(x, b), per))
    rng.shuffle(ms)
    for v, per in ms:
        probe(ctx, v, per, n, rng, be, f'deep ite over {K.__name__}, {L.__name__}', {K, L})
    ctx.sample(f'{K.__name__}/{L.__name__} selected by {str(sels[0].sym.value)[:120]}')


class SLoud(SMTBit):
    def __invert__(self):
        return SMTBit(1)


@group(60, 600)
def mixed_bits(ctx, rng):
    src = Src(rng)
    be = src.be
    s, sv = src.bit()
    a, av = src.bit()
    b, bv = src.bit()
    m = s.ite(a, SLoud(b))
    for k in range(NA):
        v = av[k] if sv[k] else bv[k]
        ctx.check(be.evaluate(m, k) == v, 'mixed bit', (sv[k], av[k], bv[k]))
        ctx.check(be.evaluate(~m, k) == (1 - v if sv[k] else 1), 'mixed bit ~', (sv[k], av[k], bv[k]))
        for c in (0, 1):
            ctx.check((be.evaluate(m & c, k), be.evaluate(m | c, k), be.evaluate(m ^ c, k), be.evaluate(m == c, k))
                      == (v & c, v | c, v ^ c, int(v == c)), 'mixed bit logic', (sv[k], v, c))
        ctx.ev((sv[k], av[k], bv[k]))
    ctx.check(isinstance(m, SMTBit), 'mixed bit kind', type(m))
    ctx.sample('SMTBit / SMTBit subclass')


@group(300, 3000)
def bad_branches(ctx, rng):
    src = Src(rng)
    sel, _ = src.select()
    n = width_like(rng, (1, 2, 8, 33))
    B = src.vec(rng.choice(KINDS), n)[0]
    W = src.vec(rng.choice(KINDS), n + rng.randint(1, 4))[0]
    b = src.bit()[0]
    for t, f in [(B, W), (W, B), (B, b), (b, B), (B, (B,)), ((B, B), (B,)), ((B, (b, B)), (B, (b,))), ((B, W), (B, B)),
                 (B, 3), (3, B), (1, 0), (None, None), (B, None), ([B], [B]), (SPoint(B), B), ((), (B,)), ((B, 1), (B, 1))]:
        ctx.raises(TypeError, lambda: sel.ite(t, f), 'ill-shaped ite accepted', (repr(t)[:100], repr(f)[:100]))
        ctx.ev((type(t).__name__, type(f).__name__, n))
    ctx.sample(f'width {n}')


# ------------------------------------------------------------ bit writes ---
def writes(ctx, rng, be, Bt, steps, na, backend):
    n = width_like(rng, (1, 2, 3, 5, 8, 13, 32, 65))
    K = rng.choice(KINDS)
    T = be.KMAP[K][n]
    vals = [[value(rng, n) for _ in range(na)] for _ in range(2)]
    vecs = [be.var(K[n], v) for v in vals]
    bits, bvals = [], []
    for _ in range(2):
        v = [rng.getrandbits(1) for _ in range(na)]
        v[0], v[1] = 0, 1
        bits.append(be.var(Bit, v))
        bvals.append(v)
    frozen = []                                 # expressions built earlier, with values
    for step in range(steps):
        i = rng.randrange(len(vecs))
        r = rng.random()
        if r < .55:
            idx = rng.randrange(-n, n)
            q = rng.random()
            if q < .35:
                w = rng.choice((0, 1, True, False))
                wv = [int(w)] * na
            elif q < .8:
                j = rng.randrange(len(bits))
                w, wv = bits[j], bvals[j]
            else:                               # a bit of a live vector, possibly the same one
                j, p = rng.randrange(len(vecs)), rng.randrange(n)
                w, wv = vecs[j][p], [x >> p & 1 for x in vals[j]]
            vecs[i][idx] = w
            p = idx % n
            vals[i] = [x & ~(1 << p) | b << p for x, b in zip(vals[i], wv)]
            what = f'v{i}[{idx}] = {w!r}'
        elif r < .65 and len(vecs) < 5:
            vecs.append(T(vecs[i]))             # a copy
            vals.append(list(vals[i]))
            what = f'copy of v{i}'
        elif r < .8:
            j = rng.randrange(len(vecs))
            e = vecs[i] + vecs[j]
            frozen.append((e, [(x + y) & mask(n) for x, y in zip(vals[i], vals[j])], f'v{i} + v{j} at step {step}'))
            frozen.append((vecs[i][rng.randrange(n):], None, ''))
            frozen.pop()
            what = 'expression built'
        elif r < .9:
            p = rng.randrange(n)
            frozen.append((vecs[i][p], [x >> p & 1 for x in vals[i]], f'v{i}[{p}] at step {step}'))
            frozen.append((~vecs[i], [~x & mask(n) for x in vals[i]], f'~v{i} at step {step}'))
            what = 'expression built'
        else:
            bad = rng.choice(((n, IndexError), (-n - 1, IndexError), (n + 7, IndexError)))
            for w in (1, bits[0]):
                ctx.raises(bad[1], lambda: vecs[i].__setitem__(bad[0], w), 'write out of range accepted', (backend, n, bad[0]))
            for w in (2, -1, 'x', None, vecs[i]):
                ctx.raises(ValueError, lambda: vecs[i].__setitem__(0, w), 'bad bit value accepted', (backend, repr(w)[:50]))
            what = 'rejected writes'
        for j, (v, x) in enumerate(zip(vecs, vals)):
            ctx.check(type(v) is T and v.size == n, 'type changed by a write', what)
            for k in range(na):
                g = be.evaluate(v, k)
                ctx.check(g == x[k], 'state after symbolic writes', lambda: f'{backend} {T.__name__} step {step} ({what}): v{j} = {g:#x}, expected {x[k]:#x}')
                ctx.ev((backend, n, x[k]), 'state')
    for e, x, what in frozen:
        for k in range(na):
            g = be.evaluate(e, k)
            ctx.check(g == x[k], 'an earlier expression changed', lambda: f'{backend} {what}: {g:#x}, expected {x[k]:#x}')
        ctx.ev((backend, n, x[0]), 'expression')
    ctx.sample(f'{backend} {T.__name__}: {steps} steps, {len(vecs)} vectors, {len(frozen)} earlier expressions')


@group(500, 6000)
def smt_writes(ctx, rng):
    writes(ctx, rng, Smt(5), SMTBit, 14, 5, 'smt')


@group(120, 1500)
def z3_writes(ctx, rng):
    writes(ctx, rng, Z3(3), z3Bit, 9, 3, 'z3')


@group(150, 2500)
def z3_select(ctx, rng):
    na = 4
    be = Z3(na)
    n = width_like(rng, (1, 2, 3, 8, 33, 64))
    K = rng.choice(KINDS)
    sv = [0, 1] + [rng.getrandbits(1) for _ in range(na - 2)]
    sel = be.var(Bit, sv)
    if rng.random() < .4:
        w = rng.choice((1, 2, 7))
        vals = [0] + [value(rng, w) for _ in range(na - 1)]
        sel = be.var(rng.choice(KINDS)[w], vals)
        sv = [int(x != 0) for x in vals]
    elif rng.random() < .3:
        sel, sv = ~sel, [1 - x for x in sv]
    for T in (K[n], Bit):
        if T is Bit:
            tv, fv = ([rng.getrandbits(1) for _ in range(na)] for _ in range(2))
        else:
            tv, fv = ([value(rng, n) for _ in range(na)] for _ in range(2))
        t, f = be.var(T, tv), be.var(T, fv)
        if rng.random() < .2:
            c = 1 if T is Bit else value(rng, n)
            f, fv = be.sized(T)(c), [c] * na
        r = sel.ite(t, f)
        ctx.check(type(r) is be.sized(T), 'type selected by z3 ite', (type(r), T))
        for k in range(na):
            g, want = be.evaluate(r, k), tv[k] if sv[k] else fv[k]
            ctx.check(g == want, 'value selected by z3 ite', lambda: f'{T.__name__} select {sv[k]}: {g:#x} instead of {want:#x}')
            ctx.ev((T.__name__, sv[k], want))
        if T is not Bit:
            c = value(rng, n)                   # a plain integer as a branch
            c = rng.choice((c, sgn(n, c), c + rng.choice((-1, 1, 3)) * (1 << n + rng.choice((0, 0, 1, 9)))))
            for i, r in enumerate((sel.ite(t, c), sel.ite(c, t))):
                ctx.check(type(r) is be.sized(T), 'type selected by z3 ite', (type(r), T))
                for k in range(na):
                    g, want = be.evaluate(r, k), tv[k] if sv[k] != i else c & mask(n)
                    ctx.check(g == want, 'value selected by z3 ite', lambda: f'{T.__name__} or {c} select {sv[k]}: {g:#x} instead of {want:#x}')
            for U in [be.KMAP[L][n] for L in KINDS if L is not K] + [be.KMAP[K][n + 1]]:
                ctx.raises(TypeError, lambda: sel.ite(t, U()), 'z3 ite over two types', (T, U))
    ctx.sample(f'{type(sel).__name__} selecting {K[n].__name__}')


@group(200, 4000)
def inherited(ctx, rng):
    """branches of classes that inherit from sized symbolic types"""
    src = Src(rng, 4)
    be = src.be
    n = width_like(rng, (1, 2, 3, 8, 16, 31))
    pool = [(be.KMAP[K][n], K) for K in KINDS]
    for i in range(rng.randint(2, 4)):
        T, K = rng.choice(pool[-4:])
        pool.append((type(T)(f'D{i}', (T,), {}), K))
    (A, K), (B, L) = rng.choice(pool), rng.choice(pool[5:])
    if rng.random() < .5:
        A, K, B, L = B, L, A, K
    (x, xs), (y, ys) = src.vec(K, n), src.vec(L, n)
    s, sv = src.select()
    m = s.ite(A(x), B(y))
    per = [(K, xs[k]) if sv[k] else (L, ys[k]) for k in range(src.na)]
    for C, _ in pool:
        ctx.check(isinstance(m, C) == (issubclass(A, C) and issubclass(B, C)), 'mixed value: common classes', lambda: f'{A.__mro__} {B.__mro__} {C}')
    ctx.check(m.size == n, 'mixed value: width', n)
    S = lambda K: issubclass(K, SIntVector)
    d = value(rng, n)

    def watch(r, f, op):
        for k, (K, a) in enumerate(per):
            got, want = be.evaluate(r, k), int(f(K, a))
            ctx.check(got == want, f'mixed {op}', lambda: f'{A.__mro__[:3]} {B.__mro__[:3]} at {k}: {a:#x} and {d:#x}: {got:#x}, expected {want:#x}')
            ctx.ev((op, n, a, d))
    watch(m, lambda K, a: a, 'reading')
    for o in (d, A(d), B(d)):
        for sym in ('+', '-', '>>', '&'):
            watch(PYOP[sym](m, o), lambda K, a: binop(INFIX[sym][S(K)], n, a, d), sym)
        for sym in ('<', '>=', '=='):
            watch(PYOP[sym](m, o), lambda K, a: CMP[INFIX_CMP[sym][S(K)]](n, a, d), sym)
    watch(~m, lambda K, a: ~a & mask(n), '~')
    i = rng.randrange(n)
    watch(m[i], lambda K, a: a >> i & 1, 'index')
    ctx.sample(f'{A.__name__} / {B.__name__}')
