import sys
import threading
import gmpy2
from hwtypes import Bit, BitVector, SIntVector, FPVector
from .core import group
from .fpmodel import NAN
from . import fpk
from .ref import width_like
from .fpk import some, bits, near, make, MODES


def contexts(rng):
    """a hostile caller context"""
    kw = dict(precision=rng.choice((1, 2, 3, 5, 7, 11, 24, 53, 64, 200, 1000)),
              round=rng.choice((gmpy2.RoundUp, gmpy2.RoundDown, gmpy2.RoundToZero, gmpy2.RoundToNearest, gmpy2.RoundAwayZero)))
    r = rng.random()
    if r < .5:
        kw.update(emax=rng.choice((1, 2, 8, 100)), emin=-rng.choice((1, 2, 8, 100)))
    if rng.random() < .3:
        kw.update(subnormalize=True)
    for t in ('trap_inexact', 'trap_overflow', 'trap_underflow', 'trap_invalid', 'trap_divzero', 'trap_erange', 'allow_complex', 'rational_division'):
        if rng.random() < .35:
            kw[t] = True
    c = gmpy2.context(**kw)
    if rng.random() < .5:
        c.inexact = True
    if rng.random() < .3:
        c.underflow = c.overflow = True
    return c


class Floaty:
    """a number whose conversion itself computes in other formats"""
    def __init__(self, v, others):
        self.v, self.others = v, others

    def __float__(self):
        for T in self.others:
            T('1/3').fp_mul(T(7)).fp_round_to_integral().reinterpret_as_bv()
        return self.v


class Inty:
    def __init__(self, v, others):
        self.v, self.others = v, others

    def __int__(self):
        for T in self.others:
            T('-22/7').fp_sqrt()
            T(9).fp_fma(T(2), T('0.1'))
        return self.v


BAD = ('abc', None, [], 1 + 2j, (), object())


def thunk(rng, ts):
    """(name, fn(T) -> raw result); inputs are drawn now, used later"""
    t = rng.choice(ts)
    others = [u.T for u in ts if u is not t]
    a = bits(rng, t)
    b, c = (near(rng, t, a) if rng.random() < .4 else bits(rng, t)), bits(rng, t)
    M = lambda T, p: T.reinterpret_from_bv(BitVector[t.size](p))
    r = rng.random()
    if r < .35:
        op = rng.choice(('fp_add', 'fp_sub', 'fp_mul', 'fp_div', 'fp_rem', 'fp_min', 'fp_max', 'fp_lt', 'fp_leq', 'fp_gt', 'fp_geq', 'fp_eq',
                         '__add__', '__sub__', '__mul__', '__truediv__', '__mod__', '__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__'))
        return t, (op, a, b), lambda T: getattr(M(T, a), op)(M(T, b))
    if r < .5:
        op = rng.choice(('fp_neg', 'fp_abs', 'fp_sqrt', 'fp_round_to_integral', '__neg__', '__abs__', 'fp_is_normal', 'fp_is_subnormal',
                         'fp_is_zero', 'fp_is_infinite', 'fp_is_NaN', 'fp_is_negative', 'fp_is_positive', 'reinterpret_as_bv', '__float__'))
        return t, (op, a), lambda T: getattr(M(T, a), op)()
    if r < .58:
        return t, ('fma', a, b, c), lambda T: M(T, a).fp_fma(M(T, b), M(T, c))
    if r < .66:
        n, op = width_like(rng, (1, 4, 8, 40)), rng.choice(('to_ubv', 'to_sbv'))
        return t, (op, a, n), lambda T: getattr(M(T, a), op)(n)
    if r < .80:
        q = rng.choice((rng.uniform(-3, 3), rng.randint(-10**6, 10**6), '1/3', '-7/11', '0.1', '1e3', '-1e-9', 'inf', 'nan', '-0', 10**40,
                        gmpy2.mpq(5, 7), gmpy2.mpz(12345), float('nan'), float('inf'), -0.0))
        return t, ('make', str(q)), lambda T: T(q)
    if r < .86:
        v = rng.choice((0.1, -2.75, 1e10, 3.3e-5))
        K = rng.choice((Floaty, Inty))
        if K is Inty:
            v = int(v * 1000) % 100000 + 1
        return t, ('make', K.__name__, v), lambda T: T(K(v, others))
    if r < .90:
        u = rng.choice(ts)
        p = bits(rng, u)
        return t, ('cast', u.key, p), lambda T: T(make(u, p))
    if r < .95:
        q = rng.choice((rng.uniform(-3, 3), '1/3', 12, '2.5'))
        op = rng.choice(('fp_add', 'fp_mul', '__lt__', '__eq__', '__truediv__'))
        return t, (op, a, str(q)), lambda T: getattr(M(T, a), op)(q)
    if r < .97:                             # the pattern of an invalid operation's result
        op = rng.choice((lambda x, z, i: z / z, lambda x, z, i: z % z, lambda x, z, i: z * i, lambda x, z, i: i - i, lambda x, z, i: z.fp_fma(i, x),
                         lambda x, z, i: (-abs(x)).fp_sqrt(), lambda x, z, i: x / z))
        e = ((1 << t.eb) - 1) << t.mb
        return t, ('pattern', a), lambda T: op(M(T, a), M(T, 0), M(T, e)).reinterpret_as_bv()
    k = rng.randrange(6)
    bad = rng.choice(BAD)
    u = rng.choice(ts)
    if k == 0: return t, ('raises', 'make', str(type(bad))), lambda T: T(bad)
    if k == 1: return t, ('raises', 'op', str(type(bad))), lambda T: M(T, a).fp_add(bad)
    if k == 2: return t, ('raises', 'width'), lambda T: T.reinterpret_from_bv(BitVector[t.size + 1](0))
    if k == 3: return t, ('raises', 'inf'), lambda T: (M(T, a) / M(T, 0)).to_ubv(4)
    if k == 4: return t, ('mixed', u.key, a), lambda T: M(T, a).fp_mul(make(u, 0))
    return t, ('raises', 'fma', str(type(bad))), lambda T: M(T, a).fp_fma(M(T, b), bad)


def outcome(f, T):
    """normalised observable outcome"""
    try:
        r = f(T)
    except Exception as e:
        return ('raised', type(e).__name__)
    if isinstance(r, FPVector):
        if type(r) is not T:
            return ('type', type(r).__name__)
        return ('nan',) if bool(r.fp_is_NaN()) else ('fp', r.reinterpret_as_bv().as_uint(), str(r.fp_is_subnormal()), str(r.fp_is_zero()))
    if isinstance(r, Bit):
        return ('bit', bool(r))
    if isinstance(r, BitVector):
        return ('bv', type(r).__name__, r.as_uint())
    return (type(r).__name__, repr(r))


def calm():
    gmpy2.set_context(gmpy2.context())


@group(2500, 60000)
def hostile_context(ctx, rng):
    """same calls under the default context and under a hostile one"""
    calm()
    ts = [some(rng) for _ in range(3)]
    work = [thunk(rng, ts) for _ in range(6)]
    base = [outcome(f, t.T) for t, n, f in work]
    try:
        c = contexts(rng)
        gmpy2.set_context(c)
        before = str(c)
        for (t, n, f), want in zip(work, base):
            got = outcome(f, t.T)
            after = str(gmpy2.get_context())
            ctx.check(gmpy2.get_context() is c and after == before, "the caller's context was changed",
                      lambda: f'{n} in {t.T.__name__}: {_diff(before, after)}')
            ctx.check(got == want, "result depends on the caller's context", lambda: f'{n} in {t.T.__name__}: {got}, with the default context {want}; context {before}')
            ctx.ev((t.key, n, got))
    finally:
        calm()
    ctx.sample(f'{[n for t, n, f in work]} under precision {c.precision}'[:250])


def _diff(a, b):
    x, y = a.replace('\n', ' ').split(','), b.replace('\n', ' ').split(',')
    return [(p.strip(), q.strip()) for p, q in zip(x, y) if p != q]


@group(400, 8000)
def bound_under_hostile_context(ctx, rng):
    """types first bound, or subclassed, while a hostile context is current"""
    calm()
    t = some(rng)
    idx = (t.eb, t.mb, MODES[t.mode], t.ieee)
    work = [w for w in (thunk(rng, [t]) for _ in range(8))]
    base = [outcome(f, t.T) for _, n, f in work]
    try:
        c = contexts(rng)
        gmpy2.set_context(c)
        before = str(c)

        class Fresh(FPVector): pass
        T = Fresh[idx]
        class Sub(T): pass
        ctx.check(gmpy2.get_context() is c and str(c) == before, "binding a type changed the caller's context", lambda: _diff(before, str(c)))
        if rng.random() < .5:
            calm()
        for U in (T, Sub):
            for (_, n, f), want in zip(work, base):
                if n[0] == 'mixed':
                    continue
                got = outcome(f, U)
                ctx.check(got == want, 'result depends on the context at binding', lambda: f'{n} in {U.__name__}: {got}, expected {want}')
                ctx.ev((t.key, n, got))
    finally:
        calm()
    ctx.sample(f'{t.key} bound under precision {c.precision}')


@group(1500, 30000)
def interleaved_formats(ctx, rng):
    """calls in many formats interleaved at random give what they give alone"""
    calm()
    ts = [some(rng) for _ in range(4)]
    work = [thunk(rng, ts) for _ in range(8)]
    base = [outcome(f, t.T) for t, n, f in work]
    order = list(range(8)) * 2
    rng.shuffle(order)
    for i in order:
        t, n, f = work[i]
        got = outcome(f, t.T)
        ctx.check(got == base[i], 'result depends on other formats used before', lambda: f'{n} in {t.T.__name__}: {got} then {base[i]}')
        ctx.ev((t.key, n, got))
    ctx.sample(f'{[n for t, n, f in work]}'[:250])


@group(2500, 50000)
def against_model(ctx, rng):
    """arithmetic under a hostile context against the rational model (not RNA: finding of F01)"""
    t = some(rng, mode=rng.choice(('RNE', 'RTP', 'RTN', 'RTZ')))
    F = t.F
    try:
        gmpy2.set_context(contexts(rng))
        b = [bits(rng, t) for _ in range(3)]
        x, y, z = (make(t, i) for i in b)
        v, w, u = (F.decode(i) for i in b)
        for name, r, want in (('add', x + y, F.add(v, w)), ('mul', x * y, F.mul(v, w)), ('div', x / y, F.div(v, w)),
                              ('fma', x.fp_fma(y, z), F.fma(v, w, u)), ('rem', x % y, F.rem(v, w)), ('sqrt', x.fp_sqrt(), F.sqrt(v)),
                              ('rint', x.fp_round_to_integral(), F.rint(v)), ('third', t.T('1/3'), F.rnd(fpk.Fraction(1, 3)))):
            fpk.expect(ctx, t, r, want, f'{name} under a hostile context', lambda: [hex(i) for i in b])
            ctx.ev((name, t.key, tuple(b)))
    finally:
        calm()
    ctx.sample(f'{t.T.__name__} {[hex(i) for i in b]}')


def stale(t):
    """leave negative (and positive) values in the memory MPFR will reuse"""
    T = t.T
    a, b = T(-2), T(2)
    neg = [a * b for _ in range(120)]
    del neg


@group(300, 6000)
def stale_memory(ctx, rng):
    """the same calls after other values of the format were freed"""
    calm()
    t = some(rng, formats=((5, 10), (8, 23), (2, 1), (3, 4)))
    work = [thunk(rng, [t]) for _ in range(6)]
    e = ((1 << t.eb) - 1) << t.mb
    Z, I, O = make(t, 0), make(t, e), make(t, 1 << t.mb)
    work += [(t, (n,), f) for n, f in (('0/0', lambda T: (Z / Z).reinterpret_as_bv()), ('0%0', lambda T: (Z % Z).reinterpret_as_bv()),
             ('0*inf', lambda T: (Z * I).reinterpret_as_bv()), ('inf-inf', lambda T: (I - I).reinterpret_as_bv()),
             ('fma', lambda T: Z.fp_fma(I, O).reinterpret_as_bv()), ('sqrt', lambda T: (-O).fp_sqrt().reinterpret_as_bv()),
             ('nan', lambda T: t.T('nan').reinterpret_as_bv()))]
    base = [outcome(f, t.T) for _, n, f in work]
    for rep in range(3):
        for (_, n, f), want in zip(work, base):
            if rep != 1 or rng.random() < .5:
                stale(t)
            got = outcome(f, t.T)
            ctx.check(got == want, 'result depends on values freed before', lambda: f'{n} in {t.T.__name__}: {got} then {want}')
            ctx.ev((t.key, n, got))
    ctx.sample(f'{[n for _, n, f in work]}'[:250])


@group(40, 800)
def threads(ctx, rng):
    """concurrent use from threads with contexts of their own"""
    calm()
    nt = rng.randint(2, 4)
    shared = [some(rng) for _ in range(2)]          # formats shared by all threads
    jobs = []
    for k in range(nt):
        ts = shared + [some(rng)]
        work = [thunk(rng, ts) for _ in range(30)]
        jobs.append((work, [outcome(f, t.T) for t, n, f in work], contexts(rng)))
    start, problems, seen = threading.Barrier(nt), [], []

    def run(k):
        work, base, c = jobs[k]
        gmpy2.set_context(c)
        before = str(c)
        start.wait()
        for rep in range(3):
            for (t, n, f), want in zip(work, base):
                got = outcome(f, t.T)
                seen.append((k, n, got))
                if got != want:
                    problems.append(('result depends on other threads', f'{n} in {t.T.__name__}: {got}, alone {want}'))
                    return
                if gmpy2.get_context() is not c or str(c) != before:
                    problems.append(("the caller's context was changed by concurrent use", f'{n} in {t.T.__name__}: {_diff(before, str(gmpy2.get_context()))}'))
                    return

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        th = [threading.Thread(target=run, args=(k,), daemon=True) for k in range(nt)]
        for x in th: x.start()
        for x in th: x.join(120)
    finally:
        sys.setswitchinterval(old)
    ctx.check(not any(x.is_alive() for x in th), 'a thread did not finish')
    if problems:
        ctx.check(False, *problems[0])
    switches = sum(1 for p, q in zip(seen, seen[1:]) if p[0] != q[0])
    for s in seen:
        ctx.ev(s)
    ctx.ev(tuple(s[0] for s in seen), 'interleaving')
    ctx.sample(f'{nt} threads, {len(seen)} calls, {switches} observed switches')
    ctx.check(str(gmpy2.get_context()) == str(gmpy2.context()), 'the main thread\'s context was changed')
