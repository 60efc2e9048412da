"""Random programs run in lockstep on a symbolic backend and, for each of a set
of assignments, on the concrete types.  A register is a symbolic value plus its
concrete values, one per assignment.  After every step the monitor evaluates the
symbolic result under every assignment."""
import hwtypes as ht
from hwtypes import Bit, BitVector, UIntVector, SIntVector
from .ref import *

METHODS = [o for o in BIN if o not in ('bvsdiv', 'bvsrem')]
CMPS = list(CMP)
ARITH = ['&', '|', '^', '+', '-', '*', '<<', '>>', '//', '%']
REL = ['==', '!=', '<', '<=', '>', '>=']


class IntLike:
    def __init__(self, v): self.v = v
    def __int__(self): return self.v
    def __repr__(self): return f'IntLike({self.v})'


class CWord(BitVector): pass
class CDelta(SIntVector): pass


class Reg:
    __slots__ = ('sym', 'conc', 'text')

    def __init__(self, sym, conc, text):
        self.sym, self.conc, self.text = sym, conc, text


class Backend:
    """KMAP: concrete kind -> symbolic kind;  SBit;  caps: set of features;
    evaluate(sym value, assignment index) -> int"""

    def sized(self, T):
        return self.extra.get(T) or (self.SBit if T is Bit else self.KMAP[T.unsized_t][T.size])

    extra = {}                 # concrete -> symbolic classes derived from a sized type


def conc_int(v):
    return int(v) if isinstance(v, Bit) else v.as_uint()


class Machine:
    def __init__(self, ctx, rng, be, nassign):
        self.ctx, self.rng, self.be, self.na = ctx, rng, be, nassign
        self.regs = []
        self.trace = []

    # -- inputs
    def inputs(self, n, widths):
        rng, be = self.rng, self.be
        for i in range(n):
            if rng.random() < .25:
                vals = [rng.getrandbits(1) for _ in range(self.na)]
                vals[:2] = [0, 1][:len(vals)]
                r = Reg(be.var(Bit, vals), [Bit(v) for v in vals], f'b{i}')
            else:
                K, w = rng.choice(list(be.KMAP)), rng.choice(widths)
                vals = [value(rng, w) for _ in range(self.na)]
                r = Reg(be.var(K[w], vals), [K[w](v) for v in vals], f'v{i}')
            self.regs.append(r)

    def bits(self):
        return [r for r in self.regs if isinstance(r.conc[0], Bit)]

    def vecs(self, T=None):
        return [r for r in self.regs if not isinstance(r.conc[0], Bit) and (T is None or type(r.conc[0]) is T)]

    # -- the monitor
    def watch(self, sym, conc, what, text, smt=None, finding=None):
        """compare a step's result; smt: values of the recorded deviation"""
        be, ctx = self.be, self.ctx
        T = type(conc[0])
        S = be.sized(T)
        if type(sym) is not S:
            ctx.check(False, f'{what}: type of the symbolic result', f'{text}: {type(sym)} instead of {S}')
        deviates = False
        for k, c in enumerate(conc):
            got, want = be.evaluate(sym, k), conc_int(c)
            if got != want:
                if smt is not None and got == smt[k]:
                    deviates = True
                    ctx.known_finding(finding, f'{text}: {got:#x} instead of {want:#x}')
                    continue
                ctx.check(False, f'{what}: value of the symbolic result',
                          f'{text} at assignment {k} {be.show(k)}: got {got:#x}, concrete {want:#x}; trace: {"; ".join(self.trace[-12:])}')
            ctx.ev((what, T.__name__, want))
        self.trace.append(text)
        return not deviates

    def keep(self, sym, conc, what, text):
        ok = self.watch(sym, conc, what, text)
        if ok and getattr(conc[0], 'size', 1) <= self.maxw:
            self.regs.append(Reg(sym, conc, f'r{len(self.regs)}'))
            self.trace[-1] = f'r{len(self.regs) - 1} = {text}'

    def apply(self, f, regs, what, text):
        """f applied to symbolic and to concrete operands"""
        sym = f(*[r.sym for r in regs])
        conc = [f(*[r.conc[k] for r in regs]) for k in range(self.na)]
        if isinstance(sym, tuple):
            self.ctx.check(len(sym) == len(conc[0]), f'{what}: number of results', text)
            for j in range(len(sym)):
                self.keep(sym[j], [c[j] for c in conc], f'{what}[{j}]', f'{text}[{j}]')
        else:
            self.keep(sym, conc, what, text)

    maxw = 140
    divisions = True           # watch signed // and % (recorded findings)

    def step(self):
        rng = self.rng
        vs, bs = self.vecs(), self.bits()
        r = rng.random()
        if vs and r < .8 or not bs:
            self.vec_step(rng.choice(vs))
        else:
            self.bit_step(rng.choice(bs))

    # -- steps on bits
    def bit_step(self, a):
        rng, be = self.rng, self.be
        r = rng.random()
        if r < .15:
            return self.apply(lambda x: ~x, [a], '~bit', f'~{a.text}')
        sym = rng.choice(('&', '|', '^', '==', '!='))
        P = rng.choice((PYOP, PYOP, PYOP, AUG))[sym]
        if r < .6:
            b = rng.choice(self.bits())
            return self.apply(P, [a, b], f'bit{sym}', f'{a.text} {sym} {b.text}')
        c = rng.choice((True, False, 0, 1))
        if r < .8:
            return self.apply(lambda x: P(x, c), [a], f'bit{sym}const', f'{a.text} {sym} {c!r}')
        if 'reflected' in be.caps:
            return self.apply(lambda x: P(c, x), [a], f'const{sym}bit', f'{c!r} {sym} {a.text}')
        if len(self.bits()) > 2:
            bs = [rng.choice(self.bits()) for _ in range(rng.randint(1, 9))]
            K = rng.choice(list(be.KMAP))
            return self.apply(lambda *xs: (K if isinstance(xs[0], Bit) else be.KMAP[K])[len(xs)](list(xs)), bs,
                              'vector of bits', f'{K.__name__}({[b.text for b in bs]})')

    # -- steps on vectors
    def vec_step(self, a):
        rng, be = self.rng, self.be
        T = type(a.conc[0])
        n, K = T.size, T.unsized_t
        r = rng.random()
        same = self.vecs(T)
        b = rng.choice(same)
        if r < .50 and rng.random() < .25:      # an operand of another kind
            b = rng.choice([v for v in self.vecs() if v.conc[0].size == n])
        cst = value(rng, n) if rng.random() < .8 else shift_amount(rng, n)
        if rng.random() < .3:
            cst = rng.choice((sgn(n, cst), cst + (1 << n), -cst, cst - (1 << (n + 3))))
        icst, lcst = cst, cst              # a plain integer, a left operand
        if r < .50 and rng.random() < .2:  # constants written otherwise
            lcst = rng.choice((IntLike(cst), bool(cst & 1)))
            cst = rng.choice((lcst, [(cst >> i) & 1 for i in range(n)], tuple(bool((cst >> i) & 1) for i in range(n)), T(cst),
                              BitVector[n](cst), Bit(cst & 1)))
        if r < .18:
            m = rng.choice(METHODS)
            if rng.random() < .65:
                return self.apply(lambda x, y: getattr(x, m)(y), [a, b], m, f'{a.text}.{m}({b.text})')
            return self.apply(lambda x: getattr(x, m)(cst), [a], f'{m} const', f'{a.text}.{m}({cst})')
        if r < .36:
            s = rng.choice(ARITH)
            P = rng.choice((PYOP, PYOP, PYOP, AUG))[s]
            if s in ('//', '%') and issubclass(K, SIntVector):
                return self.signed_div(a, b, s, icst)
            q = rng.random()
            if q < .5:
                # a base vector takes the reading of a signed right operand
                if s in ('//', '%') and isinstance(b.conc[0], SIntVector) and issubclass(type(b.conc[0]).unsized_t, K):
                    return self.signed_div(a, b, s)
                return self.apply(P, [a, b], s, f'{a.text} {s} {b.text}')
            if q < .75 or 'reflected' not in be.caps:
                return self.apply(lambda x: P(x, cst), [a], f'{s} const', f'{a.text} {s} {cst}')
            return self.apply(lambda x: P(lcst, x), [a], f'const {s}', f'{lcst} {s} {a.text}')
        if r < .50:
            if rng.random() < .5:
                m = rng.choice(CMPS + ['bvcomp'])
                if rng.random() < .65:
                    return self.apply(lambda x, y: getattr(x, m)(y), [a, b], m, f'{a.text}.{m}({b.text})')
                return self.apply(lambda x: getattr(x, m)(cst), [a], f'{m} const', f'{a.text}.{m}({cst})')
            s = rng.choice(REL)
            q = rng.random()
            if q < .5:
                return self.apply(PYOP[s], [a, b], s, f'{a.text} {s} {b.text}')
            if q < .75:
                return self.apply(lambda x: PYOP[s](x, cst), [a], f'{s} const', f'{a.text} {s} {cst}')
            return self.apply(lambda x: PYOP[s](lcst, x), [a], f'const {s}', f'{lcst} {s} {a.text}')
        if r < .56:
            return self.apply(lambda x: (~x, -x, x.bvnot(), x.bvneg()), [a], 'unary', f'~,- {a.text}')
        if r < .62:
            i = rng.randrange(-n, n)
            return self.apply(lambda x: x[i], [a], 'index', f'{a.text}[{i}]')
        if r < .70:
            i = rng.randrange(n)
            j = rng.randint(i + 1, n)
            si = rng.choice((i, i - n) if i else (0, None, -n, -n - rng.randint(1, 9)))
            sj = rng.choice((j, j - n) if j < n else (n, None, n + 5))
            return self.apply(lambda x: x[si:sj], [a], 'slice', f'{a.text}[{si}:{sj}]')
        if r < .76:
            o = rng.choice([v for v in self.vecs() if type(v.conc[0]).unsized_t is K])
            if n + o.conc[0].size <= self.maxw:
                return self.apply(lambda x, y: x.concat(y), [a, o], 'concat', f'{a.text}.concat({o.text})')
            return
        if r < .83:
            m, k = rng.choice(('zext', 'sext', 'ext')), rng.choice((0, 1, 2, 3, 8, 13, rng.randint(1, 40)))
            return self.apply(lambda x: getattr(x, m)(k), [a], m, f'{a.text}.{m}({k})')
        if r < .86:
            k = rng.choice((1, 2, 3, rng.randint(2, 9)))
            if n * k <= self.maxw:
                return self.apply(lambda x: x.repeat(k), [a], 'repeat', f'{a.text}.repeat({k})')
            return
        if r < .91:
            m = rng.choice(('bvrol', 'bvror'))
            if 'symbolic rotation' in be.caps and rng.random() < .6:
                return self.apply(lambda x, y: getattr(x, m)(y), [a, b], m, f'{a.text}.{m}({b.text})')
            k = rng.choice((0, 1, n - 1, n, n + 1, 2 * n + 1, -1, -n - 1, 1 << n, (1 << n) + 1, rng.randint(0, n)))
            return self.apply(lambda x: getattr(x, m)(k), [a], m + ' const', f'{a.text}.{m}({k})')
        if r < .95:
            bs = self.bits()
            if bs and rng.random() < .7:
                c = rng.choice(bs)
                return self.apply(lambda x, y, z: x.adc(y, z), [a, b, c], 'adc', f'{a.text}.adc({b.text}, {c.text})')
            c = rng.choice((0, 1))
            return self.apply(lambda x: x.adc(cst, c), [a], 'adc const', f'{a.text}.adc({cst}, {c})')
        if r < .975:
            bs = self.bits()
            if bs:
                s = rng.choice(bs)
                return self.apply(lambda x, y, z: x.ite(y, z), [s, a, b], 'ite', f'{s.text}.ite({a.text}, {b.text})')
            return self.apply(lambda x, y: x.ite(x, y), [a, b], 'vector ite', f'{a.text}.ite({a.text}, {b.text})')
        # construction: from a bit, from another width or kind
        K2 = rng.choice(list(be.KMAP))
        if self.bits() and rng.random() < .4:
            s = rng.choice(self.bits())
            return self.apply(lambda x: (K2 if isinstance(x, Bit) else be.KMAP[K2])[n](x), [s], 'vector of bit', f'{K2.__name__}[{n}]({s.text})')
        w = rng.choice((n, n + 3, max(1, n - 2), 1))
        return self.apply(lambda x: (K2 if isinstance(x, BitVector) else be.KMAP[K2])[w](x), [a], 'conversion', f'{K2.__name__}[{w}]({a.text})')

    def signed_div(self, a, b, s, cst=None):
        """// and % on signed vectors: watched, never fed on (recorded findings)"""
        if not self.divisions:
            return
        rng, be = self.rng, self.be
        n = a.conc[0].size
        op = {'//': 'bvsdiv', '%': 'bvsrem'}.get(s, s)
        q = rng.random()
        f = PYOP[s] if s in PYOP else lambda x, y: getattr(x, s)(y)
        if q < .5 or cst is None:
            f1, regs, text = f, [a, b], f'{a.text} {s} {b.text}'
            ops = [(x.as_uint(), y.as_uint()) for x, y in zip(a.conc, b.conc)]
        elif q < .75 or 'reflected' not in be.caps or s not in PYOP:
            f1, regs, text = lambda x: f(x, cst), [a], f'{a.text} {s} {cst}'
            ops = [(x.as_uint(), cst & mask(n)) for x in a.conc]
        else:
            f1, regs, text = lambda x: f(cst, x), [a], f'{cst} {s} {a.text}'
            ops = [(cst & mask(n), x.as_uint()) for x in a.conc]
        sym = f1(*[r.sym for r in regs])
        conc = [f1(*[r.conc[k] for r in regs]) for k in range(self.na)]
        smt = [(smt_sdiv if op == 'bvsdiv' else smt_srem)(n, x, y) for x, y in ops]
        fid = be.findings.get(op)
        self.watch(sym, conc, f'signed {s}', text, smt if fid else None, fid)


def run_program(ctx, rng, be, steps=(8, 22), nassign=6, widths=None):
    hi = 72 if rng.random() < .92 else 300
    widths = widths or [width(rng, hi=hi) for _ in range(2)] + [rng.randint(1, 5)]
    m = Machine(ctx, rng, be, nassign)
    m.maxw = max(m.maxw, 2 * max(widths))
    m.inputs(rng.randint(3, 6), widths)
    for r in m.regs:
        m.watch(r.sym, r.conc, 'input', r.text)
    for _ in range(rng.randint(*steps)):
        m.step()
    ctx.sample(f'{len(m.trace)} steps: ' + '; '.join(m.trace[-4:]))
    return m


def run_derived(ctx, rng, be, nassign):
    """classes derived from a sized type, with each other, the sized type and constants"""
    n, K = width_like(rng, (1, 2, 3, 8, 17, 33, 64, 65)), rng.choice(list(be.KMAP))
    B = K[n]
    class C(B): pass
    class S(be.KMAP[K][n]): pass
    be.extra = {C: S}
    m = Machine(ctx, rng, be, nassign)
    signed = issubclass(K, SIntVector)
    for i, T in enumerate((C, C, B)):
        vals = [value(rng, n) for _ in range(nassign)]
        m.regs.append(Reg(be.var(T, vals), [T(v) for v in vals], 'cdb'[i]))
    for _ in range(10):
        a = rng.choice(m.vecs(C))
        b = rng.choice(m.vecs(C) + m.vecs(B))
        if rng.random() < .5 and type(b.conc[0]) is B:
            a, b = b, a
        v = value(rng, n)
        c = rng.choice((v, sgn(n, v), v + (1 << n)))
        r = rng.random()
        if r < .35:
            op = rng.choice(METHODS + CMPS)
            m.apply(lambda x, y: getattr(x, op)(y), [a, b], op, f'{a.text}.{op}({b.text})')
            m.apply(lambda x: getattr(x, op)(c), [a], op + ' const', f'{a.text}.{op}({c})')
        elif r < .8:
            s = rng.choice([s for s in ARITH + REL if not (signed and s in ('//', '%'))])
            m.apply(PYOP[s], [a, b], s, f'{a.text} {s} {b.text}')
            m.apply(lambda x: PYOP[s](x, c), [a], s + ' const', f'{a.text} {s} {c}')
            if 'reflected' in be.caps or s in REL:
                m.apply(lambda x: PYOP[s](c, x), [a], 'const ' + s, f'{c} {s} {a.text}')
        elif r < .9:
            i = rng.randrange(-n, n)
            m.apply(lambda x: (~x, -x, x[i]), [a], 'unary', f'~, -, [{i}] {a.text}')
        else:
            a, b = rng.choice(m.vecs(C)), rng.choice(m.vecs(C))
            m.apply(lambda x, y: x.ite(x, y), [a, b], 'vector ite', f'{a.text}.ite({a.text}, {b.text})')
            if m.bits():
                s = rng.choice(m.bits())
                m.apply(lambda x, y, z: x.ite(y, z), [s, a, b], 'ite', f'{s.text}.ite({a.text}, {b.text})')
    ctx.sample(f'class derived from {be.KMAP[K].__name__}[{n}]: ' + '; '.join(m.trace[-4:]))


def lookalikes(m, rng, T, depth, n=2):
    """n different registers of type T whose terms have one shape and differ at
    the bottom only, where printing them cuts them off"""
    be, na = m.be, m.na
    ctx = m.ctx
    val = lambda: rng.getrandbits(1) if T is Bit else value(rng, T.size)
    new = lambda t: (lambda vals: Reg(be.var(T, vals), [T(v) for v in vals], t))([val() for _ in range(na)])
    over = [new(f'o{i}') for i in range(3)]
    steps = [(rng.choice('^' if T is Bit else '-^'), rng.choice(over)) for _ in range(depth)]
    out = []
    for i in range(n):
        r = new(f'l{i}')
        for s, o in steps:
            r = Reg(PYOP[s](r.sym, o.sym), [PYOP[s](a, b) for a, b in zip(r.conc, o.conc)], f'deep(l{i})')
        m.watch(r.sym, r.conc, 'deep term', r.text)
        out.append(r)
    return out, over


def run_lookalikes(ctx, rng, be, nassign, depth):
    """each operation on terms that print alike"""
    m = Machine(ctx, rng, be, nassign)
    n, K = width_like(rng, (1, 2, 4, 8, 17, 33)), rng.choice(list(be.KMAP))
    T = K[n]
    ls, over = lookalikes(m, rng, T, depth)
    bs, _ = lookalikes(m, rng, Bit, depth)
    o = over[0]
    c = value(rng, n)
    k = rng.randint(0, 4)
    i = rng.randrange(n)
    signed = issubclass(K, SIntVector)
    def on(f, regs, what):
        for l in regs:
            if isinstance(l, tuple):
                m.apply(f, list(l), what, f'{what} of {[x.text for x in l]}')
            else:
                m.apply(f, [l], what, f'{what} of {l.text}')
    pairs = [(l, o) for l in ls] + [(o, l) for l in ls] + [tuple(ls), tuple(ls[::-1])]
    for op in rng.sample(METHODS + CMPS + ['bvcomp'], 8):
        on(lambda x, y: getattr(x, op)(y), pairs, op)
        on(lambda x: getattr(x, op)(c), ls, op + ' const')
    for s in rng.sample(ARITH + REL, 6):
        if s not in ('//', '%') or not signed:
            on(PYOP[s], pairs, s)
    for what, f in (('index', lambda x: x[i]), ('slice', lambda x: x[i:]), ('zext', lambda x: x.zext(k)), ('sext', lambda x: x.sext(k)),
                    ('bvrol', lambda x: x.bvrol(k)), ('repeat', lambda x: x.repeat(k + 1)), ('unary', lambda x: (~x, -x))):
        on(f, ls, what)
    on(lambda x, y: x.concat(y), pairs, 'concat')
    on(lambda b, x, y: b.ite(x, y), [(b, x, y) for b in bs for x, y in ((ls[0], ls[1]), (ls[1], o))], 'ite')
    on(lambda x, y, b: x.adc(y, b), [(x, y, b) for b in bs for x, y in pairs[:2]], 'adc')
    bp = [tuple(bs), tuple(bs[::-1]), (bs[0], bs[0])]
    for s in ('&', '|', '^', '==', '!='):
        on(PYOP[s], bp, f'bit{s}')
    on(lambda b: ~b, bs, '~bit')
    ctx.sample(f'operations on {T.__name__} terms that print as {str(ls[0].sym.value)[:120]}')


STRANGERS = (None, object(), {}, {1}, Ellipsis, len, iter(()))


def run_strangers(ctx, rng, xs, arith, rel):
    """operands that are no number, bit or sequence of bits: an error, and == False, never a symbolic result"""
    for x in xs:
        for o in rng.sample(STRANGERS, 3):
            for s in arith + [r for r in rel if r not in ('==', '!=')]:
                ctx.raises(TypeError, lambda: PYOP[s](x, o), 'operand of no use', lambda: f'{type(x).__name__} {s} {o!r}')
                ctx.raises(TypeError, lambda: PYOP[s](o, x), 'operand of no use', lambda: f'{o!r} {s} {type(x).__name__}')
            for a, b in ((x, o), (o, x)):
                for s in ('==', '!='):
                    try:
                        r = PYOP[s](a, b)
                    except TypeError:
                        continue
                    ctx.check(r is (s == '!='), 'compared with something of no use', lambda: f'{a!r} {s} {b!r} gave {r!r}')
            ctx.ev((type(x).__name__, type(o).__name__, 'stranger'))
