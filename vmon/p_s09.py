import operator
import z3
from hwtypes import (Bit, BitVector, UIntVector, SIntVector, SMTBit, SMTBitVector, SMTInt, z3Bit, z3BitVector,
                     FPVector, RoundingMode)
from hwtypes.smt_bit_vector import SMTUIntVector, SMTSIntVector
from hwtypes.z3_bit_vector import z3UIntVector, z3SIntVector
from hwtypes.smt_fp_vector import SMTFPVector
from .core import group, Violation
from .ref import *
from .smteval import evaluate

FMT = (5, 10, RoundingMode.RNE, True)
SFP, CFP = SMTFPVector[FMT], FPVector[FMT]
CK = (BitVector, UIntVector, SIntVector)
SK = {'smt': (SMTBitVector, SMTUIntVector, SMTSIntVector), 'z3': (z3BitVector, z3UIntVector, z3SIntVector)}
SB = {'smt': SMTBit, 'z3': z3Bit}
SIGNED = (SMTSIntVector, z3SIntVector)
FAMILY = {'smt': (SMTBit, SMTBitVector), 'z3': (z3Bit, z3BitVector)}


class Env:
    def __init__(self, backend, na=4):
        self.backend, self.na = backend, na
        self.envs = [{} for _ in range(na)]
        self.subs = [[] for _ in range(na)]
        self.keep = []

    def bind(self, v, vals):
        self.keep.append(v)
        for k, x in enumerate(vals):
            if self.backend == 'smt':
                self.envs[k][v.value.symbol_name()] = bool(x) if isinstance(v, SMTBit) else x
            else:
                self.subs[k].append((v.value, z3.BoolVal(bool(x)) if isinstance(v, z3Bit) else z3.BitVecVal(x, v.size)))
        return v

    def value(self, v, k):
        if self.backend == 'smt':
            return int(evaluate(v.value, self.envs[k]))
        r = z3.simplify(z3.substitute(v.value, *self.subs[k]))
        return r.as_long() if z3.is_bv_value(r) else int(z3.is_true(r))


def symbolics(rng):
    n = width_like(rng, (1, 2, 8, 33))
    out = [SMTBit(), SMTBit(0), SMTBit(1), ~SMTBit(), SMTInt(), SMTInt(0), SMTInt(5), SMTInt() + 1, SFP(), SFP(0), z3Bit(), z3Bit(1),
           z3Bit(0)]
    for K in SK['smt'] + SK['z3']:
        v = K[n]()
        out += [v, v + 1, K[n](0), K[n](1), v == 1, v[0], v[0:1]]
    return n, out


@group(200, 2500)
def no_truth_value(ctx, rng):
    n, vs = symbolics(rng)
    for v in vs:
        T = type(v).__name__
        ctx.raises(TypeError, lambda: bool(v), 'truth value of a symbolic value', T)
        ctx.raises(TypeError, lambda: not v, 'not of a symbolic value', T)
        ctx.raises(TypeError, lambda: 1 if v else 0, 'if on a symbolic value', T)
        ctx.raises(TypeError, lambda: v and 1, 'and on a symbolic value', T)
        ctx.raises(TypeError, lambda: int(v), 'int of a symbolic value', T)
        ctx.raises(TypeError, lambda: float(v), 'float of a symbolic value', T)
        ctx.raises(TypeError, lambda: range(v), 'index of a symbolic value', T)
        ctx.raises(TypeError, lambda: any([v]), 'any() of a symbolic value', T)
        if isinstance(v, (SMTBitVector, z3BitVector)):
            w = type(v)()
            ctx.raises(TypeError, lambda: max(v, w), 'max() of symbolic values', T)
            ctx.raises(TypeError, lambda: w in [v], 'membership among symbolic values', T)
        ctx.ev((T, repr(v)[:30].rstrip('0123456789)')))
    ctx.sample(f'{len(vs)} symbolic values of width {n}')


@group(200, 2500)
def no_concrete_construction(ctx, rng):
    n, vs = symbolics(rng)
    for v in vs:
        T = type(v).__name__
        ctx.raises(TypeError, lambda: Bit(v), 'Bit built from a symbolic value', T)
        m = getattr(v, 'size', n)
        for K in CK:
            for k in {m, n, m + 1}:
                ctx.raises(TypeError, lambda: K[k](v), 'vector built from a symbolic value', (T, K.__name__, k))
                ctx.raises(TypeError, lambda: K.make_constant(v, k), 'constant made from a symbolic value', (T, K.__name__, k))
            ctx.raises(TypeError, lambda: K(v), 'vector built from a symbolic value', (T, K.__name__))
            ctx.raises(TypeError, lambda: K[2]([v, 0]), 'vector built from symbolic bits', (T, K.__name__))
            c = K[n](3)
            ctx.raises((TypeError, ValueError), lambda: c.__setitem__(0, v), 'symbolic bit written into a vector', (T, K.__name__))
            ctx.eq(c.as_uint(), 3 & mask(n), 'a rejected write changed the vector')
        ctx.raises(TypeError, lambda: CFP(v), 'float built from a symbolic value', T)
        ctx.ev((T, n))
    ctx.sample(f'{len(vs)} symbolic values of width {n}')


def outcome(f):
    """('raised', TypeError) or ('value', v)"""
    try:
        return True, f()
    except TypeError as e:
        return False, e


def judge(ctx, env, r, vals, S, size, what):
    """a result, if there is one, is symbolic and has the constant's meaning"""
    ok, v = r
    if not ok:
        ctx.ev((what[0], 'raises'), 'raised')
        return
    bit = size == 0
    fam = FAMILY[env.backend]
    if bit:
        ctx.check(isinstance(v, fam[0]), 'operator between concrete and symbolic: result', lambda: f'{what}: {type(v)} {v!r}')
    else:
        ctx.check(isinstance(v, fam[1]) and v.size == size and issubclass(type(v), S.unsized_t),
                  'operator between concrete and symbolic: result', lambda: f'{what}: {type(v)} {v!r}')
    for k in range(env.na):
        g = env.value(v, k)
        ctx.check(g == vals[k], 'operator between concrete and symbolic: value', lambda: f'{what}: {g:#x} expected {vals[k]:#x}')
    ctx.ev((what[0], tuple(vals)), 'symbolic')


@group(500, 8000)
def vector_operators(ctx, rng):
    back = rng.choice(('smt', 'smt', 'z3'))
    env = Env(back)
    n = width_like(rng, (1, 2, 3, 8, 17, 64))
    S = rng.choice(SK[back])[n]
    sv = [value(rng, n) for _ in range(env.na)]
    s = env.bind(S(), sv)
    a = value(rng, n)
    C = rng.choice(CK)[n]
    c = C(a)
    signed = issubclass(S, SIGNED)
    for sym, ops in INFIX.items():
        if sym in ('//', '%') and signed:
            continue
        op = ops[signed]
        judge(ctx, env, outcome(lambda: PYOP[sym](s, c)), [binop(op, n, x, a) for x in sv], S, n, (f'{back} {sym} concrete', S.__name__, repr(c)))
        judge(ctx, env, outcome(lambda: PYOP[sym](c, s)), [binop(op, n, a, x) for x in sv], S, n, (f'concrete {sym} {back}', S.__name__, repr(c)))
    for sym, ops in INFIX_CMP.items():
        op = ops[signed]
        judge(ctx, env, outcome(lambda: PYOP[sym](s, c)), [int(CMP[op](n, x, a)) for x in sv], S, 0, (f'{back} {sym} concrete', S.__name__, repr(c)))
        judge(ctx, env, outcome(lambda: PYOP[sym](c, s)), [int(CMP[op](n, a, x)) for x in sv], S, 0, (f'concrete {sym} {back}', S.__name__, repr(c)))
    for op in BIN:
        if op in ('bvsdiv', 'bvsrem'):
            continue
        judge(ctx, env, outcome(lambda: getattr(s, op)(c)), [binop(op, n, x, a) for x in sv], S, n, (f'{back} {op} concrete', S.__name__, repr(c)))
        ctx.raises(TypeError, lambda: getattr(c, op)(s), 'method of a concrete vector took a symbolic operand', (op, S.__name__))
    for op in CMP:
        judge(ctx, env, outcome(lambda: getattr(s, op)(c)), [int(CMP[op](n, x, a)) for x in sv], S, 0, (f'{back} {op} concrete', S.__name__, repr(c)))
        ctx.raises(TypeError, lambda: getattr(c, op)(s), 'method of a concrete vector took a symbolic operand', (op, S.__name__))
    for bad in (lambda: c.adc(s, Bit(0)), lambda: c.concat(s), lambda: c.bvrol(s), lambda: c.bvror(s), lambda: c.zext(s),
                lambda: c.sext(s), lambda: c.repeat(s), lambda: c[s], lambda: c[:s]):
        ctx.raises(TypeError, bad, 'concrete vector took a symbolic operand', (C.__name__, S.__name__))
    for bad in (lambda: c.adc(C(0), SB[back]()), lambda: s.concat(c), lambda: s.zext(s), lambda: s[s]):
        ctx.raises((TypeError, z3.Z3Exception), bad, 'concrete vector took a symbolic operand', (C.__name__, S.__name__))
    ctx.sample(f'{S.__name__} with {c!r}')


@group(250, 3000)
def bit_operators(ctx, rng):
    back = rng.choice(('smt', 'z3'))
    env = Env(back, 2)
    s = env.bind(SB[back](), [0, 1])
    for x in (0, 1):
        c = Bit(x)
        for sym, f in (('&', lambda a, b: a & b), ('|', lambda a, b: a | b), ('^', lambda a, b: a ^ b),
                       ('==', lambda a, b: int(a == b)), ('!=', lambda a, b: int(a != b))):
            judge(ctx, env, outcome(lambda: PYOP[sym](s, c)), [f(v, x) for v in (0, 1)], None, 0, (f'{back} {sym} Bit', x))
            judge(ctx, env, outcome(lambda: PYOP[sym](c, s)), [f(x, v) for v in (0, 1)], None, 0, (f'Bit {sym} {back}', x))
    # across the two symbolic backends nothing is silently compared
    o = SB['z3' if back == 'smt' else 'smt']()
    n = rng.choice((1, 8))
    p, q = rng.choice(SK['smt'])[n](), rng.choice(SK['z3'])[n]()
    for sym in ('&', '|', '^', '==', '!='):
        ctx.raises(TypeError, lambda: PYOP[sym](s, o), 'operator across symbolic backends', (back, sym))
        ctx.raises(TypeError, lambda: PYOP[sym](o, s), 'operator across symbolic backends', (back, sym))
        ctx.raises(TypeError, lambda: PYOP[sym](p, q), 'operator across symbolic backends', (sym,))
        ctx.raises(TypeError, lambda: PYOP[sym](q, p), 'operator across symbolic backends', (sym,))
    for sym in ('+', '-', '*', '<<', '>>', '//', '%', '<', '<=', '>', '>='):
        ctx.raises(TypeError, lambda: PYOP[sym](p, q), 'operator across symbolic backends', (sym,))
        ctx.raises(TypeError, lambda: PYOP[sym](q, p), 'operator across symbolic backends', (sym,))
    ctx.sample(f'{back} bit with Bit; {type(p).__name__} with {type(q).__name__}')


def families(rng, n):
    K = rng.randrange(3)
    return {'concrete': (Bit(rng.getrandbits(1)), CK[K][n](value(rng, n)), CK[K][n](value(rng, n)), Bit(rng.getrandbits(1))),
            'smt': (SMTBit(), SK['smt'][K][n](), SK['smt'][K][n](), SMTBit()),
            'z3': (z3Bit(), SK['z3'][K][n](), SK['z3'][K][n](), z3Bit())}


FAMS = {'concrete': (Bit, BitVector), 'smt': FAMILY['smt'], 'z3': FAMILY['z3']}


@group(300, 4000)
def ite_families(ctx, rng):
    """whatever ite returns has one family throughout, and really holds it"""
    n = width_like(rng, (1, 2, 8, 33))
    fs = families(rng, n)
    for sf, (sel, svec, _, _) in fs.items():
        for tf in fs:
            for ff in fs:
                if sf == tf == ff:
                    continue
                for t, f in ((fs[tf][1], fs[ff][2]), (fs[tf][0], fs[ff][3]), ((fs[tf][1], fs[tf][0]), (fs[ff][2], fs[ff][3]))):
                    for s in (sel, svec):
                        try:
                            r = s.ite(t, f)
                        except Exception:
                            ctx.ev((sf, tf, ff, type(t).__name__), 'raised')
                            continue
                        one_family(ctx, r, (sf, tf, ff, type(t).__name__, repr(r)[:120]))
                        ctx.ev((sf, tf, ff, type(t).__name__), 'value')
    ctx.sample(f'every choice of families for select and branches, width {n}')


def one_family(ctx, r, what):
    if isinstance(r, tuple):
        for x in r:
            one_family(ctx, x, what)
        return
    fam = [k for k, (B, V) in FAMS.items() if isinstance(r, (B, V))]
    ctx.check(len(fam) == 1, 'ite gave a value of several families', what)
    k = fam[0]
    if k == 'concrete':
        if isinstance(r, Bit):
            ctx.check(type(bool(r)) is bool, 'ite gave a concrete bit holding something symbolic', what)
        else:
            ctx.check(type(r.as_uint()) is int and 0 <= r.as_uint() <= mask(r.size), 'ite gave a concrete vector holding something symbolic', what)
    elif k == 'smt':
        import pysmt.fnode
        ctx.check(isinstance(r.value, pysmt.fnode.FNode), 'ite gave an SMT value holding something else', what)
    else:
        ctx.check(isinstance(r.value, z3.ExprRef), 'ite gave a z3 value holding something else', what)
    # and the sizes of tuple elements etc. are those of the branches
    ctx.check(not hasattr(r, 'size') or type(r.size) is int, 'size', what)
