import gc
from hwtypes import SMTBit, SMTBitVector, RoundingMode
from hwtypes.smt_bit_vector import SMTSIntVector
from hwtypes.smt_fp_vector import SMTFPVector
from .core import group
from .smteval import evaluate

MODES = tuple(RoundingMode)
FP1 = ('fp_abs', 'fp_neg', 'fp_sqrt', 'fp_round_to_integral')
FP2 = ('fp_add', 'fp_sub', 'fp_mul', 'fp_div', 'fp_rem', 'fp_min', 'fp_max')
P1 = ('fp_is_normal', 'fp_is_subnormal', 'fp_is_zero', 'fp_is_infinite', 'fp_is_NaN', 'fp_is_negative', 'fp_is_positive')
P2 = ('fp_leq', 'fp_lt', 'fp_geq', 'fp_gt', 'fp_eq')
INFIX = {'+': ('fp_add', lambda a, b: a + b), '-': ('fp_sub', lambda a, b: a - b), '*': ('fp_mul', lambda a, b: a * b),
         '/': ('fp_div', lambda a, b: a / b), '%': ('fp_rem', lambda a, b: a % b)}
INFIX_P = {'<': ('fp_lt', lambda a, b: a < b), '<=': ('fp_leq', lambda a, b: a <= b), '>': ('fp_gt', lambda a, b: a > b),
           '>=': ('fp_geq', lambda a, b: a >= b), '==': ('fp_eq', lambda a, b: a == b)}

# what each function symbol stood for, over everything seen in this process
SYM2OP, OP2SYM = {}, {}


class Single(SMTFPVector):
    pass


class Half(SMTFPVector[5, 10, RoundingMode.RNE, True]):
    pass


class Half2(Half):
    pass


def node(v):
    return v.reinterpret_as_bv().value if isinstance(v, SMTFPVector) else v.value


def formats(rng):
    out = []
    for _ in range(3):
        eb, mb = ((rng.choice((2, 3, 4, 5, 8)), rng.choice((2, 3, 7, 10))) if rng.random() < .7
                  else rng.choice(((8, 23), (11, 52), (8, 7), (15, 112), (rng.randint(2, 15), rng.randint(1, 60)))))
        out.append((eb, mb, rng.choice(MODES), rng.random() < .5))
    eb, mb, mode, ieee = out[0]
    out += [(eb, mb, MODES[mode.value % 5], ieee), (eb, mb, mode, not ieee)]
    if mb > 2 and eb < 8:
        out.append((eb + 1, mb - 1, mode, ieee))       # same total width
    return list(dict.fromkeys(out))


def watch(ctx, r, T, op, args, rtype, width=None):
    """r must be T's function for op applied to exactly args"""
    what = f'{T.__name__}.{op}'
    ctx.check(type(r) is rtype, f'{op.split("[")[0]}: type of the result', lambda: f'{what}: {type(r)} expected {rtype}')
    n = node(r)
    ctx.check(n.is_function_application(), f'{op.split("[")[0]}: not a function application', lambda: f'{what}: {n}')
    ctx.check(tuple(n.args()) == tuple(node(a) for a in args), f'{op.split("[")[0]}: operands', lambda: f'{what}: {n} of {args}')
    f = n.function_name()
    ident = (T.__name__ if T in FIXED else T, op)
    ctx.check(SYM2OP.setdefault(f, ident) == ident, 'one function for two operations',
              lambda: f'{f} is {what} and {SYM2OP[f]}')
    ctx.check(OP2SYM.setdefault(ident, f) == f, 'two functions for one operation', lambda: f'{what}: {f} and {OP2SYM[ident]}')
    ctx.ev((T.__name__, op))
    return n


FIXED = set()
KEEP = []                                   # types stay alive: identities above are by type


def operations(ctx, rng, T, na=3):
    xs = [T() for _ in range(na)]
    if rng.random() < .5:
        xs.append(T(rng.getrandbits(T.size)))
    if rng.random() < .5:
        xs.append(xs[0].fp_add(xs[1]))
    if rng.random() < .3:                       # terms that print alike, cut off by pysmt
        bs = [xs[0].reinterpret_as_bv() - i for i in range(rng.randint(4, 9))]
        for x in xs[1:3]:
            v = x.reinterpret_as_bv()
            for w in bs:
                v = w - v
            xs.append(T.reinterpret_from_bv(v))
        xs = xs[-2:]
    if rng.random() < .7:                       # terms over terms, of the same operations again and again
        ops = rng.sample(FP1, rng.randint(1, 2)) + rng.sample(FP2, rng.randint(0, 2))
        for _ in range(rng.randint(1, 5)):
            x = xs[-1] if rng.random() < .6 else rng.choice(xs)
            op = rng.choice(ops)
            args = (x,) if op in FP1 else rng.choice(((x, rng.choice(xs)), (rng.choice(xs), x), (x, x)))
            y = getattr(x, op)() if op in FP1 else getattr(args[0], op)(args[1])
            watch(ctx, y, T, op, args, T)
            xs.append(y)
        xs = xs[-2:] if rng.random() < .6 else xs
    a, b, c = (rng.choice(xs) for _ in range(3))
    for op in FP1:
        n = watch(ctx, getattr(a, op)(), T, op, (a,), T)
        ctx.check(node(getattr(a, op)()) is n, 'same operation gives another term', op)
    for op in FP2:
        n = watch(ctx, getattr(a, op)(b), T, op, (a, b), T)
        ctx.check(node(getattr(a, op)(b)) is n, 'same operation gives another term', op)
    watch(ctx, a.fp_fma(b, c), T, 'fp_fma', (a, b, c), T)
    watch(ctx, -a, T, 'fp_neg', (a,), T)
    watch(ctx, abs(a), T, 'fp_abs', (a,), T)
    for sym, (op, f) in INFIX.items():
        watch(ctx, f(a, b), T, op, (a, b), T)
    for op in P1:
        watch(ctx, getattr(a, op)(), T, op, (a,), SMTBit)
    for op in P2:
        watch(ctx, getattr(a, op)(b), T, op, (a, b), SMTBit)
    for sym, (op, f) in INFIX_P.items():
        watch(ctx, f(a, b), T, op, (a, b), SMTBit)
    ne = a != b
    e = node(a == b)
    for truth in (False, True):                 # whatever the operands are: the one term ==, negated
        ctx.check(type(ne) is SMTBit and evaluate(ne.value, {}, {e: truth}) is (not truth), '!= is not the negation of ==', ne)
    for k in rng.sample((1, 2, 8, 16, 17, 32, T.size), 4):
        for op in ('to_ubv', 'to_sbv'):
            r = getattr(a, op)(k)
            watch(ctx, r, T, f'{op}[{k}]', (a,), SMTBitVector[k])
            ctx.check(r.size == k and r.value.bv_width() == k, 'width of a conversion', (op, k, r.size))
            ctx.check(getattr(a, op)(k).value is r.value, 'same operation gives another term', (op, k))


@group(120, 1500)
def terms(ctx, rng):
    Ts = [SMTFPVector[p] for p in formats(rng)] + [Single[p] for p in formats(rng)[:2]] + [Half, Half2]
    KEEP.extend(Ts)
    rng.shuffle(Ts)
    for T in Ts[:5]:
        operations(ctx, rng, T)
    ctx.sample(f'{[T.__name__ for T in Ts[:5]]}')


@group(400, 5000)
def reinterpretation(ctx, rng):
    T = rng.choice([SMTFPVector[p] for p in formats(rng)] + [Half])
    KEEP.append(T)
    n = T.size
    B = rng.choice((SMTBitVector, SMTSIntVector))[n]
    v = B()
    w = v + rng.randrange(1 << n)
    for x in (v, w, B(rng.randrange(1 << n))):
        f = T.reinterpret_from_bv(x)
        ctx.check(type(f) is T, 'type of a reinterpreted vector', type(f))
        r = f.reinterpret_as_bv()
        ctx.check(type(r) is SMTBitVector[n] and r.value is x.value, 'reinterpreting there and back', lambda: f'{x} -> {r}')
        ctx.check(node(T(f)) is x.value, 'copy of a float', f)
        ctx.ev((T.__name__, str(x.value)[:40]))
    f = T()
    ctx.check(node(T.reinterpret_from_bv(f.reinterpret_as_bv())) is node(f), 'reinterpreting back and there', f)
    c = rng.randrange(1 << n)
    ctx.eq(int(node(T(c)).constant_value()), c, 'pattern of a constant')
    for k in (n - 1, n + 1):
        bad = SMTBitVector[k]()
        ctx.raises(TypeError, lambda: T.reinterpret_from_bv(bad), 'vector of another width reinterpreted', (n, k))
    ctx.raises(TypeError, lambda: T('1.5'), 'a string was accepted')
    ctx.raises(TypeError, lambda: T(1.5), 'a float was accepted')
    ctx.raises(TypeError, lambda: T(None), 'None was accepted')
    other = SMTFPVector[T.exponent_size + 1, T.mantissa_size, T.mode, T.ieee_compliance]
    ctx.raises(TypeError, lambda: T(other()), 'a float of another format was accepted')
    ctx.sample(f'{T.__name__}: {str(w.value)[:60]}')


@group(60, 600)
def recreated_types(ctx, rng):
    """functions of equal definitions stay the same when types come and go"""
    p = (rng.choice((2, 3, 4)), rng.choice((2, 3, 4)), rng.choice(MODES), True)
    op = rng.choice(FP1)
    x = SMTBitVector[1 + p[0] + p[1]]()
    n1 = getattr(SMTFPVector[p].reinterpret_from_bv(x), op)().reinterpret_as_bv().value
    if rng.random() < .5:
        gc.collect()
    n2 = getattr(SMTFPVector[p].reinterpret_from_bv(x), op)().reinterpret_as_bv().value
    ctx.check(n1 is n2, 'the function of an operation changed', (p, op, str(n1), str(n2)))
    m = rng.choice([q for q in MODES if q is not p[2]])
    n3 = getattr(SMTFPVector[p[0], p[1], m, True].reinterpret_from_bv(x), op)().reinterpret_as_bv().value
    ctx.check(n3 is not n1, 'one function for two formats', (p, m, str(n1)))

    # classes of one name and different formats (two modules may both have one)
    cs = [type(SMTFPVector)('Number', (SMTFPVector[q],), {}) for q in {p, (p[0] + 1, p[1], p[2], True), (p[0], p[1], m, True)}]
    fs = [getattr(C(), op)().reinterpret_as_bv().value.function_name() for C in cs]
    ctx.check(len(set(fs)) == len(cs), 'one function for two formats', (fs, [C.binding for C in cs]))
    ctx.ev((p, op, m))
    ctx.sample(f'{op} of {p}')
