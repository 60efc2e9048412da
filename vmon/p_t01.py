import gc
import itertools
import types
import warnings
import hwtypes as ht
from hwtypes import (BitVector, UIntVector, SIntVector, SMTBitVector, z3BitVector, FPVector, RoundingMode)
from hwtypes.bit_vector import NumVector
from hwtypes.bit_vector_abc import AbstractBitVector
from hwtypes.smt_bit_vector import SMTNumVector, SMTUIntVector, SMTSIntVector
from hwtypes.z3_bit_vector import z3NumVector, z3UIntVector, z3SIntVector
from hwtypes.smt_fp_vector import SMTFPVector
from hwtypes.fp_vector_abc import AbstractFPVector
from .core import group

BASES = (BitVector, NumVector, UIntVector, SIntVector, SMTBitVector, SMTNumVector, SMTUIntVector, SMTSIntVector,
         z3BitVector, z3NumVector, z3UIntVector, z3SIntVector, AbstractBitVector)
MODES = tuple(RoundingMode)


class Mixin:
    def tag(self): return 'mixin'


def mk(name, *bases):
    # class statement with dynamic bases, inside a function
    return types.new_class(name, bases, {}, lambda ns: ns.update(__qualname__=f'mk.<locals>.{name}'))


def refined(rng, *bases):
    """a kind whose metaclass refines its base's"""
    M = types.new_class('UserMeta', (type(bases[0]),), {})
    return types.new_class(rng.choice(('Meta', 'Word')), bases, {'metaclass': M})


def lattice(rng):
    """a fresh set of kinds: library kinds plus user subclasses of them"""
    kinds = list(rng.sample(BASES, rng.randint(3, len(BASES))))
    for i in range(rng.randint(2, 6)):
        K = rng.choice(kinds)
        r = rng.random()
        name = rng.choice((f'User{i}x{rng.randrange(100)}', 'Word', 'Word', 'word', 'BitVector'))
        if r < .15:
            kinds.append(refined(rng, K))
        elif r < .7:
            kinds.append(mk(name, K))
        elif r < .85:
            kinds.append(mk(name, *((K, Mixin) if issubclass(K, Mixin) or rng.random() < .5 else (Mixin, K))))
        else:
            L = rng.choice(kinds)
            if issubclass(L, K) or issubclass(K, L):
                kinds.append(mk(name, K))
            else:
                try:
                    kinds.append(mk(name, K, L))
                except TypeError:               # no consistent method order
                    pass
    for K in rng.sample(kinds, 2):              # the same name, place and bases once more
        if K not in BASES:
            kinds.append(mk(K.__name__, *K.__bases__))
    return kinds


def check_sized(ctx, T, K, n):
    w = (K.__name__, n)
    ctx.check(T is K[n], 'indexing twice gives different types', w)
    ctx.check(type(T.size) is int and T.size == n and T.is_sized is True and len(T) == n, 'size of a sized type', w)
    ctx.eq(T.__name__, f'{K.__name__}[{n}]', 'name of a sized type', w)
    ctx.check(T.unsized_t is K, 'unsized_t of a sized type', w)
    ctx.check(issubclass(T, K) and type(T) is type(K), 'sized type is not a subclass of its kind', w)
    ctx.eq(T.__module__, K.__module__, 'module of a sized type', w)
    ctx.check(K.is_sized is False and K.size is None and K.unsized_t is K, 'kind changed by indexing', w)
    ctx.ev(w)


@group(500, 10000)
def hierarchy(ctx, rng):
    kinds = lattice(rng)
    sizes = rng.sample((0, 1, 2, 3, 7, 8, 9, 16, 31, 32, 64, 65, 128, 255, 256, 1000, 4096, 65535, 65536, 65537, 1 << 20, (1 << 31) - 1, 1 << 32, (1 << 40) + 8), 3)
    pairs = [(K, n) for K in kinds for n in sizes]
    rng.shuffle(pairs)                          # creation order
    types = {}
    for K, n in pairs:
        types[K, n] = K[n]
    for (K, n), T in types.items():
        check_sized(ctx, T, K, n)
        ctx.check(types[K, n] is T, 'identity', n)
        if K is not AbstractBitVector and issubclass(K, Mixin):
            ctx.eq(T.tag(None), 'mixin', 'user method lost on the sized type')
    for K, L in itertools.product(kinds, repeat=2):
        for n in sizes:
            for m in sizes:
                want = issubclass(K, L) and n == m
                ctx.check(issubclass(types[K, n], types[L, m]) is want, 'relation of sized types',
                          f'issubclass({K.__name__}[{n}], {L.__name__}[{m}]) should be {want}')
                ctx.check((types[K, n] is types[L, m]) is (K is L and n == m), 'distinct types share one class', (K, L, n, m))
                ctx.check(issubclass(types[K, n], L) is issubclass(K, L), 'relation to unsized kind', (K, L, n))
                ctx.check(not issubclass(L, types[K, n]), 'unsized kind under a sized type', (K, L, n))
    ctx.sample(f'{[k.__name__ for k in kinds]} at {sizes}')


BAD = ((8.0, TypeError), ('8', TypeError), (None, TypeError), ((8,), TypeError), ([8], TypeError), (-1, ValueError),
       (-8, ValueError), (slice(0, 8), TypeError), (1.0, TypeError))


@group(300, 5000)
def invalid(ctx, rng):
    """rejections do not depend on what was created or collected before"""
    K = rng.choice(BASES)
    if rng.random() < .5:
        K = mk('Fresh', K)
    keep = [K[n] for n in (0, 1, 8) if rng.random() < .5]
    for step in range(6):
        bad, exc = rng.choice(BAD)
        ctx.raises(exc, lambda: K[bad], f'{type(bad).__name__} accepted as a size', (K.__name__, bad))
        n = rng.choice((0, 1, 8, 9))
        T = K[n]
        ctx.check(type(T.size) is int and T.__name__ == f'{K.__name__}[{n}]', 'size after a rejected one', (K, n))
        for m in (n, n + 1, 3):
            ctx.raises(TypeError, lambda: T[m], 'a sized type was indexed', (T.__name__, m))
        ctx.ev((K.__name__, n, repr(bad)))
        ctx.check(len(T) == n and T.is_sized is True and K.is_sized is False and K.size is None, 'len and is_sized', (T.__name__,))
        ctx.raises(AttributeError, lambda: len(K), 'an unsized kind has a length', K.__name__)
        t = K[True] if rng.random() < .5 else K[1]
        ctx.check(t.size == 1 and t.__name__ == f'{K.__name__}[1]' and t is K[1], 'size True', t.__name__)
        if rng.random() < .3:
            keep.clear()
            del T, t
            gc.collect()
    ctx.sample(f'{K.__name__}: rejected sizes interleaved with valid ones')


class Plain: pass
class Plain2: pass
class Plain3: pass


def odd_bases(rng, same, other):
    """lists of bases of which one, anywhere, has other parameters than the rest"""
    for _ in range(4):
        bases = [rng.choice(same), other] + rng.sample((Plain, Plain2, Plain3), rng.randint(0, 3))
        rng.shuffle(bases)
        yield bases


@group(3, 12)
def crowd(ctx, rng):
    """thousands of types alive at once"""
    kinds = [rng.choice((BitVector, UIntVector, SIntVector)), SMTUIntVector, mk('Crowd', rng.choice(BASES))]
    sizes = rng.sample(range(1 << 16), 1200) + list(range(300))
    live = [(K, n, K[n]) for n in sizes for K in kinds]
    fps = [(e, m, rng.choice(MODES), rng.random() < .5) for e in range(2, 14) for m in rng.sample(range(1, 200), 30)]
    F = mk('CrowdF', rng.choice(FPB))
    flive = [(K, p, K[p]) for p in fps for K in (FPVector, F)]
    for K, n, T in live:
        ctx.check(K[n] is T and T.size == n and T.unsized_t is K, 'a live type was replaced', (K.__name__, n))
        ctx.check(issubclass(T, BASES[0][n]) is issubclass(K, BASES[0]), 'relation of sized types', (K.__name__, n))
        ctx.ev((K.__name__, n))
    for K, p, T in flive:
        ctx.check(K[p] is T and T.binding == p and T.unbound_t is K, 'a live type was replaced', (K.__name__, p))
        ctx.check(issubclass(T, FPVector[p]) is issubclass(K, FPVector), 'relation of bound types', (K.__name__, p))
        ctx.ev((K.__name__, p))
    ctx.sample(f'{len(live)} sized and {len(flive)} bound types alive')


@group(300, 5000)
def subclassing_sized(ctx, rng):
    K, L = rng.choice(BASES), rng.choice(BASES)
    n = rng.randint(0, 40)
    m = rng.choice((n + 1, n + 8, 0 if n else 1))
    X = mk('Sub', K[n])
    ctx.check(X.size == n and X.is_sized and len(X) == n and issubclass(X, K[n]) and issubclass(X, K), 'subclass of a sized type', (K, n))
    ctx.raises(AttributeError, lambda: X.unsized_t, 'subclass of a sized type has an unsized_t', (K, n))
    ctx.raises(TypeError, lambda: X[n], 'subclass of a sized type was indexed', (K, n))
    ctx.raises(TypeError, lambda: X[m], 'subclass of a sized type was indexed', (K, m))
    ctx.check(X is not K[n] and not issubclass(K[n], X), 'subclass confused with its base', (K, n))
    ctx.raises(TypeError, lambda: mk('Two', K[n], L[m]), 'inherited from two sizes', (K, L, n, m))
    ctx.raises(TypeError, lambda: mk('Two', X, L[m]), 'inherited from two sizes', (K, L, n, m))
    Y = mk('SubSub', X)
    ctx.check(Y.size == n and issubclass(Y, X), 'subclass of a subclass', n)
    ctx.raises(TypeError, lambda: mk('Two', L[m], Y), 'inherited from two sizes', (K, L, n, m))
    for bases in odd_bases(rng, (K[n], X, Y), L[m]):
        ctx.raises(TypeError, lambda: mk('Two', *bases), 'inherited from two sizes', bases)
    Z = mk('Same', *rng.sample((Plain, Plain2), rng.randint(0, 2)), Y, *rng.sample((Plain3,), rng.randint(0, 1)), K[n])
    ctx.check(Z.size == n and Z.is_sized and issubclass(Z, Y), 'subclass of several types of one size', n)
    ctx.raises(AttributeError, lambda: Z.unsized_t, 'subclass of sized types has an unsized_t', (K, n))
    if K in (BitVector, UIntVector, SIntVector) and n:
        v = X(5)
        ctx.check(type(v) is X and v.as_uint() == 5 % (1 << n) and type(v + 1) is X, 'values of a subclass of a sized type', n)
    ctx.ev((K.__name__, L.__name__, n, m))
    ctx.sample(f'class Sub({K[n].__name__}); class Two({K[n].__name__}, {L[m].__name__}) rejected')


@group(150, 2500)
def history(ctx, rng):
    """creation, dropping and collection of kinds and sizes, watched throughout"""
    kinds = [mk(f'H{i}', rng.choice(BASES)) for i in range(3)] + [rng.choice(BASES)]
    live, ids = {}, {}
    for step in range(40):
        r = rng.random()
        if r < .55:
            K, n = rng.choice(kinds), rng.choice((0, 1, 2, 8, 9, 200 + step, 70000 + step))
            T = K[n]
            if (K, n) in live:
                ctx.check(live[K, n] is T, 'a live type was replaced', (K.__name__, n))
            else:
                live[K, n] = T
            check_sized(ctx, T, K, n)
        elif r < .75 and live:
            del live[rng.choice(list(live))]
            T = None
        elif r < .85:
            gc.collect()
        else:
            i = rng.randrange(3)                # drop a kind, define another of the same name
            old = kinds[i]
            live = {k: v for k, v in live.items() if k[0] is not old}
            kinds[i] = mk(f'H{i}', rng.choice(BASES))
            del old
            T = K = None
        for (K2, n2), T2 in live.items():
            ctx.check(T2.size == n2 and T2.unsized_t is K2 and K2[n2] is T2, 'live type disturbed', (K2.__name__, n2))
    ctx.sample(f'{len(live)} live types after 40 steps')


# ------------------------------------------------------- floating point ----
FPB = (FPVector, SMTFPVector, AbstractFPVector)


def params(rng):
    return (rng.choice((2, 3, 4, 5, 8, 11, 15, 60)), rng.choice((1, 2, 3, 7, 10, 23, 112, 1000)), rng.choice(MODES), rng.random() < .5)


def check_bound(ctx, T, K, p):
    w = (K.__name__, p)
    eb, mb, mode, ieee = p
    ctx.check(K[p] is T and K[eb, mb, mode, ieee] is T, 'indexing twice gives different types', w)
    ctx.check(T.exponent_size == eb and T.mantissa_size == mb and T.mode is mode and T.ieee_compliance is ieee
              and T.size == 1 + eb + mb and T.is_bound is True and tuple(T.binding) == p, 'parameters of a bound type', w)
    ctx.check(T.unbound_t is K and issubclass(T, K), 'unbound_t of a bound type', w)
    ctx.eq(T.__name__, f'{K.__name__}[{eb},{mb},{mode},{ieee}]', 'name of a bound type')
    ctx.check(K.is_bound is False and K.unbound_t is K, 'kind changed by binding', w)
    for attr in ('exponent_size', 'mantissa_size', 'mode', 'ieee_compliance', 'size'):
        ctx.raises(AttributeError, lambda: getattr(K, attr), f'unbound kind has {attr}')
    ctx.ev(w)


@group(250, 4000)
def fp_hierarchy(ctx, rng):
    A = mk('FpA', rng.choice(FPB))
    B = mk(rng.choice(('FpA', 'FpB')), rng.choice((A, A) + FPB))
    kinds = [FPVector, SMTFPVector, AbstractFPVector, A, B]
    if rng.random() < .4:
        kinds.append(refined(rng, rng.choice(kinds)))
    if rng.random() < .4:
        kinds.append(mk('FpA', *A.__bases__))
    if rng.random() < .4:
        kinds.append(mk('FpC', *rng.choice(((B, Mixin), (Mixin, B), (Plain, B), (Plain, Plain2, B)))))
    for i in range(rng.randint(0, 3)):          # kinds with two or three bases
        bases = rng.sample(kinds, rng.choice((2, 2, 3)))
        for P in rng.sample((Mixin, Plain, Plain2), rng.choice((0, 0, 1, 2))):
            if not any(issubclass(K, P) for K in bases):
                bases.insert(rng.randint(0, len(bases)), P)
        try:
            kinds.append(mk(f'FpM{i}', *bases))
        except TypeError:                       # no consistent method order
            pass
    ps = [params(rng) for _ in range(2)]
    eb, mb, mode, ieee = ps[0]
    ps.append(rng.choice(((eb + 1, mb, mode, ieee), (eb, mb + 1, mode, ieee), (eb, mb, MODES[mode.value % 5], ieee),
                          (eb, mb, mode, not ieee))))
    ps = list(dict.fromkeys(ps))
    pairs = [(K, p) for K in kinds for p in ps]
    rng.shuffle(pairs)
    types = {(K, p): K[p] for K, p in pairs}
    for (K, p), T in types.items():
        check_bound(ctx, T, K, p)
    for (K, p), T in types.items():
        for (L, q), U in types.items():
            want = issubclass(K, L) and p == q
            ctx.check(issubclass(T, U) is want, 'relation of bound types',
                      f'issubclass({T.__name__}, {U.__name__}) should be {want}')
            ctx.check((T is U) is (K is L and p == q), 'distinct types share one class')
        X = type(T)('FpSub', (T,), {})
        ctx.check(X.binding == p and X.size == T.size and issubclass(X, T) and X.is_bound, 'subclass of a bound type', p)
        ctx.raises(AttributeError, lambda: X.unbound_t, 'subclass of a bound type has an unbound_t')
        ctx.raises(TypeError, lambda: X[p], 'subclass of a bound type was bound')
        for q in ps:
            ctx.raises(TypeError, lambda: T[q], 'a bound type was bound again')
            if q != p:
                ctx.raises(TypeError, lambda: type(T)('Two', (X, rng.choice(kinds)[q]), {}), 'inherited from two formats')
                for bases in odd_bases(rng, (X, T), rng.choice(kinds)[q]):
                    ctx.raises(TypeError, lambda: mk('Two', *bases), 'inherited from two formats', bases)
    ctx.sample(f'{[k.__name__ for k in kinds]} at {ps}')


@group(200, 3000)
def fp_invalid(ctx, rng):
    K = mk('FpK', rng.choice(FPB)) if rng.random() < .5 else rng.choice(FPB)
    keep = []
    for step in range(6):
        p = params(rng) if rng.random() < .6 else (2, 1, rng.choice(MODES), True)
        eb, mb, mode, ieee = p
        if rng.random() < .6:
            keep.append(K[p])
        i = rng.randrange(9)
        bad, exc = _pick(i, p)
        ctx.raises(exc, lambda: K[bad], 'invalid parameters accepted', (K.__name__, bad))
        check_bound(ctx, K[p], K, p)
        if rng.random() < .3:
            keep.clear()
            gc.collect()
    ctx.ev((K.__name__, p), 'history')
    ctx.sample(f'{K.__name__}: invalid parameters interleaved with {p}')


def _pick(i, p):
    eb, mb, mode, ieee = p
    return (((float(eb), mb, mode, ieee), IndexError), ((eb, float(mb), mode, ieee), IndexError),
            ((eb, mb, mode.value, ieee), IndexError), ((eb, mb, mode, int(ieee)), IndexError),
            ((eb, mb, mode), IndexError), ((eb, mb, mode, ieee, True), IndexError),
            ((0, mb, mode, ieee), ValueError), ((eb, 0, mode, ieee), ValueError), ((-1, mb, mode, ieee), ValueError))[i]
