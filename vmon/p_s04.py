import gc
import warnings
import weakref
import z3
from hwtypes import SMTBit, SMTBitVector, SMTInt, z3Bit, z3BitVector, RoundingMode
from hwtypes.smt_bit_vector import SMTSIntVector
from hwtypes.z3_bit_vector import z3UIntVector
from hwtypes.smt_fp_vector import SMTFPVector
from .core import group
from .smteval import symbols

FP = SMTFPVector[5, 10, RoundingMode.RNE, True]
FP8 = SMTFPVector[4, 3, RoundingMode.RTZ, False]


def smt_name(v):
    assert v.value.is_symbol(), f'{v!r} is not a variable'
    return v.value.symbol_name()


def fp_name(v):
    f = v.reinterpret_as_bv().value
    assert f.is_symbol(), f'{v!r} is not a variable'
    return f.symbol_name()


# kind -> (type, can take a prefix, can take a name, name of, sort)
SMT = {
    'bit': (SMTBit, True, smt_name, 'b'),
    'bv8': (SMTBitVector[8], True, smt_name, 8),
    'bv1': (SMTBitVector[1], True, smt_name, 1),
    's8': (SMTSIntVector[8], True, smt_name, 8),
    'int': (SMTInt, True, smt_name, 'i'),
    'fp16': (FP, False, fp_name, 16),
    'fp8': (FP8, False, fp_name, 8),
}
Z3 = {
    'bit': (z3Bit, False, lambda v: v.value.decl().name(), 'b'),
    'bv8': (z3BitVector[8], False, lambda v: v.value.decl().name(), 8),
    'u8': (z3UIntVector[8], False, lambda v: v.value.decl().name(), 8),
    'bv1': (z3BitVector[1], False, lambda v: v.value.decl().name(), 1),
}

_serial = [0]


def names(rng, sort, k):
    """explicit names that do and do not look like generated ones; fixed sort
    per name, as a name may only ever be used for one sort (pysmt)"""
    base = ['x', 'FV', 'V', 'V_', 'V_x', 'tmp', 'tmp_', 'a.b', 'V_1_', 'p_0_', '', 'FV1', '__', 'é']
    n = rng.choice(base)
    n = f'{n}{k}~{sort}'
    return rng.choice((n, n, n.upper(), n.lower(), n.swapcase(), n + ' ', ' ' + n))     # all different names


def colliding(rng, prefix):
    return f'{prefix}_{rng.randrange(12)}'


def history(ctx, rng, kinds, backend, steps=60):
    _serial[0] += 1
    tag = f'{_serial[0]}c{ctx.case}'
    live = []                                  # (object, name, sort, explicit)
    prefixes = [f'p{tag}', f'p{tag}_1', f'q{tag}', 'V', f'tmp{tag}', f'p{tag}_1_2']
    sorts = {}
    ever = {}                                  # name -> sort, every name seen in this history
    for step in range(steps):
        kind = rng.choice(list(kinds))
        T, can_prefix, name_of, sort = kinds[kind]
        r = rng.random()
        what = None
        if r < .35:
            v = T()
            what = f'{kind}()'
            n = name_of(v)
            fresh = True
        elif r < .5 and can_prefix:
            p = rng.choice(prefixes)
            v = T(prefix=p)
            what = f'{kind}(prefix={p!r})'
            n = name_of(v)
            ctx.check(n.startswith(p), 'prefix ignored', (what, n))
            fresh = True
        elif r < .75:
            q = rng.random()
            if q < .45:
                name = names(rng, sort, f'{tag}.{rng.randrange(6)}')
            elif q < .7:
                name = f'{rng.choice(prefixes[:3])}_{rng.randrange(8)}'
            else:
                name = rng.choice([x[1] for x in live]) if live else f'n{tag}~{sort}'
            if ever.get(name, sort) != sort:
                # the sort of a live name differs: refused anyway; of a dead one: not claimed
                if any(x[1] == name for x in live):
                    ctx.raises(ValueError, lambda: T(name=name), 'a name in use was accepted', (backend, kind, name))
                    ctx.ev((kind, 'refused'), 'refused')
                continue
            v = o = None
            taken = [x for x in live if x[1] == name]
            if taken:
                ctx.raises(ValueError, lambda: T(name=name), 'a name in use was accepted', (backend, kind, name))
                ctx.ev((kind, 'refused'), 'refused')
                continue
            v = T(name=name)
            what = f'{kind}(name={name!r})'
            n = name_of(v)
            ctx.check(n == name, 'explicit name changed', (what, n))
            fresh = False
        elif r < .9 and live:
            i = rng.randrange(len(live))
            del live[i]
            v = o = w = None
            if rng.random() < .5:
                gc.collect()
            continue
        else:
            bad_constructions(ctx, rng, T, can_prefix, kinds, kind, tag)
            continue
        for o, on, osort, _ in live:
            ctx.check(on != n, 'a new variable has the name of a live one', (backend, what, n))
        if fresh and backend == 'smt':
            ctx.check(n not in ever, 'a generated name was used before in this history', (what, n))
        ever[n] = sort
        live.append((v, n, sort, not fresh))
        sorts[n] = sort
        ctx.ev((backend, kind, what.split("(")[1][:5], step))
        for o, on, osort, _ in live[-4:]:       # names never change
            nm = kinds[[k for k in kinds if kinds[k][0] is type(o)][0]][2](o)
            ctx.check(nm == on, 'the name of a live variable changed', (on, nm))
    ctx.sample(f'{backend}: {len(live)} live variables, e.g. {[x[1] for x in live[:6]]}')


def bad_constructions(ctx, rng, T, can_prefix, kinds, kind, tag):
    n = f'bad{tag}.{rng.randrange(1 << 40)}'
    const = {'bit': 1, 'int': 5}.get(kind, 3 if kind != 'bv1' else 1)
    ctx.raises(TypeError, lambda: T(const, name=n), 'a constant was named', kind)
    other = T(const)
    ctx.raises(TypeError, lambda: T(other, name=n), 'a value was renamed', kind)
    ctx.raises(TypeError, lambda: T(other.value if hasattr(other, 'value') else 1, name=n), 'a term was named', kind)
    for bad in (3, None, b'x', ('x',), 1.5):
        ctx.raises(TypeError, lambda: T(name=bad), 'a name that is not a string was accepted', (kind, bad))
    if can_prefix:
        ctx.raises(TypeError, lambda: T(const, prefix=n), 'a constant was given a prefix', kind)
        ctx.raises(ValueError, lambda: T(name=n, prefix=n), 'name and prefix together', kind)
    # the rejected name is still free
    v = T(name=n)
    ctx.check(kinds[kind][2](v) == n, 'explicit name changed', n)
    ctx.raises(ValueError, lambda: T(name=n), 'a name in use was accepted', (kind, n))
    v2 = T(v)                                   # a copy is no new holder
    ref = weakref.ref(v)
    del v, v2
    gc.collect()
    if ref() is None:
        w = T(name=n)
        ctx.check(kinds[kind][2](w) == n, 'a name given up is not available again', n)
        ctx.raises(ValueError, lambda: T(name=n), 'a name in use was accepted', (kind, n))
    ctx.ev((kind, 'bad'), 'rejections')


@group(260, 5000)
def smt(ctx, rng):
    history(ctx, rng, SMT, 'smt')


@group(200, 4000)
def z3_(ctx, rng):
    history(ctx, rng, Z3, 'z3')


@group(60, 1000)
def many(ctx, rng):
    """many variables without a name, created across kinds, with names in the
    way of the generator"""
    kinds = rng.choice((SMT, Z3))
    back = 'smt' if kinds is SMT else 'z3'
    keep, seen = [], {}
    for i in range(120):
        kind = rng.choice(list(kinds))
        T, can_prefix, name_of, sort = kinds[kind]
        v = T()
        n = name_of(v)
        ctx.check(n not in seen, 'a new variable has the name of a live one', (back, kind, n, seen.get(n)))
        seen[n] = kind
        keep.append(v)
        ctx.ev((back, kind))
        if rng.random() < .3 and n.rsplit('_', 1)[-1].isdigit():
            # occupy a name the generator would reach soon
            b, k = n.rsplit('_', 1)
            m = f'{b}_{int(k) + rng.randint(1, 4)}'
            if m not in seen:
                q = rng.choice([x for x in kinds if kinds[x][3] == sort])
                try:
                    w = kinds[q][0](name=m)
                except ValueError:
                    continue                     # held by a variable alive elsewhere
                except Exception as e:
                    if type(e).__name__ == 'PysmtTypeError':
                        continue                 # used before for another sort
                    raise
                seen[m] = q
                keep.append(w)
    terms_distinct(ctx, back, keep, kinds)
    ctx.sample(f'{back}: {len(seen)} names, all different')


def terms_distinct(ctx, back, keep, kinds):
    """by meaning: equal-sort variables can be told apart"""
    if back != 'smt':
        bits = [v for v in keep if type(v) is z3Bit][:12]
        s = z3.Solver()
        for i, v in enumerate(bits):
            s.add(v.value if i % 2 else z3.Not(v.value))
        ctx.check(s.check() == z3.sat, 'two live variables are one', [str(v.value) for v in bits])
        return
    bits = [v for v in keep if type(v) is SMTBit]
    for a, b in zip(bits, bits[1:]):
        ctx.check(len(symbols((a & b).value)) == 2, 'two live variables are one', (a.value, b.value))


@group(100, 1500)
def dead_names_in_terms(ctx, rng):
    """a generated variable is not one that lives on inside a term"""
    terms, used = [], set()
    for i in range(25):
        T = rng.choice((SMTBit, SMTBitVector[4], SMTInt))
        v = T(prefix='dead') if rng.random() < .5 else T()
        n = smt_name(v)
        ctx.check(n not in used, 'a generated variable occurs in an older term', n)
        used.add(n)
        terms.append(~v if T is not SMTInt else v + 1)
        del v
        if rng.random() < .3:
            gc.collect()
        ctx.ev((T.__name__, i))
    ctx.sample(f'{sorted(used)[:6]}')


@group(3, 12)
def crowd(ctx, rng):
    """thousands of variables of one backend alive at once"""
    kinds = (SMT, Z3)[ctx.case % 2]
    back = 'smt' if kinds is SMT else 'z3'
    keep, seen = [], set()
    ks = [k for k in kinds if k != 'fp8']
    for i in range(2500):
        k = rng.choice(ks)
        T, can_prefix, name_of, sort = kinds[k]
        r = rng.random()
        nm = f'crowd{_serial[0]}_{i}~{sort}'
        v = T(name=nm) if r < .3 else T(prefix='crowd') if r < .5 and can_prefix else T()
        n = name_of(v)
        ctx.check(n not in seen, 'a new variable has the name of a live one', (back, k, n))
        if r < .3:
            ctx.eq(n, nm, 'explicit name', back)
        seen.add(n)
        keep.append((v, n, k))
    for v, n, k in rng.sample(keep, 300):
        ctx.raises(ValueError, lambda: kinds[k][0](name=n), 'a name in use was given out', (back, n))
        ctx.ev((back, k))
    _serial[0] += 1
    ctx.sample(f'{back}: {len(keep)} variables alive')
