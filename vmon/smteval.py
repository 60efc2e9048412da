"""Evaluator of pysmt formulas under an assignment; independent of pysmt's own
substitution/simplification and of hwtypes.  Values: bool, int (unsigned
pattern for bit vectors).  Uninterpreted functions are read from `funcs`."""
import pysmt.operators as op
from .ref import mask, sgn


class Unassigned(Exception):
    pass


def _width(n):
    return n.bv_width()


def evaluate(root, env, memo=None, funcs=None):
    """root: FNode, env: symbol name -> value, memo: reusable per-env cache"""
    memo = {} if memo is None else memo
    stack = [root]
    while stack:
        n = stack[-1]
        if n in memo:
            stack.pop()
            continue
        args = n.args()
        todo = [a for a in args if a not in memo]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        memo[n] = _apply(n, [memo[a] for a in args], env, funcs)
    return memo[root]


def _apply(n, a, env, funcs):
    t = n.node_type()
    if t == op.SYMBOL:
        name = n.symbol_name()
        if name not in env:
            raise Unassigned(name)
        return env[name]
    if t in (op.BOOL_CONSTANT,):
        return n.constant_value()
    if t == op.INT_CONSTANT:
        return int(n.constant_value())
    if t == op.BV_CONSTANT:
        return int(n.constant_value())
    if t == op.AND: return all(a)
    if t == op.OR: return any(a)
    if t == op.NOT: return not a[0]
    if t == op.IMPLIES: return (not a[0]) or a[1]
    if t == op.IFF: return a[0] == a[1]
    if t == op.ITE: return a[1] if a[0] else a[2]
    if t == op.EQUALS: return a[0] == a[1]
    if t == op.LE: return a[0] <= a[1]
    if t == op.LT: return a[0] < a[1]
    if t == op.PLUS: return sum(a)
    if t == op.MINUS: return a[0] - a[1]
    if t == op.TIMES:
        r = 1
        for x in a:
            r *= x
        return r
    if t == op.DIV:                     # SMT-LIB: remainder is non-negative
        if a[1] == 0:
            raise Unassigned('division by zero')
        q = abs(a[0]) // abs(a[1])
        if a[0] < 0 and q * abs(a[1]) != abs(a[0]):
            q += 1
        return q if (a[0] < 0) == (a[1] < 0) else -q
    if t == op.BV_TONATURAL: return a[0]
    if t == op.FUNCTION:
        return funcs(n.function_name(), tuple(a))
    if t == op.BV_ULT: return a[0] < a[1]
    if t == op.BV_ULE: return a[0] <= a[1]
    if t in (op.BV_SLT, op.BV_SLE): aw = _width(n.arg(0))
    if t == op.BV_SLT: return sgn(aw, a[0]) < sgn(aw, a[1])
    if t == op.BV_SLE: return sgn(aw, a[0]) <= sgn(aw, a[1])
    w = _width(n)
    m = mask(w)
    if t == op.BV_NOT: return ~a[0] & m
    if t == op.BV_NEG: return -a[0] & m
    if t == op.BV_AND: return _fold(lambda x, y: x & y, a)
    if t == op.BV_OR: return _fold(lambda x, y: x | y, a)
    if t == op.BV_XOR: return _fold(lambda x, y: x ^ y, a)
    if t == op.BV_ADD: return sum(a) & m
    if t == op.BV_SUB: return (a[0] - a[1]) & m
    if t == op.BV_MUL: return _fold(lambda x, y: x * y, a) & m
    if t == op.BV_CONCAT: return a[0] << _width(n.arg(1)) | a[1]
    if t == op.BV_EXTRACT:
        return a[0] >> n.bv_extract_start() & mask(n.bv_extract_end() - n.bv_extract_start() + 1)
    if t == op.BV_ZEXT: return a[0]
    if t == op.BV_SEXT: return sgn(_width(n.arg(0)), a[0]) & m
    if t == op.BV_ROL:
        k = n.bv_rotation_step() % w
        return (a[0] << k | a[0] >> (w - k)) & m
    if t == op.BV_ROR:
        k = n.bv_rotation_step() % w
        return (a[0] >> k | a[0] << (w - k)) & m
    if t == op.BV_COMP: return int(a[0] == a[1])
    if t == op.BV_LSHL: return (a[0] << a[1]) & m if a[1] < w else 0
    if t == op.BV_LSHR: return a[0] >> a[1] if a[1] < w else 0
    if t == op.BV_ASHR: return (sgn(w, a[0]) >> min(a[1], w)) & m
    if t == op.BV_UDIV: return m if a[1] == 0 else a[0] // a[1]
    if t == op.BV_UREM: return a[0] if a[1] == 0 else a[0] % a[1]
    if t in (op.BV_SDIV, op.BV_SREM):
        x, y = sgn(w, a[0]), sgn(w, a[1])
        if t == op.BV_SDIV:
            if y == 0:
                return 1 if x < 0 else m
            q = abs(x) // abs(y)
            return (q if (x < 0) == (y < 0) else -q) & m
        if y == 0:
            return a[0]
        r = abs(x) % abs(y)
        return (-r if x < 0 else r) & m
    raise NotImplementedError(f'node {op.op_to_str(t)}')


def _fold(f, a):
    r = a[0]
    for x in a[1:]:
        r = f(r, x)
    return r


def symbols(root):
    seen, stack, out = set(), [root], set()
    while stack:
        n = stack.pop()
        if n in seen:
            continue
        seen.add(n)
        if n.node_type() == op.SYMBOL:
            out.add(n.symbol_name())
        stack.extend(n.args())
    return out
