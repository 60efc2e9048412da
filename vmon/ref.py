"""Reference model of fixed-width bit vectors on plain Python ints, plus input
generators shared by the property modules.  Shares no code with hwtypes."""


def mask(n):
    return (1 << n) - 1


def sgn(n, a):
    return a - (1 << n) if n and (a >> (n - 1)) & 1 else a


# name -> (n, a, b) -> unsigned result (before reduction mod 2^n)
def _shl(n, a, b): return (a << b) if b < n else 0
def _lshr(n, a, b): return (a >> b) if b < n else 0
def _ashr(n, a, b): return sgn(n, a) >> min(b, n)
def _rol(n, a, b):
    k = b % n
    return (a << k) | (a >> (n - k))
def _ror(n, a, b):
    k = b % n
    return (a >> k) | (a << (n - k))
def _udiv(n, a, b): return mask(n) if b == 0 else a // b
def _urem(n, a, b): return a if b == 0 else a - b * (a // b)


def _sdiv(n, a, b):
    """floor; division by zero gives all ones"""
    a, b = sgn(n, a), sgn(n, b)
    if b == 0:
        return mask(n)
    q = abs(a) // abs(b)
    if (a < 0) != (b < 0):
        return -q if abs(a) == q * abs(b) else -q - 1
    return q


def _srem(n, a, b):
    """sign of the divisor; by zero gives the dividend"""
    if sgn(n, b) == 0:
        return a
    return sgn(n, a) - sgn(n, b) * _sdiv(n, a, b)


# SMT-LIB definitions (used to recognise the recorded finding K1/K2 exactly)
def smt_sdiv(n, a, b):
    a, b = sgn(n, a), sgn(n, b)
    if b == 0:
        return (1 if a < 0 else -1) & mask(n)
    q = abs(a) // abs(b)
    return (q if (a < 0) == (b < 0) else -q) & mask(n)


def smt_srem(n, a, b):
    if b == 0:
        return a
    sa, sb = sgn(n, a), sgn(n, b)
    r = abs(sa) % abs(sb)
    return (-r if sa < 0 else r) & mask(n)


BIN = {
    'bvand': lambda n, a, b: a & b,
    'bvnand': lambda n, a, b: ~(a & b),
    'bvor': lambda n, a, b: a | b,
    'bvnor': lambda n, a, b: ~(a | b),
    'bvxor': lambda n, a, b: (a | b) - (a & b),
    'bvxnor': lambda n, a, b: ~((a | b) - (a & b)),
    'bvshl': _shl, 'bvlshr': _lshr, 'bvashr': _ashr,
    'bvadd': lambda n, a, b: a + b,
    'bvsub': lambda n, a, b: a - b,
    'bvmul': lambda n, a, b: a * b,
    'bvudiv': _udiv, 'bvurem': _urem, 'bvsdiv': _sdiv, 'bvsrem': _srem,
}
ROT = {'bvrol': _rol, 'bvror': _ror}
UN = {'bvnot': lambda n, a: ~a, 'bvneg': lambda n, a: -a}
CMP = {
    'bveq': lambda n, a, b: a == b,
    'bvne': lambda n, a, b: a != b,
    'bvult': lambda n, a, b: a < b,
    'bvule': lambda n, a, b: a <= b,
    'bvugt': lambda n, a, b: a > b,
    'bvuge': lambda n, a, b: a >= b,
    'bvslt': lambda n, a, b: sgn(n, a) < sgn(n, b),
    'bvsle': lambda n, a, b: sgn(n, a) <= sgn(n, b),
    'bvsgt': lambda n, a, b: sgn(n, a) > sgn(n, b),
    'bvsge': lambda n, a, b: sgn(n, a) >= sgn(n, b),
}
# infix -> (unsigned method, signed method)
INFIX = {
    '&': ('bvand',) * 2, '|': ('bvor',) * 2, '^': ('bvxor',) * 2,
    '+': ('bvadd',) * 2, '-': ('bvsub',) * 2, '*': ('bvmul',) * 2,
    '<<': ('bvshl',) * 2, '>>': ('bvlshr', 'bvashr'),
    '//': ('bvudiv', 'bvsdiv'), '%': ('bvurem', 'bvsrem'),
}
INFIX_CMP = {
    '==': ('bveq',) * 2, '!=': ('bvne',) * 2,
    '<': ('bvult', 'bvslt'), '<=': ('bvule', 'bvsle'),
    '>': ('bvugt', 'bvsgt'), '>=': ('bvuge', 'bvsge'),
}
import operator
PYOP = {'&': operator.and_, '|': operator.or_, '^': operator.xor, '+': operator.add,
        '-': operator.sub, '*': operator.mul, '<<': operator.lshift,
        '>>': operator.rshift, '//': operator.floordiv, '%': operator.mod,
        '==': operator.eq, '!=': operator.ne, '<': operator.lt, '<=': operator.le,
        '>': operator.gt, '>=': operator.ge}
# augmented assignment, as an expression
AUG = dict(PYOP, **{'&': operator.iand, '|': operator.ior, '^': operator.ixor, '+': operator.iadd,
                    '-': operator.isub, '*': operator.imul, '<<': operator.ilshift,
                    '>>': operator.irshift, '//': operator.ifloordiv, '%': operator.imod})


def binop(op, n, a, b):
    return BIN[op](n, a, b) & mask(n)


# -------------------------------------------------------------- generators --
SMALL_W = (1, 2, 3, 4, 5, 6, 7, 8)
EDGE_W = (9, 12, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129,
          255, 256, 257, 512, 1000)


def width(rng, lo=1, hi=1000):
    r = rng.random()
    if r < .45:
        w = rng.choice(SMALL_W)
    elif r < .85:
        w = rng.choice(EDGE_W)
    else:
        w = rng.randint(1, 300)
    return w if lo <= w <= hi else rng.randint(lo, hi)


def width_like(rng, usual):
    """mostly a width of the list, sometimes any width of about that size"""
    r = rng.random()
    return (rng.choice(usual) if r < .6 else rng.randint(1, min(24, 2 * max(usual))) if r < .85
            else rng.randint(1, max(usual) + 8))


def value(rng, n):
    """edge-biased n-bit pattern"""
    if n == 0:
        return 0
    m, r = mask(n), rng.random()
    if r < .30:
        return rng.getrandbits(n)
    if r < .55:
        top = 1 << (n - 1)
        return rng.choice((0, 1, 2, 3, m, m - 1, top, top - 1, top + 1, m >> 1,
                           m // 3, m - m // 3, top >> 1, n, n - 1, n + 1)) & m
    if r < .70:
        return (1 << rng.randrange(n)) & m
    if r < .80:
        return ~(1 << rng.randrange(n)) & m
    if r < .90:
        return mask(rng.randint(0, n)) << rng.randint(0, n) & m
    return rng.randint(0, min(m, 2 * n + 2))


def shift_amount(rng, n):
    m, r = mask(n), rng.random()
    if r < .6:
        return rng.randint(0, min(m, n + 2))
    if r < .8:
        return min(m, rng.choice((n - 1, n, n + 1, 2 * n, m, m - 1, 1 << (n - 1))))
    return value(rng, n)


def pair(rng, n):
    a = value(rng, n)
    r = rng.random()
    if r < .12:
        return a, a
    if r < .2:
        return a, -a & mask(n)
    if r < .3:
        return a, (a + rng.choice((-1, 1))) & mask(n)
    if r < .35:
        return a, ~a & mask(n)
    if r < .45 and n:                      # dividends at and next to a multiple
        b = rng.choice((1, 2, 3, 5, 7, 10, rng.getrandbits(rng.randint(1, n)))) & mask(n)
        if rng.random() < .5:
            b = -b & mask(n)
        q = rng.choice((0, 1, 2, 3, rng.getrandbits(rng.randint(1, n))))
        a = rng.choice((-1, 1)) * sgn(n, b) * q if rng.random() < .6 else b * q
        return (a + rng.choice((0, 0, -1, 1))) & mask(n), b
    return a, value(rng, n)
