"""Independent executable model of binary floating point (oracle for F01..F07).

Works on exact rationals (fractions.Fraction); shares nothing with gmpy2/MPFR.
A value is one of
    ('nan',)            ('inf', s)          ('zero', s)         ('fin', Fraction != 0)
with s = 0 for +, 1 for -.
"""
from fractions import Fraction
from math import isqrt

RNE, RNA, RTP, RTN, RTZ, AWAY = 'RNE', 'RNA', 'RTP', 'RTN', 'RTZ', 'AWAY'

NAN = ('nan',)


def floor_log2(q):
    """floor(log2(q)) for a positive Fraction."""
    n, d = q.numerator, q.denominator
    e = n.bit_length() - d.bit_length()
    # 2**(e-1) < q < 2**(e+1)
    if e >= 0:
        return e if n >= (d << e) else e - 1
    return e if (n << -e) >= d else e - 1


def pow2(e):
    return Fraction(1 << e) if e >= 0 else Fraction(1, 1 << -e)


class Fmt:
    def __init__(self, eb, mb, mode, ieee):
        self.eb, self.mb, self.mode, self.ieee = eb, mb, mode, ieee
        self.bias = (1 << (eb - 1)) - 1
        self.emin = 1 - self.bias          # exponent of the smallest normal
        self.emax = self.bias              # exponent of the largest finite
        self.min_normal = pow2(self.emin)
        self.max_finite = (2 - pow2(-mb)) * pow2(self.emax)
        self.min_sub = pow2(self.emin - mb)
        self.size = 1 + eb + mb

    # ---- rounding -------------------------------------------------------
    def round_mag(self, q, neg, mode=None):
        """Round positive exact rational q (sign given separately)."""
        mode = mode or self.mode
        e = floor_log2(q)
        if self.ieee:
            if e < self.emin:
                e = self.emin
            quantum = pow2(e - self.mb)
            lo = (q / quantum).__floor__()
            lo_v, hi_v = lo * quantum, (lo + 1) * quantum
            even_lo = lo % 2 == 0
        else:
            if e < self.emin:
                lo_v, hi_v, even_lo = Fraction(0), self.min_normal, True
            else:
                quantum = pow2(e - self.mb)
                lo = (q / quantum).__floor__()
                lo_v, hi_v = lo * quantum, (lo + 1) * quantum
                even_lo = lo % 2 == 0
        if lo_v == q:
            r = lo_v
        elif mode == RTZ:
            r = lo_v
        elif mode == AWAY:
            r = hi_v
        elif mode == RTP:
            r = lo_v if neg else hi_v
        elif mode == RTN:
            r = hi_v if neg else lo_v
        else:
            mid = (lo_v + hi_v) / 2
            if q < mid:
                r = lo_v
            elif q > mid:
                r = hi_v
            elif mode == RNA:
                r = hi_v
            else:
                r = lo_v if even_lo else hi_v
        if r > self.max_finite:
            # overflow
            to_inf = (mode in (RNE, RNA, AWAY)
                      or (mode == RTP and not neg) or (mode == RTN and neg))
            if q <= self.max_finite:
                pass
            return None if to_inf else self.max_finite
        return r

    def rnd(self, q, zero_sign=0, mode=None):
        """Exact Fraction -> value of this format."""
        if q == 0:
            return ('zero', zero_sign)
        neg = q < 0
        r = self.round_mag(abs(q), neg, mode)
        if r is None:
            return ('inf', int(neg))
        if r == 0:
            return ('zero', int(neg))
        return ('fin', -r if neg else r)

    # ---- encodings ------------------------------------------------------
    def decode(self, bits):
        """bit pattern (int) -> value, IEEE interpretation."""
        m = bits & ((1 << self.mb) - 1)
        e = (bits >> self.mb) & ((1 << self.eb) - 1)
        s = bits >> (self.mb + self.eb)
        if e == (1 << self.eb) - 1:
            return ('inf', s) if m == 0 else NAN
        if e == 0:
            if m == 0:
                return ('zero', s)
            q = m * self.min_sub
        else:
            q = Fraction((1 << self.mb) + m) * pow2(e - self.bias - self.mb)
        return ('fin', -q if s else q)

    def encode(self, v):
        """value -> bit pattern; None for NaN (many patterns)."""
        if v[0] == 'nan':
            return None
        if v[0] == 'inf':
            return (v[1] << (self.mb + self.eb)) | (((1 << self.eb) - 1) << self.mb)
        if v[0] == 'zero':
            return v[1] << (self.mb + self.eb)
        q = v[1]
        s = int(q < 0)
        q = abs(q)
        e = floor_log2(q)
        if e < self.emin:
            m = q / self.min_sub
            assert m.denominator == 1 and m < (1 << self.mb), 'not representable'
            return (s << (self.mb + self.eb)) | m.numerator
        m = q / pow2(e - self.mb)
        assert m.denominator == 1 and e <= self.emax, 'not representable'
        m = m.numerator - (1 << self.mb)
        return (s << (self.mb + self.eb)) | ((e + self.bias) << self.mb) | m

    # ---- operations -----------------------------------------------------
    def sgn(self, v):
        return v[1] if v[0] in ('inf', 'zero') else int(v[1] < 0)

    def q(self, v):
        return Fraction(0) if v[0] == 'zero' else v[1]

    def neg(self, v):
        if v[0] == 'nan':
            return NAN
        return (v[0], 1 - v[1]) if v[0] != 'fin' else ('fin', -v[1])

    def abs(self, v):
        if v[0] == 'nan':
            return NAN
        return (v[0], 0) if v[0] != 'fin' else ('fin', abs(v[1]))

    def _zero_sum_sign(self, sa, sb, mode):
        if sa == sb:
            return sa
        return 1 if mode == RTN else 0

    def _sum(self, terms_exact, sa, sb, mode):
        """exact sum of two addends with signs sa/sb (for the zero result)."""
        if terms_exact == 0:
            return ('zero', self._zero_sum_sign(sa, sb, mode))
        return self.rnd(terms_exact, mode=mode)

    def add(self, a, b, mode=None):
        mode = mode or self.mode
        if NAN in (a, b):
            return NAN
        if a[0] == 'inf' or b[0] == 'inf':
            if a[0] == b[0]:
                return a if a[1] == b[1] else NAN
            return a if a[0] == 'inf' else b
        return self._sum(self.q(a) + self.q(b), self.sgn(a), self.sgn(b), mode)

    def sub(self, a, b, mode=None):
        return self.add(a, self.neg(b), mode)

    def mul(self, a, b, mode=None):
        if NAN in (a, b):
            return NAN
        s = self.sgn(a) ^ self.sgn(b)
        if a[0] == 'inf' or b[0] == 'inf':
            return NAN if 'zero' in (a[0], b[0]) else ('inf', s)
        return self.rnd(self.q(a) * self.q(b), s, mode)

    def div(self, a, b, mode=None):
        if NAN in (a, b):
            return NAN
        s = self.sgn(a) ^ self.sgn(b)
        if a[0] == 'inf':
            return NAN if b[0] == 'inf' else ('inf', s)
        if b[0] == 'inf':
            return ('zero', s)
        if b[0] == 'zero':
            return NAN if a[0] == 'zero' else ('inf', s)
        return self.rnd(self.q(a) / self.q(b), s, mode)

    def fma(self, a, b, c, mode=None):
        mode = mode or self.mode
        if NAN in (a, b, c):
            return NAN
        s = self.sgn(a) ^ self.sgn(b)
        if a[0] == 'inf' or b[0] == 'inf':
            if 'zero' in (a[0], b[0]):
                return NAN
            if c[0] == 'inf' and c[1] != s:
                return NAN
            return ('inf', s)
        if c[0] == 'inf':
            return c
        return self._sum(self.q(a) * self.q(b) + self.q(c), s, self.sgn(c), mode)

    def sqrt(self, a, mode=None):
        if a == NAN:
            return NAN
        if a[0] == 'zero':
            return a
        if self.sgn(a):
            return NAN
        if a[0] == 'inf':
            return a
        q = a[1]
        # scaled integer square root with a sticky bit
        k = self.mb + 8
        e = floor_log2(q) // 2
        sh = 2 * (k - e)
        t = q * pow2(sh)
        n = t.numerator // t.denominator
        r = isqrt(n)
        exact = (r * r == n) and t.denominator == 1
        root = Fraction(r) * pow2(-(k - e))
        if not exact:
            root += pow2(-(k - e) - 2)      # strictly between r and r+1: sticky
        return self.rnd(root, 0, mode)

    def rem(self, a, b, mode=None):
        """IEEE remainder x - y*n, n = nearest integer to x/y, ties to even."""
        if NAN in (a, b) or a[0] == 'inf' or b[0] == 'zero':
            return NAN
        if b[0] == 'inf' or a[0] == 'zero':
            return a
        t = a[1] / b[1]
        fl = t.__floor__()
        d = t - fl
        if d > Fraction(1, 2) or (d == Fraction(1, 2) and fl % 2):
            fl += 1
        return self.rnd(a[1] - b[1] * fl, self.sgn(a), mode)

    def rint(self, a, mode=None):
        mode = mode or self.mode
        if a[0] != 'fin':
            return a
        q = a[1]
        neg = q < 0
        m = abs(q)
        fl = m.__floor__()
        d = m - fl
        if d == 0:
            r = fl
        elif mode == RTZ:
            r = fl
        elif mode == AWAY:
            r = fl + 1
        elif mode == RTP:
            r = fl if neg else fl + 1
        elif mode == RTN:
            r = fl + 1 if neg else fl
        elif d > Fraction(1, 2):
            r = fl + 1
        elif d < Fraction(1, 2):
            r = fl
        elif mode == RNA:
            r = fl + 1
        else:
            r = fl + (fl % 2)
        return self.rnd(Fraction(-r if neg else r), int(neg), mode)

    # ---- comparisons ----------------------------------------------------
    def key(self, v):
        """comparison key of a non-NaN value"""
        if v[0] == 'inf':
            return (-1 if v[1] else 1, Fraction(0))
        return (0, self.q(v))

    def lt(self, a, b):
        return NAN not in (a, b) and self.key(a) < self.key(b)

    def eq(self, a, b):
        return NAN not in (a, b) and self.key(a) == self.key(b)

    def le(self, a, b):
        return NAN not in (a, b) and self.key(a) <= self.key(b)

    def classify(self, v):
        if v[0] != 'fin':
            return {'nan': 'NaN', 'inf': 'infinite', 'zero': 'zero'}[v[0]]
        return 'subnormal' if abs(v[1]) < self.min_normal else 'normal'
