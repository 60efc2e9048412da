"""The z3 backend of symprog."""
import z3
from hwtypes import (Bit, BitVector, UIntVector, SIntVector, z3Bit, z3BitVector)
from hwtypes.z3_bit_vector import z3UIntVector, z3SIntVector
from .core import Violation
from .symprog import *


class ZWord(z3BitVector): pass
class ZDelta(z3SIntVector): pass


class Z3(Backend):
    KMAP = {BitVector: z3BitVector, UIntVector: z3UIntVector, SIntVector: z3SIntVector, CWord: ZWord, CDelta: ZDelta}
    SBit = z3Bit
    caps = {'symbolic rotation'}
    findings = {'bvsdiv': 'K1-S02'}

    def __init__(self, n):
        self.envs = [[] for _ in range(n)]
        self.alive = []

    def var(self, T, vals):
        v = self.sized(T)()
        self.alive.append(v)
        for e, x in zip(self.envs, vals):
            e.append((v.value, z3.BoolVal(bool(x)) if T is Bit else z3.BitVecVal(x, T.size)))
        return v

    def evaluate(self, sym, k):
        return as_int(z3.simplify(z3.substitute(sym.value, *self.envs[k])))

    def show(self, k):
        return [f'{n}={v}' for n, v in self.envs[k]]


def as_int(r):
    if z3.is_bv_value(r):
        return r.as_long()
    if z3.is_true(r) or z3.is_false(r):
        return int(z3.is_true(r))
    raise Violation('term of unassigned variables', str(r))


class Const(Z3):
    def var(self, T, vals):
        return self.sized(T)(vals[0])

    def evaluate(self, sym, k):
        return as_int(sym.value)
