"""The pysmt backend of symprog."""
from hwtypes import (Bit, BitVector, UIntVector, SIntVector, SMTBit, SMTBitVector)
from hwtypes.smt_bit_vector import SMTUIntVector, SMTSIntVector
from .core import Violation
from .symprog import *
from .smteval import evaluate, symbols


class SWord(SMTBitVector): pass
class SDelta(SMTSIntVector): pass


class Smt(Backend):
    KMAP = {BitVector: SMTBitVector, UIntVector: SMTUIntVector, SIntVector: SMTSIntVector,
            CWord: SWord, CDelta: SDelta}
    SBit = SMTBit
    caps = {'reflected'}
    findings = {'bvsdiv': 'K1-S01', 'bvsrem': 'K2-S01'}

    def __init__(self, n):
        self.envs = [{} for _ in range(n)]
        self.memos = [{} for _ in range(n)]
        self.alive = []

    def var(self, T, vals):
        v = self.sized(T)()
        self.alive.append(v)
        name = v.value.symbol_name()
        for e, x in zip(self.envs, vals):
            e[name] = bool(x) if T is Bit else x
        return v

    def evaluate(self, sym, k):
        return int(evaluate(sym.value, self.envs[k], self.memos[k]))

    def show(self, k):
        return {n: int(v) for n, v in self.envs[k].items()}


class Const(Smt):
    """every input is a constant: results must be that constant already"""
    def var(self, T, vals):
        return self.sized(T)(vals[0])

    def evaluate(self, sym, k):
        v = sym.value
        if not v.is_constant():
            raise Violation('operation on constants is not a constant', str(v))
        return int(v.constant_value())
