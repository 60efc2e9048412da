"""Concrete bit vectors: kinds under test and the always-on result monitor."""
import hwtypes as ht
from hwtypes import Bit, BitVector, UIntVector, SIntVector
from .ref import *


class WordVector(BitVector): pass
class CountVector(UIntVector): pass
class DeltaVector(SIntVector): pass
class DeltaVector2(DeltaVector): pass


KINDS = (BitVector, UIntVector, SIntVector, WordVector, CountVector, DeltaVector)
STD = (BitVector, UIntVector, SIntVector)


def signed(K):
    return issubclass(K, SIntVector)


class SizedU8(UIntVector[8]): pass
class SizedS16(SIntVector[16]): pass


def check_bv(ctx, r, T, want, what):
    """r must be exactly a T holding the pattern want."""
    if type(r) is not T:
        ctx.check(False, f'{what}: type', f'got {type(r).__name__}, expected {T.__name__}')
    n = T.size
    got = r.as_uint()
    if not (type(got) is int and 0 <= got <= mask(n)):
        ctx.check(False, f'{what}: out of range', f'{got!r} in {T.__name__}')
    if got != want:
        ctx.check(False, f'{what}: value', f'{T.__name__}: got {got:#x}, expected {want:#x}')


def check_bit(ctx, r, want, what, detail=''):
    if type(r) is not Bit:
        ctx.check(False, f'{what}: type', f'got {type(r).__name__}, expected Bit; {detail}')
    if bool(r) is not bool(want):
        ctx.check(False, f'{what}: value', f'got {r!r}, expected {bool(want)}; {detail() if callable(detail) else detail}')


def pick_type(rng, n, kinds=KINDS):
    K = rng.choice(kinds)
    return K, K[n]


def pick_any(rng, n, kinds=KINDS):
    """or a class derived from the sized type (it has no unsized type, so nothing of another width)"""
    K = rng.choice(kinds)
    return K, derived(K[n]) if rng.random() < .12 else K[n]


_derived = {}                                   # a few live ones, by sized type


def derived(T):
    if len(_derived) > 400:
        _derived.clear()
    if T not in _derived:
        _derived[T] = type(T)(f'Derived{T.__name__[:6]}{T.size}', (T,), {})
    return _derived[T]
