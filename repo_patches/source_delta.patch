From 44455c4e8b6cbd1f0cd961bdad9fbe698ee0e800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:55 +0000
Subject: [PATCH 01/59] fix: reflected >> shifted the wrong operand

---
 hwtypes/bit_vector.py     | 2 +-
 hwtypes/smt_bit_vector.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwtypes/bit_vector.py b/hwtypes/bit_vector.py
index a733582..30b0179 100644
--- a/hwtypes/bit_vector.py
+++ b/hwtypes/bit_vector.py
@@ -414,7 +414,7 @@ class BitVector(AbstractBitVector):
     __rlshift__ = dispatch_roper(__lshift__)
 
     __rshift__ = dispatch_oper(bvlshr)
-    __rrshift__ = dispatch_oper(__rshift__)
+    __rrshift__ = dispatch_roper(__rshift__)
 
     def __neg__(self): return self.bvneg()
 
diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index dc4acfb..8c42d3c 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -532,7 +532,7 @@ class SMTBitVector(AbstractBitVector):
     __rlshift__ = dispatch_roper(__lshift__)
 
     __rshift__ = dispatch_oper(bvlshr)
-    __rrshift__ = dispatch_oper(__rshift__)
+    __rrshift__ = dispatch_roper(__rshift__)
 
     def __neg__(self): return self.bvneg()
 
-- 
2.43.0


From 89341caebc4f2943493f1d3e219cdf0acecebfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:55 +0000
Subject: [PATCH 02/59] fix: reflected operators raised NameError on operands
 that cannot be coerced

---
 hwtypes/bit_vector.py     | 2 +-
 hwtypes/smt_bit_vector.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwtypes/bit_vector.py b/hwtypes/bit_vector.py
index 30b0179..ff0a38e 100644
--- a/hwtypes/bit_vector.py
+++ b/hwtypes/bit_vector.py
@@ -165,7 +165,7 @@ def dispatch_roper(method: Method):
     def roper(self, other):
         try:
             other = _coerce(type(self), other)
-        except inconsistentsizeerror as e:
+        except InconsistentSizeError as e:
             raise e from None
         except TypeError:
             return NotImplemented
diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index 8c42d3c..228495a 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -211,7 +211,7 @@ def dispatch_roper(method: Method):
     def roper(self, other):
         try:
             other = _coerce(type(self), other)
-        except inconsistentsizeerror as e:
+        except InconsistentSizeError as e:
             raise e from None
         except TypeError:
             return NotImplemented
-- 
2.43.0


From 1776de39851dadc00feb65f649299768a1b03bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:55 +0000
Subject: [PATCH 03/59] fix: BitVector.sext(0) raised ValueError

---
 hwtypes/bit_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/bit_vector.py b/hwtypes/bit_vector.py
index ff0a38e..c792ad7 100644
--- a/hwtypes/bit_vector.py
+++ b/hwtypes/bit_vector.py
@@ -482,7 +482,7 @@ class BitVector(AbstractBitVector):
             raise ValueError()
 
         T = type(self).unsized_t
-        return self.concat(T[1](self[-1]).repeat(ext))
+        return self.concat(T[ext](-int(self[-1])))
 
     def ext(self, ext):
         return self.zext(ext)
-- 
2.43.0


From 66b2e884027da2c9b40ba00eb473dbd157858123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:55 +0000
Subject: [PATCH 04/59] fix: repeat of a symbolic vector built a value of the
 wrong width

---
 hwtypes/smt_bit_vector.py | 2 +-
 hwtypes/z3_bit_vector.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index 228495a..238a864 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -560,7 +560,7 @@ class SMTBitVector(AbstractBitVector):
 
     @int_cast
     def repeat(self, other):
-        return type(self)(smt.get_env().formula_manager.BVRepeat(self.value, other))
+        return type(self).unsized_t[self.size * other](smt.get_env().formula_manager.BVRepeat(self.value, other))
 
     @int_cast
     def sext(self, ext):
diff --git a/hwtypes/z3_bit_vector.py b/hwtypes/z3_bit_vector.py
index 582d6a8..64b663d 100644
--- a/hwtypes/z3_bit_vector.py
+++ b/hwtypes/z3_bit_vector.py
@@ -494,7 +494,7 @@ class z3BitVector(AbstractBitVector):
 
     @int_cast
     def repeat(self, n):
-        return type(self)(z3.RepeatBitVec(n, self.value))
+        return type(self).unsized_t[self.size * n](z3.RepeatBitVec(n, self.value))
 
     @int_cast
     def sext(self, ext):
-- 
2.43.0


From 901dba5adefbe20e96cbb99af7dcad321fbc55a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:55 +0000
Subject: [PATCH 05/59] fix: SMTBit had no reflected xor

---
 hwtypes/smt_bit_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index 238a864..0e5f605 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -148,7 +148,7 @@ class SMTBit(AbstractBit):
         return type(self)(smt.Xor(self.value, other.value))
 
     @bit_cast
-    def __xor__(self, other : 'SMTBit') -> 'SMTBit':
+    def __rxor__(self, other : 'SMTBit') -> 'SMTBit':
         return type(self)(smt.Xor(other.value, self.value))
 
     def ite(self, t_branch, f_branch):
-- 
2.43.0


From 0eedab37644bb92e9b7c5695f98d4871ff9c016d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:55 +0000
Subject: [PATCH 06/59] fix: SMTFPVector.to_sbv raised KeyError

---
 hwtypes/smt_fp_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/smt_fp_vector.py b/hwtypes/smt_fp_vector.py
index 4b7acd2..8437c33 100644
--- a/hwtypes/smt_fp_vector.py
+++ b/hwtypes/smt_fp_vector.py
@@ -180,7 +180,7 @@ class SMTFPVector(AbstractFPVector):
 
     def to_sbv(self, size : int) -> SMTBitVector:
         cls = type(self)
-        ufs = _uf_table[cls]['to_usbv']
+        ufs = _uf_table[cls]['to_sbv']
         if size not in ufs:
             name = '.'.join((cls.__name__, f'to_sbv[{size}]'))
             ufs[size] = shortcuts.Symbol(
-- 
2.43.0


From a2da55cfc96f5abcc662d77ed4a036df91c48981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:55 +0000
Subject: [PATCH 07/59] fix: an unbound subclass of SMTFPVector could not be
 defined

---
 hwtypes/smt_fp_vector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hwtypes/smt_fp_vector.py b/hwtypes/smt_fp_vector.py
index 8437c33..c301d2f 100644
--- a/hwtypes/smt_fp_vector.py
+++ b/hwtypes/smt_fp_vector.py
@@ -72,6 +72,8 @@ class SMTFPVector(AbstractFPVector):
         self._value = value
 
     def __init_subclass__(cls):
+        if not cls.is_bound:
+            return
         _uf_table[cls] = ufs = dict()
         T = BVType(cls.size)
         for method_name, *args in _SIGS:
-- 
2.43.0


From ed54c88ab8198baabef961ee7af512ad9bf38a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:55 +0000
Subject: [PATCH 08/59] fix: assigning a field left the Tuple value a list,
 breaking == and hash

---
 hwtypes/adt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/adt.py b/hwtypes/adt.py
index 918c530..12ca702 100644
--- a/hwtypes/adt.py
+++ b/hwtypes/adt.py
@@ -49,7 +49,7 @@ class Tuple(metaclass=TupleMeta):
         if isinstance(value, type(self)[idx]):
             v = list(self._value_)
             v[idx] = value
-            self._value_ = v
+            self._value_ = tuple(v)
         else:
             raise TypeError(f'Value {value} is not of type {type(self)[idx]}')
 
-- 
2.43.0


From ed837d5edcee2a0b2a6417e8bb7b3eb974da1b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:55 +0000
Subject: [PATCH 09/59] fix: slice assignment could change the length and field
 types of a Tuple

---
 hwtypes/adt.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hwtypes/adt.py b/hwtypes/adt.py
index 12ca702..66e585f 100644
--- a/hwtypes/adt.py
+++ b/hwtypes/adt.py
@@ -46,7 +46,9 @@ class Tuple(metaclass=TupleMeta):
         return self._value_[idx]
 
     def __setitem__(self, idx, value):
-        if isinstance(value, type(self)[idx]):
+        if isinstance(idx, slice):
+            raise TypeError(f'{type(self)} does not support slice assignment')
+        elif isinstance(value, type(self)[idx]):
             v = list(self._value_)
             v[idx] = value
             self._value_ = tuple(v)
-- 
2.43.0


From 8a6a2d45461f2974382ac3fdfcc93f82f148e663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:55 +0000
Subject: [PATCH 10/59] fix: SMTBitVector[1].as_sint failed

---
 hwtypes/smt_bit_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index 0e5f605..1ee6fc5 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -599,7 +599,7 @@ class SMTBitVector(AbstractBitVector):
     def as_sint(self):
         #Avoids circular import
         from . import SMTInt
-        return SMTInt(self[:-1]) - SMTInt(self & (1<<(self.size-1)))
+        return SMTInt(self) - 2*SMTInt(self & (1<<(self.size-1)))
 #
 #    @classmethod
 #    def random(cls, width):
-- 
2.43.0


From a8dea6ebaa4eb10aba445155dc1471384964f9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:55 +0000
Subject: [PATCH 11/59] fix: subclassing a bound FPVector failed (gmpy2
 contexts have no trap_expbound)

---
 hwtypes/fp_vector.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/hwtypes/fp_vector.py b/hwtypes/fp_vector.py
index ff294a3..b032b04 100644
--- a/hwtypes/fp_vector.py
+++ b/hwtypes/fp_vector.py
@@ -123,7 +123,6 @@ class FPVector(AbstractFPVector):
                         or c_ctx.trap_inexact != ctx.trap_inexact
                         or c_ctx.trap_erange != ctx.trap_erange
                         or c_ctx.trap_divzero != ctx.trap_divzero
-                        or c_ctx.trap_expbound != ctx.trap_expbound
                         or c_ctx.allow_complex != ctx.allow_complex):
                     # this basically should never happen unless some one does
                     # class Foo(FPVector):
-- 
2.43.0


From ce8549cc9b012b42047dc5c80c0bf03eb21a8521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:55 +0000
Subject: [PATCH 12/59] fix: fp_abs(-0) returned -0

---
 hwtypes/fp_vector.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hwtypes/fp_vector.py b/hwtypes/fp_vector.py
index b032b04..cab266d 100644
--- a/hwtypes/fp_vector.py
+++ b/hwtypes/fp_vector.py
@@ -138,8 +138,7 @@ class FPVector(AbstractFPVector):
 
     @set_context
     def fp_abs(self) -> 'FPVector':
-        v = self._value
-        return type(self)(v if v >= 0 else -v)
+        return type(self)(abs(self._value))
 
     @set_context
     def fp_neg(self) -> 'FPVector':
-- 
2.43.0


From 0eb3516bfa7e601c58f66d2a29c528cf5d7488a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:03 +0000
Subject: [PATCH 13/59] fix: validity of a type parameter depended on which
 types were built before

---
 hwtypes/bit_vector_abc.py |  7 +++++--
 hwtypes/fp_vector_abc.py  | 10 ++++++----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/hwtypes/bit_vector_abc.py b/hwtypes/bit_vector_abc.py
index 44d22a9..1039418 100644
--- a/hwtypes/bit_vector_abc.py
+++ b/hwtypes/bit_vector_abc.py
@@ -74,13 +74,16 @@ class AbstractBitVectorMeta(type): #:(ABCMeta):
 
     def __getitem__(cls, idx : int) -> 'AbstractBitVectorMeta':
         mcs = type(cls)
+        # Check before looking in the cache: 8.0 == 8 and True == 1
+        if not isinstance(idx, int):
+            raise TypeError('Size of BitVectors must be of type int not {}'.format(type(idx)))
+        idx = int(idx)
+
         try:
             return mcs._class_cache[cls, idx]
         except KeyError:
             pass
 
-        if not isinstance(idx, int):
-            raise TypeError('Size of BitVectors must be of type int not {}'.format(type(idx)))
         if idx < 0:
             raise ValueError('Size of BitVectors must be positive')
 
diff --git a/hwtypes/fp_vector_abc.py b/hwtypes/fp_vector_abc.py
index 6b6a6e8..7c5ec2e 100644
--- a/hwtypes/fp_vector_abc.py
+++ b/hwtypes/fp_vector_abc.py
@@ -43,18 +43,20 @@ class AbstractFPVectorMeta(ABCMeta):
 
     def __getitem__(cls, idx : tp.Tuple[int, int, RoundingMode, bool]):
         mcs = type(cls)
-        try:
-            return mcs._class_cache[cls, idx]
-        except KeyError:
-            pass
 
         if cls.is_bound:
             raise TypeError(f'{cls} is already bound')
 
+        # Check before looking in the cache: 8.0 == 8 and 1 == True
         if len(idx) != 4 or tuple(map(type,idx)) != (int, int, RoundingMode, bool):
             raise IndexError(f'Constructing a floating point type requires:\n'
                     'exponent bits : int, mantisa bits : int, RoundingMode, ieee_compliance : bool')
 
+        try:
+            return mcs._class_cache[cls, idx]
+        except KeyError:
+            pass
+
         eb, mb, mode, ieee_compliance = idx
 
         if eb <= 0 or mb <= 0:
-- 
2.43.0


From b0e3c24a1a2cb8e0aa8aa16c8530f0b3805a2ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:03 +0000
Subject: [PATCH 14/59] fix: rebind, strip_modifiers and push_modifiers failed
 on AnonymousProduct

---
 hwtypes/adt_meta.py  | 11 +++++++++++
 hwtypes/modifiers.py |  8 +++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/hwtypes/adt_meta.py b/hwtypes/adt_meta.py
index e0911c8..4704884 100644
--- a/hwtypes/adt_meta.py
+++ b/hwtypes/adt_meta.py
@@ -462,6 +462,17 @@ def __init__(self, {type_sig}):
     def field_dict(cls):
         return MappingProxyType(cls._field_table_)
 
+    def rebind(cls, A: type, B: type, rebind_sub_types: bool = False, rebind_recursive: bool = True):
+        new_fields = OrderedDict()
+        for field, T in cls.field_dict.items():
+            if T == A or (rebind_sub_types and _issubclass(T,A)):
+                new_fields[field] = B
+            elif rebind_recursive and isinstance(T, BoundMeta):
+                new_fields[field] = T.rebind(A, B, rebind_sub_types)
+            else:
+                new_fields[field] = T
+        return cls.unbound_t[new_fields]
+
 
 class ProductMeta(_AttrSyntax, AnonymousProductMeta):
     FIELDS_T = type
diff --git a/hwtypes/modifiers.py b/hwtypes/modifiers.py
index f26e514..e5f6aac 100644
--- a/hwtypes/modifiers.py
+++ b/hwtypes/modifiers.py
@@ -1,6 +1,6 @@
 import types
 import weakref
-from .adt_meta import GetitemSyntax, AttrSyntax, EnumMeta
+from .adt_meta import GetitemSyntax, AttrSyntax, EnumMeta, AnonymousProductMeta
 
 
 __ALL__ = ['new', 'make_modifier', 'is_modified', 'is_modifier', 'get_modifier', 'get_unmodified', 'strip_modifiers', 'push_modifiers']
@@ -142,6 +142,9 @@ def strip_modifiers(adt_t):
     elif isinstance(adt_t, AttrSyntax) and not isinstance(adt_t, EnumMeta):
         new_fields = {n:strip_modifiers(sub_adt_t) for n, sub_adt_t in adt_t.field_dict.items()}
         return adt_t.unbound_t.from_fields(adt_t.__name__, new_fields)
+    elif isinstance(adt_t, AnonymousProductMeta):
+        new_fields = {n:strip_modifiers(sub_adt_t) for n, sub_adt_t in adt_t.field_dict.items()}
+        return adt_t.unbound_t[new_fields]
     elif isinstance(adt_t, GetitemSyntax):
         new_fields = [strip_modifiers(sub_adt_t) for sub_adt_t in adt_t.fields]
         return adt_t.unbound_t[new_fields]
@@ -156,6 +159,9 @@ def push_modifiers(adt_t, mods=[]):
     if isinstance(adt_t, AttrSyntax) and not isinstance(adt_t, EnumMeta):
         new_fields = {n:push_modifiers(sub_adt_t, mods) for n, sub_adt_t in adt_t.field_dict.items()}
         return adt_t.unbound_t.from_fields(adt_t.__name__, new_fields)
+    elif isinstance(adt_t, AnonymousProductMeta):
+        new_fields = {n:push_modifiers(sub_adt_t, mods) for n, sub_adt_t in adt_t.field_dict.items()}
+        return adt_t.unbound_t[new_fields]
     elif isinstance(adt_t, GetitemSyntax):
         new_fields = [push_modifiers(sub_adt_t, mods) for sub_adt_t in adt_t.fields]
         return adt_t.unbound_t[new_fields]
-- 
2.43.0


From 8ec244e531b1f8473f0eff330aa57dc2d540b404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:03 +0000
Subject: [PATCH 15/59] fix: rebind_type raised NameError on a modified type

---
 hwtypes/adt_util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hwtypes/adt_util.py b/hwtypes/adt_util.py
index 223750a..02f7992 100644
--- a/hwtypes/adt_util.py
+++ b/hwtypes/adt_util.py
@@ -126,7 +126,8 @@ def rebind_type(T, family):
     if not isclass(T):
         return T
     elif is_modified(T):
-        return get_modifier(T)(rebind_type(get_unmodified(T), family, dont_rebind, do_rebind, is_magma))
+        unmod, mods = unwrap_modifier(T)
+        return wrap_modifier(rebind_type(unmod, family), mods)
     elif issubclass(T, AbstractBitVector):
         return rebind_bitvector(T, AbstractBitVector, family.BitVector)
     elif issubclass(T, AbstractBit):
-- 
2.43.0


From 62fee4389fbb42d2699e2152986634d13c700068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:03 +0000
Subject: [PATCH 16/59] fix: left shift of a wide vector by a large amount
 raised MemoryError

---
 hwtypes/bit_vector.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hwtypes/bit_vector.py b/hwtypes/bit_vector.py
index c792ad7..3547d3a 100644
--- a/hwtypes/bit_vector.py
+++ b/hwtypes/bit_vector.py
@@ -283,7 +283,10 @@ class BitVector(AbstractBitVector):
 
     @bv_cast
     def bvshl(self, other):
-        return type(self)(self.as_uint() << other.as_uint())
+        shift = other.as_uint()
+        if shift >= self.size:
+            return type(self)(0)
+        return type(self)(self.as_uint() << shift)
 
     @bv_cast
     def bvlshr(self, other):
-- 
2.43.0


From b3cf57fe0248f1d18983a6f11d44dd0af2ad3883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:03 +0000
Subject: [PATCH 17/59] fix: remainder by zero returned the mutable operand
 itself

---
 hwtypes/bit_vector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwtypes/bit_vector.py b/hwtypes/bit_vector.py
index 3547d3a..22f867f 100644
--- a/hwtypes/bit_vector.py
+++ b/hwtypes/bit_vector.py
@@ -385,7 +385,7 @@ class BitVector(AbstractBitVector):
     def bvurem(self, other):
         other = other.as_uint()
         if other == 0:
-            return self
+            return type(self)(self)
         return type(self)(self.as_uint() % other)
 
     @bv_cast
@@ -399,7 +399,7 @@ class BitVector(AbstractBitVector):
     def bvsrem(self, other):
         other = other.as_sint()
         if other == 0:
-            return self
+            return type(self)(self)
         return type(self)(self.as_sint() % other)
 
     def __invert__(self): return self.bvnot()
-- 
2.43.0


From f08be574e942620c35bcee46d9342bf078eb89a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:03 +0000
Subject: [PATCH 18/59] fix: z3SIntVector.ext zero extended

---
 hwtypes/z3_bit_vector.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hwtypes/z3_bit_vector.py b/hwtypes/z3_bit_vector.py
index 64b663d..9b2af8f 100644
--- a/hwtypes/z3_bit_vector.py
+++ b/hwtypes/z3_bit_vector.py
@@ -558,6 +558,9 @@ class z3SIntVector(z3NumVector):
     def __le__(self, other):
         return self.bvsle(other)
 
+    def ext(self, other):
+        return self.sext(other)
+
 _Family_ = ht.TypeFamily(z3Bit, z3BitVector, z3UIntVector, z3SIntVector)
 
 
-- 
2.43.0


From 7d28064fefb16c224c94ecbb90424b8e54f107d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:03 +0000
Subject: [PATCH 19/59] fix: z3Bit.ite on two bits returned a bit vector

---
 hwtypes/z3_bit_vector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hwtypes/z3_bit_vector.py b/hwtypes/z3_bit_vector.py
index 9b2af8f..fd36f79 100644
--- a/hwtypes/z3_bit_vector.py
+++ b/hwtypes/z3_bit_vector.py
@@ -128,6 +128,8 @@ class z3Bit(AbstractBit):
     def ite(self, t_branch, f_branch):
         tb_t = type(t_branch)
         fb_t = type(f_branch)
+        if isinstance(t_branch, z3Bit) and tb_t is fb_t:
+            return tb_t(z3.If(self.value, t_branch.value, f_branch.value))
         BV_t = self.get_family().BitVector
         if isinstance(t_branch, BV_t) and isinstance(f_branch, BV_t):
             if tb_t is not fb_t:
-- 
2.43.0


From 1edd2e7bc006d909ea977546a5bdd262c226bbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:03 +0000
Subject: [PATCH 20/59] fix: SMTInt // rounded up for a negative divisor

---
 hwtypes/smt_int.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hwtypes/smt_int.py b/hwtypes/smt_int.py
index 9b7b17a..bb3b46a 100644
--- a/hwtypes/smt_int.py
+++ b/hwtypes/smt_int.py
@@ -23,6 +23,10 @@ def int_cast(fn):
             return fn(self, other)
     return wrapped
 
+def _floordiv(l, r):
+    # smt Div rounds up when the divisor is negative
+    return smt.Ite(smt.GT(r, smt.Int(0)), smt.Div(l, r), smt.Div(-l, -r))
+
 class SMTInt:
     def __init__(self, value=SMYBOLIC, *, name=AUTOMATIC, prefix=AUTOMATIC):
         if (name is not AUTOMATIC or prefix is not AUTOMATIC) and value is not SMYBOLIC:
@@ -106,11 +110,11 @@ class SMTInt:
 
     @int_cast
     def __floordiv__(self, other: 'SMTInt') -> 'SMTInt':
-        return SMTInt(smt.Div(self.value, other.value))
+        return SMTInt(_floordiv(self.value, other.value))
 
     @int_cast
     def __rfloordiv__(self, other: 'SMTInt') -> 'SMTInt':
-        return SMTInt(smt.Div(other.value, self.value))
+        return SMTInt(_floordiv(other.value, self.value))
 
     @int_cast
     def __ge__(self, other: 'SMTInt') -> SMTBit:
-- 
2.43.0


From 18428d0edd949b52ab6fec039717f7fa0f6b277c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:03 +0000
Subject: [PATCH 21/59] fix: SMTBitVector could not be built from an int-like
 object out of range

---
 hwtypes/smt_bit_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index 1ee6fc5..5eb1b93 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -285,7 +285,7 @@ class SMTBitVector(AbstractBitVector):
 
         elif hasattr(value, '__int__'):
             value = int(value)
-            self._value = smt.BV(value, self.size)
+            self._value = smt.BV(value % (1 << self.size), self.size)
         else:
             raise TypeError("Can't coerce {} to SMTBitVector".format(type(value)))
 
-- 
2.43.0


From be498097e37a5c90231d6c3e89b9d4c017e891b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:03 +0000
Subject: [PATCH 22/59] fix: SMTBitVector rotations failed for amounts larger
 than the width

---
 hwtypes/smt_bit_vector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index 5eb1b93..f50ec86 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -415,11 +415,11 @@ class SMTBitVector(AbstractBitVector):
 
     @int_cast
     def bvrol(self, other):
-        return type(self)(smt.get_env().formula_manager.BVRol(self.value, other))
+        return type(self)(smt.get_env().formula_manager.BVRol(self.value, other % self.size))
 
     @int_cast
     def bvror(self, other):
-        return type(self)(smt.get_env().formula_manager.BVRor(self.value, other))
+        return type(self)(smt.get_env().formula_manager.BVRor(self.value, other % self.size))
 
     @bv_cast
     def bvcomp(self, other):
-- 
2.43.0


From a461a906d5286985e7c4eca9f3692dd5b80ca9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:03 +0000
Subject: [PATCH 23/59] fix: ADT visitors without their own visit_leaf failed
 on leaves

---
 hwtypes/adt_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/adt_util.py b/hwtypes/adt_util.py
index 02f7992..41e5388 100644
--- a/hwtypes/adt_util.py
+++ b/hwtypes/adt_util.py
@@ -32,7 +32,7 @@ class _ADTVisitor(metaclass=ABCMeta):
     @abstractmethod
     def generic_visit(self, adt_t): pass
 
-    def visit_Leaf(self, adt_t):  pass
+    def visit_leaf(self, adt_t):  pass
 
     def visit_Enum(self, adt_t): pass
 
-- 
2.43.0


From 68b5587534e7adad9b772ec72bc72a7689207832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:03 +0000
Subject: [PATCH 24/59] fix: symbolic values were silently true in a boolean
 context

---
 hwtypes/smt_bit_vector.py | 3 +++
 hwtypes/z3_bit_vector.py  | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index f50ec86..bb4cfa6 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -368,6 +368,9 @@ class SMTBitVector(AbstractBitVector):
     def __len__(self):
         return self.size
 
+    def __bool__(self):
+        raise TypeError('SMTBitVector cannot be converted to bool')
+
     def concat(self, other):
         T = type(self).unsized_t
         if not isinstance(other, T):
diff --git a/hwtypes/z3_bit_vector.py b/hwtypes/z3_bit_vector.py
index fd36f79..5b98ba1 100644
--- a/hwtypes/z3_bit_vector.py
+++ b/hwtypes/z3_bit_vector.py
@@ -155,6 +155,9 @@ class z3Bit(AbstractBit):
 
         return T(z3.If(self.value, t_branch.value, f_branch.value))
 
+    def __bool__(self):
+        raise TypeError('z3Bit cannot be converted to bool')
+
 def _coerce(T : tp.Type['z3BitVector'], val : tp.Any) -> 'z3BitVector':
     if not isinstance(val, z3BitVector):
         return T(val)
@@ -321,6 +324,9 @@ class z3BitVector(AbstractBitVector):
     def __len__(self):
         return self.size
 
+    def __bool__(self):
+        raise TypeError('z3BitVector cannot be converted to bool')
+
     def concat(self, other):
         T = type(self).unsized_t
         if not isinstance(other, T):
-- 
2.43.0


From 8bc6df79548699425bd4b4ac6d911d14b7a3c913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:03 +0000
Subject: [PATCH 25/59] fix: FPVector.random always drew the same mantissa and
 could return inf with allow_inf=False

---
 hwtypes/fp_vector.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/hwtypes/fp_vector.py b/hwtypes/fp_vector.py
index cab266d..903ce26 100644
--- a/hwtypes/fp_vector.py
+++ b/hwtypes/fp_vector.py
@@ -380,14 +380,9 @@ class FPVector(AbstractFPVector):
     @classmethod
     @set_context
     def random(cls, allow_inf=True) -> 'FPVector':
-        bias = (1 << (cls.exponent_size - 1)) - 1
-        if allow_inf:
-            sign = random.choice([-1, 1])
-            mantissa = gmpy2.mpfr_random(gmpy2.random_state()) + 1
-            exp = random.randint(1-bias, bias+1)
-            return cls(mantissa*sign*(gmpy2.mpfr(2)**gmpy2.mpfr(exp)))
-        else:
-            sign = random.choice([-1, 1])
-            mantissa = gmpy2.mpfr_random(gmpy2.random_state()) + 1
-            exp = random.randint(1-bias, bias)
-            return cls(mantissa*sign*(gmpy2.mpfr(2)**gmpy2.mpfr(exp)))
+        eb, mb = cls.exponent_size, cls.mantissa_size
+        max_exp = (1 << eb) - 1
+        exp = random.randint(1, max_exp if allow_inf else max_exp - 1)
+        mantissa = 0 if exp == max_exp else random.getrandbits(mb)
+        bits = BitVector[mb](mantissa).concat(BitVector[eb](exp))
+        return cls.reinterpret_from_bv(bits.concat(BitVector[1](random.getrandbits(1))))
-- 
2.43.0


From 505557542490de6b49302eea8bcd53a3be2e3cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:03 +0000
Subject: [PATCH 26/59] fix: two classes differing only in special methods were
 the same type

---
 hwtypes/adt_meta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/adt_meta.py b/hwtypes/adt_meta.py
index 4704884..a52fd1e 100644
--- a/hwtypes/adt_meta.py
+++ b/hwtypes/adt_meta.py
@@ -153,7 +153,7 @@ class _AttrSyntax(type): #, metaclass=ABCMeta):
             if cache:
                 ns_idx = set()
                 for k,v in ns.items():
-                    if not _is_dunder(k):
+                    if not _is_dunder(k) or _is_descriptor(v):
                         ns_idx.add((k,v))
 
                 if mcs.ORDERED:
-- 
2.43.0


From bd4e6b8570b867217d4202ff2a5538f03226f1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:03 +0000
Subject: [PATCH 27/59] fix: a generated name could be that of an existing
 symbol

---
 hwtypes/smt_bit_vector.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index bb4cfa6..d794a82 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -26,7 +26,9 @@ _name_table = weakref.WeakValueDictionary()
 
 def _gen_name(prefix='V'):
     name = f'{prefix}_{next(_var_counters[prefix])}'
-    while name in _name_table:
+    # A symbol outlives the object that declared it
+    symbols = smt.get_env().formula_manager.symbols
+    while name in _name_table or name in symbols:
         name = f'{prefix}_{next(_var_counters[prefix])}'
     return name
 
-- 
2.43.0


From 158728eb75728aca97c11143c5366529833c498f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:03 +0000
Subject: [PATCH 28/59] fix: SMTFPVector names could alias those of other
 symbolic variables

---
 hwtypes/smt_fp_vector.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hwtypes/smt_fp_vector.py b/hwtypes/smt_fp_vector.py
index c301d2f..ba99638 100644
--- a/hwtypes/smt_fp_vector.py
+++ b/hwtypes/smt_fp_vector.py
@@ -4,7 +4,7 @@ import pysmt
 import pysmt.shortcuts as shortcuts
 from pysmt.typing import  BVType, BOOL, FunctionType
 
-from .smt_bit_vector import SMTBit, SMTBitVector, SMTSIntVector, SMYBOLIC, AUTOMATIC
+from .smt_bit_vector import SMTBit, SMTBitVector, SMTSIntVector, SMYBOLIC, AUTOMATIC, _name_table
 from .fp_vector_abc import AbstractFPVector, RoundingMode
 
 # using None to represent cls
@@ -35,7 +35,6 @@ _SIGS = [
     ('fp_is_positive', None, BOOL,),
 ]
 
-_name_table = weakref.WeakValueDictionary()
 _uf_table = weakref.WeakKeyDictionary()
 
 
-- 
2.43.0


From 49e8e35dc2fde186a7e76e0247979e48fa8e85ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:03 +0000
Subject: [PATCH 29/59] fix: make_constant of symbolic vectors was not a class
 method

---
 hwtypes/smt_bit_vector.py | 7 ++++---
 hwtypes/z3_bit_vector.py  | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index d794a82..8f2c204 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -294,10 +294,11 @@ class SMTBitVector(AbstractBitVector):
         self._value = smt.simplify(self._value)
         assert self._value.get_type() is T
 
-    def make_constant(self, value, size:tp.Optional[int]=None):
+    @classmethod
+    def make_constant(cls, value, size:tp.Optional[int]=None):
         if size is None:
-            size = self.size
-        return type(self).unsized_t[size](value)
+            size = cls.size
+        return cls.unsized_t[size](value)
 
     @property
     def value(self):
diff --git a/hwtypes/z3_bit_vector.py b/hwtypes/z3_bit_vector.py
index 5b98ba1..44f5fee 100644
--- a/hwtypes/z3_bit_vector.py
+++ b/hwtypes/z3_bit_vector.py
@@ -248,10 +248,11 @@ class z3BitVector(AbstractBitVector):
         self._value = z3.simplify(self._value)
         assert self._value.sort() == T
 
-    def make_constant(self, value, size:tp.Optional[int]=None):
+    @classmethod
+    def make_constant(cls, value, size:tp.Optional[int]=None):
         if size is None:
-            size = self.size
-        return type(self).unsized_t[size](value)
+            size = cls.size
+        return cls.unsized_t[size](value)
 
     @property
     def value(self):
-- 
2.43.0


From cd3b0fbd233acff77a36c7dcb43ae623610c23d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:09 +0000
Subject: [PATCH 30/59] fix: SMTInt and SMTFPVector were silently true in a
 boolean context

---
 hwtypes/smt_fp_vector.py | 3 +++
 hwtypes/smt_int.py       | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/hwtypes/smt_fp_vector.py b/hwtypes/smt_fp_vector.py
index ba99638..4bd7f29 100644
--- a/hwtypes/smt_fp_vector.py
+++ b/hwtypes/smt_fp_vector.py
@@ -198,6 +198,9 @@ class SMTFPVector(AbstractFPVector):
     def reinterpret_from_bv(cls, value: SMTBitVector) -> 'SMTFPVector':
         return cls(value._value)
 
+    def __bool__(self):
+        raise TypeError('SMTFPVector cannot be converted to bool')
+
     def __neg__(self): return self.fp_neg()
     def __abs__(self): return self.fp_abs()
     def __add__(self, other): return self.fp_add(other)
diff --git a/hwtypes/smt_int.py b/hwtypes/smt_int.py
index bb3b46a..253d1c1 100644
--- a/hwtypes/smt_int.py
+++ b/hwtypes/smt_int.py
@@ -83,6 +83,9 @@ class SMTInt:
     def value(self):
         return self._value
 
+    def __bool__(self):
+        raise TypeError('SMTInt cannot be converted to bool')
+
     def __neg__(self):
         return SMTInt(0) - self
 
-- 
2.43.0


From f8ac52c104ba227206864fd73d1fb7b48d4da40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:50 +0000
Subject: [PATCH 31/59] fix: bound subclasses of SMTFPVector with one name and
 different formats clashed

---
 hwtypes/smt_fp_vector.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/hwtypes/smt_fp_vector.py b/hwtypes/smt_fp_vector.py
index 4bd7f29..2e72272 100644
--- a/hwtypes/smt_fp_vector.py
+++ b/hwtypes/smt_fp_vector.py
@@ -37,6 +37,16 @@ _SIGS = [
 
 _uf_table = weakref.WeakKeyDictionary()
 
+def _uf_name(cls, method_name):
+    # The name of a class inheriting from a bound type says nothing about its
+    # format, but functions of different formats must be different symbols
+    eb, mb, mode, ieee_compliance = cls.binding
+    binding = f'[{eb},{mb},{mode},{ieee_compliance}]'
+    name = cls.__name__
+    if not name.endswith(binding):
+        name += binding
+    return f'{name}.{method_name}'
+
 
 class SMTFPVector(AbstractFPVector):
     def __init__(self, value=SMYBOLIC, *, name=AUTOMATIC):
@@ -79,7 +89,7 @@ class SMTFPVector(AbstractFPVector):
             args = [T if x is None else x for x in args]
             rtype = args[-1]
             params = args[:-1]
-            name = '.'.join((cls.__name__, method_name))
+            name = _uf_name(cls, method_name)
             ufs[method_name] = shortcuts.Symbol(name, FunctionType(rtype, params))
 
         ufs['to_sbv'] = dict()
@@ -171,7 +181,7 @@ class SMTFPVector(AbstractFPVector):
         cls = type(self)
         ufs = _uf_table[cls]['to_ubv']
         if size not in ufs:
-            name = '.'.join((cls.__name__, f'to_ubv[{size}]'))
+            name = _uf_name(cls, f'to_ubv[{size}]')
             ufs[size] = shortcuts.Symbol(
                 name,
                 FunctionType(BVType(size), (BVType(self.size),))
@@ -183,7 +193,7 @@ class SMTFPVector(AbstractFPVector):
         cls = type(self)
         ufs = _uf_table[cls]['to_sbv']
         if size not in ufs:
-            name = '.'.join((cls.__name__, f'to_sbv[{size}]'))
+            name = _uf_name(cls, f'to_sbv[{size}]')
             ufs[size] = shortcuts.Symbol(
                 name,
                 FunctionType(BVType(size), (BVType(self.size),))
-- 
2.43.0


From 4783c29cf0e440b1696dd4f26e27890a094659f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:53 +0000
Subject: [PATCH 32/59] fix: chained symbolic z3 rotations were wrong unless
 the width is a power of two

---
 hwtypes/z3_bit_vector.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hwtypes/z3_bit_vector.py b/hwtypes/z3_bit_vector.py
index 44f5fee..f8fdc47 100644
--- a/hwtypes/z3_bit_vector.py
+++ b/hwtypes/z3_bit_vector.py
@@ -375,11 +375,17 @@ class z3BitVector(AbstractBitVector):
 
     @bv_cast
     def bvrol(self, other):
-        return type(self)(z3.RotateLeft(self.value, other.value))
+        # Not z3.RotateLeft: z3 simplifies nested rotations by adding their
+        # amounts, which is wrong when it wraps around and size does not
+        # divide 2**size
+        k = z3.URem(other.value, self.size)
+        return type(self)((self.value << k) | z3.LShR(self.value, self.size - k))
 
     @bv_cast
     def bvror(self, other):
-        return type(self)(z3.RotateRight(self.value, other.value))
+        # See bvrol
+        k = z3.URem(other.value, self.size)
+        return type(self)(z3.LShR(self.value, k) | (self.value << (self.size - k)))
 
     @bv_cast
     def bvcomp(self, other):
-- 
2.43.0


From 2003e4b226f14e4475e2bc6d3059113927243f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:34 +0000
Subject: [PATCH 33/59] fix: SMTInt // on large constants was computed in
 floating point

---
 hwtypes/smt_int.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hwtypes/smt_int.py b/hwtypes/smt_int.py
index 253d1c1..8db6f61 100644
--- a/hwtypes/smt_int.py
+++ b/hwtypes/smt_int.py
@@ -24,6 +24,9 @@ def int_cast(fn):
     return wrapped
 
 def _floordiv(l, r):
+    # pysmt folds the division of constants through float
+    if l.is_int_constant() and r.is_int_constant() and not r.is_zero():
+        return smt.Int(l.constant_value() // r.constant_value())
     # smt Div rounds up when the divisor is negative
     return smt.Ite(smt.GT(r, smt.Int(0)), smt.Div(l, r), smt.Div(-l, -r))
 
-- 
2.43.0


From 1a88b30b782a7874229c45d0ee544f807fa833cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:03 +0000
Subject: [PATCH 34/59] fix: the name of an automatic SMTFPVector could be
 taken by another variable

---
 hwtypes/smt_fp_vector.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hwtypes/smt_fp_vector.py b/hwtypes/smt_fp_vector.py
index 2e72272..bd1199f 100644
--- a/hwtypes/smt_fp_vector.py
+++ b/hwtypes/smt_fp_vector.py
@@ -64,6 +64,7 @@ class SMTFPVector(AbstractFPVector):
         if value is SMYBOLIC:
             if name is AUTOMATIC:
                 value = shortcuts.FreshSymbol(T)
+                _name_table[value.symbol_name()] = self
             else:
                 value = shortcuts.Symbol(name, T)
         elif isinstance(value, pysmt.fnode.FNode):
-- 
2.43.0


From c362c1249b3dbe9d74e2c9056a6d1c9326bf9fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:37 +0000
Subject: [PATCH 35/59] fix: SMTBit.ite on another family's branches broke
 pysmt's simplifier for good

---
 hwtypes/smt_bit_vector.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index 8f2c204..8d56dc8 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -155,6 +155,9 @@ class SMTBit(AbstractBit):
 
     def ite(self, t_branch, f_branch):
         def _ite(select, t_branch, f_branch):
+            for branch in (t_branch, f_branch):
+                if branch.get_family() is not _Family_:
+                    raise TypeError(f'Cannot select from {type(branch)} with {type(select)}')
             return smt.Ite(select.value, t_branch.value, f_branch.value)
 
 
-- 
2.43.0


From 3720c160fac71cea6912c9ced6adf6ecb861584a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:06 +0000
Subject: [PATCH 36/59] fix: SMTFPVector.fp_min and fp_max always raised

---
 hwtypes/smt_fp_vector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwtypes/smt_fp_vector.py b/hwtypes/smt_fp_vector.py
index bd1199f..ffaa23b 100644
--- a/hwtypes/smt_fp_vector.py
+++ b/hwtypes/smt_fp_vector.py
@@ -19,8 +19,8 @@ _SIGS = [
     ('fp_sqrt', None, None,),
     ('fp_rem', None, None,None),
     ('fp_round_to_integral', None, None,),
-    ('fp_min', None, None,),
-    ('fp_max', None, None,),
+    ('fp_min', None, None, None),
+    ('fp_max', None, None, None),
     ('fp_leq', None, None, BOOL,),
     ('fp_lt', None, None, BOOL,),
     ('fp_geq', None, None, BOOL,),
-- 
2.43.0


From 94610a1baa4413dfa6f67d10489c653477c0af53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:11 +0000
Subject: [PATCH 37/59] fix: FPVector of a Fraction or Decimal was rounded
 through float first

---
 hwtypes/fp_vector.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hwtypes/fp_vector.py b/hwtypes/fp_vector.py
index 903ce26..dffd098 100644
--- a/hwtypes/fp_vector.py
+++ b/hwtypes/fp_vector.py
@@ -1,3 +1,5 @@
+from decimal import Decimal
+from fractions import Fraction
 import functools
 import gmpy2
 import random
@@ -49,8 +51,10 @@ class FPVector(AbstractFPVector):
             value = gmpy2.mpfr(value, self._ctx_.precision)
         elif isinstance(value, FPVector):
             value = gmpy2.mpfr(value._value, self._ctx_.precision)
-        elif isinstance(value, (int, float, type(gmpy2.mpz(0)), type(gmpy2.mpq(0)))):
+        elif isinstance(value, (int, float, Fraction, type(gmpy2.mpz(0)), type(gmpy2.mpq(0)))):
             value = gmpy2.mpfr(value)
+        elif isinstance(value, Decimal):
+            value = gmpy2.mpfr(str(value))
         elif isinstance(value, str):
             try:
                 #Handles '0.5'
-- 
2.43.0


From 74a4a4ecbea08afb994907283903395239972b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:06 +0000
Subject: [PATCH 38/59] fix: invalid operations without IEEE compliance gave an
 infinity of arbitrary sign

---
 hwtypes/fp_vector.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/hwtypes/fp_vector.py b/hwtypes/fp_vector.py
index dffd098..d9e1944 100644
--- a/hwtypes/fp_vector.py
+++ b/hwtypes/fp_vector.py
@@ -77,11 +77,9 @@ class FPVector(AbstractFPVector):
                 raise TypeError(f"Can't construct FPVector from {type(value)}")
 
         if gmpy2.is_nan(value) and not type(self).ieee_compliance:
-            if gmpy2.is_signed(value):
-                self._value = gmpy2.mpfr('-inf')
-            else:
-                self._value = gmpy2.mpfr('inf')
-
+            # MPFR leaves the sign of a NaN unspecified (it is that of whatever
+            # the memory held before), so it can't decide the sign here
+            self._value = gmpy2.mpfr('inf')
         else:
             self._value = value
 
-- 
2.43.0


From 8e2a4ab481d59636f6bba636c983aaa510aaac47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:17 +0000
Subject: [PATCH 39/59] fix: the sign bit of a reinterpreted NaN was arbitrary

---
 hwtypes/fp_vector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hwtypes/fp_vector.py b/hwtypes/fp_vector.py
index d9e1944..6be7e0d 100644
--- a/hwtypes/fp_vector.py
+++ b/hwtypes/fp_vector.py
@@ -277,7 +277,8 @@ class FPVector(AbstractFPVector):
         elif self.fp_is_NaN():
             exp_bits = BitVector[cls.exponent_size](-1)
             mantissa_bits = BitVector[cls.mantissa_size](1)
-            return mantissa_bits.concat(exp_bits).concat(sign_bit)
+            # MPFR leaves the sign of a NaN unspecified
+            return mantissa_bits.concat(exp_bits).concat(BitVector[1](0))
 
 
         bias = (1 << (cls.exponent_size - 1)) - 1
-- 
2.43.0


From e8056130aa534099b101403941b80dcc7a39f0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:50 +0000
Subject: [PATCH 40/59] fix: Sum values of different alternatives compared
 equal or raised

---
 hwtypes/adt.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hwtypes/adt.py b/hwtypes/adt.py
index 66e585f..93a656f 100644
--- a/hwtypes/adt.py
+++ b/hwtypes/adt.py
@@ -138,6 +138,11 @@ class Sum(metaclass=SumMeta):
 
     def __eq__(self, other):
         if isinstance(other, type(self)):
+            # Values of different types may be equal (or not even comparable)
+            # but they don't match the same fields
+            for T in type(self).fields:
+                if isinstance(self._value_, T) != isinstance(other._value_, T):
+                    return False
             return self._value_ == other._value_
         else:
             return NotImplemented
-- 
2.43.0


From 7af9e58aaf2959c82662fd11d888a73e4f639074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:22 +0000
Subject: [PATCH 41/59] fix: members of an Enum and of its sub-enum compared
 equal

---
 hwtypes/adt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/adt.py b/hwtypes/adt.py
index 93a656f..1ba0cf3 100644
--- a/hwtypes/adt.py
+++ b/hwtypes/adt.py
@@ -271,7 +271,7 @@ class Enum(metaclass=EnumMeta):
         return f'{type(self).__name__}.{self.name}'
 
     def __eq__(self, other):
-        if isinstance(other, type(self)):
+        if type(other) is type(self):
             return self._value_ == other._value_
         else:
             return NotImplemented
-- 
2.43.0


From 08a7683454969d2fe7ff3aad26f39efeda4e100f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:32 +0000
Subject: [PATCH 42/59] fix: members of an inherited Enum could be reached
 through members

---
 hwtypes/adt.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/hwtypes/adt.py b/hwtypes/adt.py
index 1ba0cf3..ffe9110 100644
--- a/hwtypes/adt.py
+++ b/hwtypes/adt.py
@@ -288,10 +288,13 @@ class Enum(metaclass=EnumMeta):
         #   a = 0
         #   b = 1
         #  E.a.b == E.b
-        if attr in type(self).field_dict:
-            raise AttributeError('Cannot access enum members from enum instances')
-        else:
-            return super().__getattribute__(attr)
+        # (nor those an enum inherits from)
+        for T in type(self).__mro__:
+            if attr in vars(T):
+                if attr in vars(T).get('_field_table_', ()):
+                    raise AttributeError('Cannot access enum members from enum instances')
+                break
+        return super().__getattribute__(attr)
 
     @property
     def value(self):
-- 
2.43.0


From 2bfa9a80e16f1984317c59a471d169c122081efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:10 +0000
Subject: [PATCH 43/59] fix: Sum.from_values refused the values of a Sum
 holding a subclass instance

---
 hwtypes/adt.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hwtypes/adt.py b/hwtypes/adt.py
index ffe9110..87ff199 100644
--- a/hwtypes/adt.py
+++ b/hwtypes/adt.py
@@ -204,8 +204,12 @@ class Sum(metaclass=SumMeta):
     @classmethod
     def _from_kwargs(cls, kwargs):
         assert len(kwargs) == 1
-        _, v = kwargs.popitem()
-        return cls(v)
+        k, v = kwargs.popitem()
+        # v may be an instance of a subclass of the field, which can be
+        # assigned to the field but not used to build a Sum
+        obj = cls.__new__(cls)
+        obj[cls.field_dict[k]] = v
+        return obj
 
     @property
     def value(self):
-- 
2.43.0


From dc69f85554ff7291a01ef09641d37f9109481fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:06 +0000
Subject: [PATCH 44/59] fix: AnonymousProduct accepted reserved field names

---
 hwtypes/adt_meta.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hwtypes/adt_meta.py b/hwtypes/adt_meta.py
index a52fd1e..1b9206c 100644
--- a/hwtypes/adt_meta.py
+++ b/hwtypes/adt_meta.py
@@ -376,6 +376,9 @@ class AnonymousProductMeta(TupleMeta):
     def _get_idx(cls, idx):
         if not isinstance(idx, tp.Mapping):
             raise TypeError()
+        for field in idx:
+            if field in RESERVED_ATTRS:
+                raise ReservedNameError(f'Field name {field} is reserved by the type machinery')
         return OrderedFrozenDict(idx)
 
     def _from_idx(cls, idx):
-- 
2.43.0


From 1ff54888cf054c1e88bbf8b0154849699c24f5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:16 +0000
Subject: [PATCH 45/59] fix: a TaggedUnion with a field named Match could not
 be read

---
 hwtypes/adt_meta.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwtypes/adt_meta.py b/hwtypes/adt_meta.py
index 1b9206c..d070aa5 100644
--- a/hwtypes/adt_meta.py
+++ b/hwtypes/adt_meta.py
@@ -557,8 +557,8 @@ class TaggedUnionMeta(_AttrSyntax, SumMeta):
         def _make_prop(field_type, tag):
             @TypedProperty(field_type)
             def prop(self):
-                cls = type(self)
-                return cls.Match(self._tag_ == tag, self._value_)
+                # not type(self).Match which might be a field
+                return sum_base.Match(self._tag_ == tag, self._value_)
 
             @prop.setter
             def prop(self, value):
-- 
2.43.0


From e9aaabf8a8e6d98e1692d2758027a92ec4584019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:25 +0000
Subject: [PATCH 46/59] fix: a rebind that matched nothing changed modified
 types

---
 hwtypes/adt_meta.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/hwtypes/adt_meta.py b/hwtypes/adt_meta.py
index d070aa5..b27b613 100644
--- a/hwtypes/adt_meta.py
+++ b/hwtypes/adt_meta.py
@@ -119,7 +119,11 @@ class _GetitemSyntax(type): #(metaclass=ABCMeta):
                 new_fields.append(T.rebind(A, B, rebind_sub_types))
             else:
                 new_fields.append(T)
-        return cls.unbound_t[new_fields]
+
+        if new_fields != list(cls.fields):
+            return cls.unbound_t[new_fields]
+        else:
+            return cls
 
 
 
@@ -474,7 +478,11 @@ def __init__(self, {type_sig}):
                 new_fields[field] = T.rebind(A, B, rebind_sub_types)
             else:
                 new_fields[field] = T
-        return cls.unbound_t[new_fields]
+
+        if new_fields != cls.field_dict:
+            return cls.unbound_t[new_fields]
+        else:
+            return cls
 
 
 class ProductMeta(_AttrSyntax, AnonymousProductMeta):
-- 
2.43.0


From 41e680ccfb45e47039e9e5d40f4d660bce0e1157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:36 +0000
Subject: [PATCH 47/59] fix: rebind_keep_modifiers rebound fields that it had
 already rebound

---
 hwtypes/adt_util.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/hwtypes/adt_util.py b/hwtypes/adt_util.py
index 41e5388..032a877 100644
--- a/hwtypes/adt_util.py
+++ b/hwtypes/adt_util.py
@@ -1,5 +1,5 @@
 from abc import ABCMeta, abstractmethod
-from .adt_meta import BoundMeta
+from .adt_meta import BoundMeta, AttrSyntax, EnumMeta, AnonymousProductMeta
 from .bit_vector_abc import AbstractBitVectorMeta, AbstractBitVector, AbstractBit
 
 from .util import _issubclass
@@ -107,11 +107,19 @@ def rebind_keep_modifiers(adt, A, B):
     if _issubclass(adt,A):
         return B
     elif isinstance(adt, BoundMeta):
-        new_adt = adt
-        for field in adt.fields:
-            new_field = rebind_keep_modifiers(field, A, B)
-            new_adt = new_adt.rebind(field, new_field)
-        return new_adt
+        if isinstance(adt, EnumMeta):
+            return adt
+        # All the fields have to be replaced at once, rebinding them one by
+        # one would replace fields which already are the result of a rebind
+        new_fields = {k: rebind_keep_modifiers(T, A, B) for k, T in adt.field_dict.items()}
+        if new_fields == adt.field_dict:
+            return adt
+        elif isinstance(adt, AttrSyntax):
+            return adt.unbound_t.from_fields(adt.__name__, new_fields, cache=adt.is_cached)
+        elif isinstance(adt, AnonymousProductMeta):
+            return adt.unbound_t[new_fields]
+        else:
+            return adt.unbound_t[list(new_fields.values())]
     else:
         return adt
 
-- 
2.43.0


From 0f9eefd732b10816a7230530befaabe6b60e5f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:41 +0000
Subject: [PATCH 48/59] fix: strip_modifiers and push_modifiers dropped the
 methods of types without modifiers

---
 hwtypes/modifiers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hwtypes/modifiers.py b/hwtypes/modifiers.py
index e5f6aac..e11b7f8 100644
--- a/hwtypes/modifiers.py
+++ b/hwtypes/modifiers.py
@@ -141,6 +141,9 @@ def strip_modifiers(adt_t):
         return adt_t
     elif isinstance(adt_t, AttrSyntax) and not isinstance(adt_t, EnumMeta):
         new_fields = {n:strip_modifiers(sub_adt_t) for n, sub_adt_t in adt_t.field_dict.items()}
+        if new_fields == adt_t.field_dict:
+            # nothing to strip, a new type would lose the methods of adt_t
+            return adt_t
         return adt_t.unbound_t.from_fields(adt_t.__name__, new_fields)
     elif isinstance(adt_t, AnonymousProductMeta):
         new_fields = {n:strip_modifiers(sub_adt_t) for n, sub_adt_t in adt_t.field_dict.items()}
@@ -158,6 +161,9 @@ def push_modifiers(adt_t, mods=[]):
     mods = new_mods + mods
     if isinstance(adt_t, AttrSyntax) and not isinstance(adt_t, EnumMeta):
         new_fields = {n:push_modifiers(sub_adt_t, mods) for n, sub_adt_t in adt_t.field_dict.items()}
+        if new_fields == adt_t.field_dict:
+            # nothing to push, a new type would lose the methods of adt_t
+            return adt_t
         return adt_t.unbound_t.from_fields(adt_t.__name__, new_fields)
     elif isinstance(adt_t, AnonymousProductMeta):
         new_fields = {n:push_modifiers(sub_adt_t, mods) for n, sub_adt_t in adt_t.field_dict.items()}
-- 
2.43.0


From 0b09423f10f540ae797baf55d71fa52985efcb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:58 +0000
Subject: [PATCH 49/59] fix: z3 >>, // and % of a base vector by a signed one
 are the signed operations, as on the other vectors

---
 hwtypes/z3_bit_vector.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/hwtypes/z3_bit_vector.py b/hwtypes/z3_bit_vector.py
index f8fdc47..8cb07e1 100644
--- a/hwtypes/z3_bit_vector.py
+++ b/hwtypes/z3_bit_vector.py
@@ -561,6 +561,20 @@ class z3SIntVector(z3NumVector):
     def __mod__(self, other):
         return self.bvsrem(other)
 
+    # As for the other backends a vector of the base kind on the left
+    # is combined with a signed one by the signed operation
+    def _reflected(name):
+        def roper(self, other):
+            if not isinstance(other, z3BitVector):
+                return NotImplemented
+            return getattr(other, name)(self)
+        return roper
+
+    __rrshift__ = _reflected('bvashr')
+    __rfloordiv__ = _reflected('bvsdiv')
+    __rmod__ = _reflected('bvsrem')
+    del _reflected
+
     def __ge__(self, other):
         return self.bvsge(other)
 
-- 
2.43.0


From 8e7fd17fc194dfde42d93aa1e816345f90b6be2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:33 +0000
Subject: [PATCH 50/59] fix: signed readings, extensions and rotations of empty
 vectors

---
 hwtypes/bit_vector.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hwtypes/bit_vector.py b/hwtypes/bit_vector.py
index 22f867f..58cb651 100644
--- a/hwtypes/bit_vector.py
+++ b/hwtypes/bit_vector.py
@@ -298,12 +298,12 @@ class BitVector(AbstractBitVector):
 
     @bv_cast
     def bvrol(self, other):
-        other = (len(self) - other.as_uint()) % len(self)
+        other = (len(self) - other.as_uint()) % (len(self) or 1)
         return self[other:].concat(self[:other])
 
     @bv_cast
     def bvror(self, other):
-        other = other.as_uint() % len(self)
+        other = other.as_uint() % (len(self) or 1)
         return self[other:].concat(self[:other])
 
     @bv_cast
@@ -448,7 +448,7 @@ class BitVector(AbstractBitVector):
 
     def as_sint(self):
         value = self._value
-        if self[-1]:
+        if self.size and self[-1]:
             value = value - (1 << self.size)
         return value
 
@@ -485,7 +485,7 @@ class BitVector(AbstractBitVector):
             raise ValueError()
 
         T = type(self).unsized_t
-        return self.concat(T[ext](-int(self[-1])))
+        return self.concat(T[ext](-int(self.as_sint() < 0)))
 
     def ext(self, ext):
         return self.zext(ext)
-- 
2.43.0


From d5c5c5ddc61ef1869694a19e9e01140ac5f3fc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:37 +0000
Subject: [PATCH 51/59] fix: a special method set to None or to a plain
 callable did not tell classes apart

---
 hwtypes/adt_meta.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hwtypes/adt_meta.py b/hwtypes/adt_meta.py
index b27b613..4b2b1d0 100644
--- a/hwtypes/adt_meta.py
+++ b/hwtypes/adt_meta.py
@@ -157,7 +157,9 @@ class _AttrSyntax(type): #, metaclass=ABCMeta):
             if cache:
                 ns_idx = set()
                 for k,v in ns.items():
-                    if not _is_dunder(k) or _is_descriptor(v):
+                    # __hash__ = None disables a special method, any callable
+                    # can be one
+                    if not _is_dunder(k) or _is_descriptor(v) or callable(v) or v is None:
                         ns_idx.add((k,v))
 
                 if mcs.ORDERED:
-- 
2.43.0


From d92e768acdb25d11ce8ff6dbf1014ac371f6edd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:22 +0000
Subject: [PATCH 52/59] fix: members equal across types (1, True, 1.0) were
 taken for the same

---
 hwtypes/adt_meta.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hwtypes/adt_meta.py b/hwtypes/adt_meta.py
index 4b2b1d0..e5aa13d 100644
--- a/hwtypes/adt_meta.py
+++ b/hwtypes/adt_meta.py
@@ -171,7 +171,9 @@ class _AttrSyntax(type): #, metaclass=ABCMeta):
                         bases,
                         name,
                         frozenset(ns_idx),
-                        frozenset(kwargs.items()),)
+                        frozenset(kwargs.items()),
+                        # 1, True and 1.0 are equal, but not the same
+                        frozenset((k, type(v)) for k, v in (*fields.items(), *ns_idx)),)
 
                 try:
                     return mcs._class_cache[cache_idx]
-- 
2.43.0


From 471964f7cef34ab87ade8ba718b70dbc171cafbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:39 +0000
Subject: [PATCH 53/59] fix: sized types of kinds with a derived metaclass lost
 their inherited kinds

K[8] of a kind K whose metaclass refines its base's was no subclass of the
base's sized type (floating-point kinds were already related).
---
 hwtypes/bit_vector_abc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/bit_vector_abc.py b/hwtypes/bit_vector_abc.py
index 1039418..0ad3f89 100644
--- a/hwtypes/bit_vector_abc.py
+++ b/hwtypes/bit_vector_abc.py
@@ -91,7 +91,7 @@ class AbstractBitVectorMeta(type): #:(ABCMeta):
             raise TypeError('{} is already sized'.format(cls))
 
         bases = [cls]
-        bases.extend(b[idx] for b in cls.__bases__ if isinstance(b, mcs))
+        bases.extend(b[idx] for b in cls.__bases__ if isinstance(b, AbstractBitVectorMeta))
         bases = tuple(bases)
         class_name = '{}[{}]'.format(cls.__name__, idx)
         t = mcs(class_name, bases, {}, info=(cls,idx))
-- 
2.43.0


From 5fea9616706d9b326802f63cea93c0bacf2c5c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:56 +0000
Subject: [PATCH 54/59] fix: fields called self, cls, super or AnonymousProduct
 collided with generated names

Products with such fields could not be defined or built, and tagged unions
with a tag called self or cls could not be built (nor enumerated).
---
 hwtypes/adt.py      |  2 +-
 hwtypes/adt_meta.py | 14 +++++++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/hwtypes/adt.py b/hwtypes/adt.py
index 87ff199..6ec6f13 100644
--- a/hwtypes/adt.py
+++ b/hwtypes/adt.py
@@ -218,7 +218,7 @@ class Sum(metaclass=SumMeta):
 
 
 class TaggedUnion(Sum, metaclass=TaggedUnionMeta):
-    def __init__(self, **kwargs):
+    def __init__(self, /, **kwargs):
         if len(kwargs) == 0:
             raise ValueError('Must specify a value')
         elif len(kwargs) != 1:
diff --git a/hwtypes/adt_meta.py b/hwtypes/adt_meta.py
index e5aa13d..a75efaf 100644
--- a/hwtypes/adt_meta.py
+++ b/hwtypes/adt_meta.py
@@ -237,7 +237,7 @@ class BoundMeta(_GetitemSyntax): #, metaclass=ABCMeta):
     # (UnboundType, (types...)) : BoundType
     _class_cache = weakref.WeakValueDictionary()
 
-    def __call__(cls, *args, **kwargs):
+    def __call__(cls, /, *args, **kwargs):
         if not cls.is_bound:
             obj = cls.__new__(cls, *args, **kwargs)
             if not type(obj).is_bound:
@@ -398,8 +398,8 @@ class AnonymousProductMeta(TupleMeta):
         t = super()._from_idx(idx)
         t._field_table_ = idx
 
-        name =  t.unbound_t.__name__
-        gs = {name : t}
+        # names which don't collide with fields called self, super etc...
+        gs = {'__product_t__' : t, '__super__' : super}
 
         ls = {}
 
@@ -408,16 +408,16 @@ class AnonymousProductMeta(TupleMeta):
 
         # build __new__
         __new__ = f'''
-def __new__(cls, {type_sig}):
-    return super({name}, cls).__new__(cls, {arg_list})
+def __new__(__cls__, {type_sig}):
+    return __super__(__product_t__, __cls__).__new__(__cls__, {arg_list})
 '''
         exec(__new__, gs, ls)
         t.__new__ = ls['__new__']
 
         # build __init__
         __init__ = f'''
-def __init__(self, {type_sig}):
-    return super({name}, self).__init__({arg_list})
+def __init__(__self__, {type_sig}):
+    return __super__(__product_t__, __self__).__init__({arg_list})
 '''
         exec(__init__, gs, ls)
         t.__init__ = ls['__init__']
-- 
2.43.0


From 12ce813bacb919e5abc892c81f7c84fd46080a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:22 +0000
Subject: [PATCH 55/59] fix: an enum member called name or value hid the names
 and values of all members

---
 hwtypes/adt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hwtypes/adt.py b/hwtypes/adt.py
index 6ec6f13..3f23c15 100644
--- a/hwtypes/adt.py
+++ b/hwtypes/adt.py
@@ -296,6 +296,9 @@ class Enum(metaclass=EnumMeta):
         for T in type(self).__mro__:
             if attr in vars(T):
                 if attr in vars(T).get('_field_table_', ()):
+                    # a member called name doesn't hide the names of members
+                    if isinstance(vars(Enum).get(attr), property):
+                        return vars(Enum)[attr].__get__(self)
                     raise AttributeError('Cannot access enum members from enum instances')
                 break
         return super().__getattribute__(attr)
-- 
2.43.0


From bbb418002f463f258c77dc01e431111ec25e9ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:34 +0000
Subject: [PATCH 56/59] fix: symbolic slices that start before the first bit
 failed

v[-10:3] of an 8-bit vector is v[0:3], as for concrete vectors (and as
v[5:12] is v[5:8]).
---
 hwtypes/smt_bit_vector.py | 2 +-
 hwtypes/z3_bit_vector.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index 8d56dc8..76e53ba 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -325,7 +325,7 @@ class SMTBitVector(AbstractBitVector):
             if start is None:
                 start = 0
             elif start < 0:
-                start = size + start
+                start = max(size + start, 0)
 
             if stop is None:
                 stop = size
diff --git a/hwtypes/z3_bit_vector.py b/hwtypes/z3_bit_vector.py
index 8cb07e1..59a49b5 100644
--- a/hwtypes/z3_bit_vector.py
+++ b/hwtypes/z3_bit_vector.py
@@ -276,7 +276,7 @@ class z3BitVector(AbstractBitVector):
             if start is None:
                 start = 0
             elif start < 0:
-                start = size + start
+                start = max(size + start, 0)
 
             if stop is None:
                 stop = size
-- 
2.43.0


From cec114fab93e7ba19fb8a201ba8e37ad81683f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:14 +0000
Subject: [PATCH 57/59] fix: symbolic rotations by amounts outside of [0,
 2**size) differed from concrete ones

---
 hwtypes/smt_bit_vector.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index 76e53ba..4c50b61 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -422,13 +422,14 @@ class SMTBitVector(AbstractBitVector):
     def bvashr(self, other):
         return type(self)(smt.BVAShr(self.value, other.value))
 
+    # As for the other backends the amount is a vector of the same size
     @int_cast
     def bvrol(self, other):
-        return type(self)(smt.get_env().formula_manager.BVRol(self.value, other % self.size))
+        return type(self)(smt.get_env().formula_manager.BVRol(self.value, other % (1 << self.size) % self.size))
 
     @int_cast
     def bvror(self, other):
-        return type(self)(smt.get_env().formula_manager.BVRor(self.value, other % self.size))
+        return type(self)(smt.get_env().formula_manager.BVRor(self.value, other % (1 << self.size) % self.size))
 
     @bv_cast
     def bvcomp(self, other):
-- 
2.43.0


From 4a12790c3d93adac05f69eae4b66be451d22c347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:31:15 +0000
Subject: [PATCH 58/59] fix: ite of classes inheriting from a common sized type
 that itself has no unsized version

---
 hwtypes/bit_vector_util.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hwtypes/bit_vector_util.py b/hwtypes/bit_vector_util.py
index 2545270..dc21321 100644
--- a/hwtypes/bit_vector_util.py
+++ b/hwtypes/bit_vector_util.py
@@ -142,11 +142,17 @@ class PolyVector(metaclass=PolyType):
             except AttributeError:
                 bases_.add(base)
 
+        # A class inheriting from a sized type has no unsized version
+        if any(getattr(base, 'is_sized', False) for base in bases_):
+            return bases
+
         return tuple(bases_)
 
 
     @classmethod
     def _finalize(cls, new_class, T0, T1):
+        if new_class.is_sized:
+            return new_class
         return new_class[T0.size]
 
 class PolyBit(metaclass=PolyType):
-- 
2.43.0


From 2d9fbfdd906e727ec838b6cfae840d299e0e4c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:31:15 +0000
Subject: [PATCH 59/59] fix: FPVector takes instances of subclasses of Fraction

---
 hwtypes/fp_vector.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hwtypes/fp_vector.py b/hwtypes/fp_vector.py
index 6be7e0d..68f97c8 100644
--- a/hwtypes/fp_vector.py
+++ b/hwtypes/fp_vector.py
@@ -51,8 +51,11 @@ class FPVector(AbstractFPVector):
             value = gmpy2.mpfr(value, self._ctx_.precision)
         elif isinstance(value, FPVector):
             value = gmpy2.mpfr(value._value, self._ctx_.precision)
-        elif isinstance(value, (int, float, Fraction, type(gmpy2.mpz(0)), type(gmpy2.mpq(0)))):
+        elif isinstance(value, (int, float, type(gmpy2.mpz(0)), type(gmpy2.mpq(0)))):
             value = gmpy2.mpfr(value)
+        elif isinstance(value, Fraction):
+            #gmpy2 doesn't take instances of subclasses
+            value = gmpy2.mpfr(gmpy2.mpq(value.numerator, value.denominator))
         elif isinstance(value, Decimal):
             value = gmpy2.mpfr(str(value))
         elif isinstance(value, str):
-- 
2.43.0

