From 6849d32fab4e6f7889bd6ef9564be0ea1e99299e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:33 +0000
Subject: [PATCH 01/35] fix: compute binary_length exactly

The floating-point logarithm is one too large for 2**48 - 1 and many larger
numbers, so Binv(intval=2**48-1, length=48) was refused.
---
 discretehelpers/binv/a/binary_length/__init__.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/discretehelpers/binv/a/binary_length/__init__.py b/discretehelpers/binv/a/binary_length/__init__.py
index 48840a3..88fdc8c 100644
--- a/discretehelpers/binv/a/binary_length/__init__.py
+++ b/discretehelpers/binv/a/binary_length/__init__.py
@@ -1,5 +1,3 @@
-from math import floor, log
-
 from discretehelpers.a import true_except, is_natural
 
 
@@ -10,7 +8,7 @@ def binary_length(n):
     if n == 0:
         return 0
 
-    return floor(log(n, 2)) + 1
+    return int(n).bit_length()
 
 
 class NotNaturalError(ValueError):
-- 
2.43.0


From eb2c2cd90f4938e2628d7888337b1329eb1c47eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:33 +0000
Subject: [PATCH 02/35] fix: compute log_floor, log_ceil and log_int exactly

log2 rounds above 2**53: log_floor(2**60-1) was 60, and log_int(2**60+1)
returned 60 instead of refusing the argument.
---
 discretehelpers/a/_log/log_ceil/__init__.py  | 3 +--
 discretehelpers/a/_log/log_floor/__init__.py | 3 +--
 discretehelpers/a/_log/log_int/__init__.py   | 7 +++----
 3 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/discretehelpers/a/_log/log_ceil/__init__.py b/discretehelpers/a/_log/log_ceil/__init__.py
index 7a4153c..87e59d1 100644
--- a/discretehelpers/a/_log/log_ceil/__init__.py
+++ b/discretehelpers/a/_log/log_ceil/__init__.py
@@ -1,4 +1,3 @@
-from math import log2, ceil
 from discretehelpers.a import true_except, is_natural
 from discretehelpers.ex import ArgValueError
 
@@ -7,4 +6,4 @@ def log_ceil(x):
 
     true_except(is_natural(x - 1), ArgValueError)  # positive integers are allowed
 
-    return ceil(log2(x))
+    return (int(x) - 1).bit_length()
diff --git a/discretehelpers/a/_log/log_floor/__init__.py b/discretehelpers/a/_log/log_floor/__init__.py
index 576b3fb..26b7321 100644
--- a/discretehelpers/a/_log/log_floor/__init__.py
+++ b/discretehelpers/a/_log/log_floor/__init__.py
@@ -1,4 +1,3 @@
-from math import log2, floor
 from discretehelpers.a import true_except, is_natural
 from discretehelpers.ex import ArgValueError
 
@@ -7,4 +6,4 @@ def log_floor(x):
 
     true_except(is_natural(x - 1), ArgValueError)  # positive integers are allowed
 
-    return floor(log2(x))
+    return int(x).bit_length() - 1
diff --git a/discretehelpers/a/_log/log_int/__init__.py b/discretehelpers/a/_log/log_int/__init__.py
index 191e08d..ca24fcf 100644
--- a/discretehelpers/a/_log/log_int/__init__.py
+++ b/discretehelpers/a/_log/log_int/__init__.py
@@ -1,4 +1,3 @@
-from math import log2
 from discretehelpers.a import is_natural, true_except
 from discretehelpers.ex import ArgValueError
 
@@ -10,8 +9,8 @@ def log_int(x):
         ArgValueError('not a natural number')
     )
 
-    result = log2(x)
-    if is_natural(result):
-        return int(result)
+    result = int(x).bit_length() - 1
+    if 2 ** result == x:
+        return result
     else:
         raise ArgValueError('not a power of two')
-- 
2.43.0


From ef4071e36dafa6f640691299943088289973ed02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:33 +0000
Subject: [PATCH 03/35] fix: decide is_power_of_two exactly

log(n, 2) is not exact: 2**29 was not a power of two, and 2**60+1 was one.
---
 discretehelpers/a/is_power_of_two/__init__.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/discretehelpers/a/is_power_of_two/__init__.py b/discretehelpers/a/is_power_of_two/__init__.py
index e36bdf8..310b88d 100644
--- a/discretehelpers/a/is_power_of_two/__init__.py
+++ b/discretehelpers/a/is_power_of_two/__init__.py
@@ -1,5 +1,3 @@
-from math import log
-
 from discretehelpers.a import is_natural
 
 
@@ -8,7 +6,5 @@ def is_power_of_two(n):
         return False
     if not is_natural(n):
         return False
-    log_n = log(n, 2)
-    if not is_natural(log_n):
-        return False
-    return True
+    n = int(n)
+    return n & (n - 1) == 0
-- 
2.43.0


From 6e8142d7131299f384b87dc50a0c3c07a442fa44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:33 +0000
Subject: [PATCH 04/35] fix: compute decimal_length exactly

The floating-point logarithm made decimal_length(1000) equal to 3.
---
 discretehelpers/a/decimal_length/__init__.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/discretehelpers/a/decimal_length/__init__.py b/discretehelpers/a/decimal_length/__init__.py
index c0eebd4..fe0d31b 100644
--- a/discretehelpers/a/decimal_length/__init__.py
+++ b/discretehelpers/a/decimal_length/__init__.py
@@ -1,5 +1,3 @@
-from math import floor, log
-
 from discretehelpers.a import true_except, is_natural
 
 
@@ -10,7 +8,7 @@ def decimal_length(n):
     if n == 0:
         return 0
 
-    return floor(log(n, 10)) + 1
+    return len(str(int(n)))
 
 
 class NotNaturalError(ValueError):
-- 
2.43.0


From 3baa79eda61053de5c514ee42551f283052880dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:34 +0000
Subject: [PATCH 05/35] fix: honour length 0 in Binv(intval=0, length=0)

The digit string of 0 is '0', so the result had length 1.
---
 discretehelpers/binv/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discretehelpers/binv/__init__.py b/discretehelpers/binv/__init__.py
index da1a39a..818cce4 100644
--- a/discretehelpers/binv/__init__.py
+++ b/discretehelpers/binv/__init__.py
@@ -56,7 +56,7 @@ class Binv(object):
                     true_except(length >= binary_length(intval), LengthError)
                 else:
                     length = max(minimal_length, binary_length(intval))
-                vector = "{0:b}".format(intval).zfill(length)[::-1]
+                vector = "{0:b}".format(intval).zfill(length)[::-1][:length]
 
         elif case_exposet:
 
-- 
2.43.0


From ca0743bac14ac097cf7427b78e32527f0746faee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:34 +0000
Subject: [PATCH 06/35] fix: reject negative entries in Binv(exposet=...)

Binv(exposet={-1}, length=3) silently set the last bit.
---
 discretehelpers/binv/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discretehelpers/binv/__init__.py b/discretehelpers/binv/__init__.py
index 818cce4..0565bb6 100644
--- a/discretehelpers/binv/__init__.py
+++ b/discretehelpers/binv/__init__.py
@@ -62,7 +62,7 @@ class Binv(object):
 
             true_except(type(exposet) in [set, list, tuple], IndicesTypeError)
             for e in exposet:
-                true_except(type(e) == int, IndicesEntryError)
+                true_except(type(e) == int and e >= 0, IndicesEntryError)
             if case_exposet_only:
                 if len(exposet) == 0:
                     self.set_empty()
-- 
2.43.0


From e9f91e971d27093972b3ed5f5f6bcb677fbe8fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:34 +0000
Subject: [PATCH 07/35] fix: allow an empty exposet with minimal_length in Binv

---
 discretehelpers/binv/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discretehelpers/binv/__init__.py b/discretehelpers/binv/__init__.py
index 0565bb6..dd58b7a 100644
--- a/discretehelpers/binv/__init__.py
+++ b/discretehelpers/binv/__init__.py
@@ -74,7 +74,7 @@ class Binv(object):
                     if len(exposet) > 0:
                         true_except(length > max(exposet), LengthError)
                 else:
-                    length = max(minimal_length, max(exposet) + 1)
+                    length = max(minimal_length, max(exposet, default=-1) + 1)
             vector = [False] * length
             for i in exposet:
                 vector[i] = True
-- 
2.43.0


From 14dad3f7545caa1494d137ce496d0305d7f84dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:53 +0000
Subject: [PATCH 08/35] fix: reject overlapping cycles in Perm

Cycles that share an element, or repeat one, do not describe a bijection.
They were accepted and gave a mapping that is not invertible.
---
 discretehelpers/perm/__init__.py | 2 ++
 discretehelpers/perm/ex.py       | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/discretehelpers/perm/__init__.py b/discretehelpers/perm/__init__.py
index 65ef3c9..9fb82d2 100644
--- a/discretehelpers/perm/__init__.py
+++ b/discretehelpers/perm/__init__.py
@@ -40,6 +40,8 @@ class Perm(object):
                         map_to = cycle[(key + 1) % length]
                         if map_from != map_to:
                             mapping[map_from] = map_to
+                elements = [element for cycle in arg for element in cycle]
+                true_except(len(elements) == len(set(elements)), CyclesError)
         elif type(arg) == dict:
             true_except(sorted(arg.keys()) == sorted(arg.values()), DictError)
             for key, val in arg.items():
diff --git a/discretehelpers/perm/ex.py b/discretehelpers/perm/ex.py
index 09a0e37..9abfee8 100644
--- a/discretehelpers/perm/ex.py
+++ b/discretehelpers/perm/ex.py
@@ -7,7 +7,7 @@ class SequenceError(ValueError):
 
 
 class CyclesError(ValueError):
-    """The cycles must be lists of integers."""
+    """The cycles must be disjoint lists of integers, each without repetitions."""
 
 
 class DictError(ValueError):
-- 
2.43.0


From d468774c108a90325eb3246382450e6f9257e4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:53 +0000
Subject: [PATCH 09/35] fix: reject a dict of Perm with keys that are not
 natural numbers

Perm({-1: 0, 0: -1}) was accepted, although a Perm permutes the natural numbers.
---
 discretehelpers/perm/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/discretehelpers/perm/__init__.py b/discretehelpers/perm/__init__.py
index 9fb82d2..a8ed0c8 100644
--- a/discretehelpers/perm/__init__.py
+++ b/discretehelpers/perm/__init__.py
@@ -44,6 +44,7 @@ class Perm(object):
                 true_except(len(elements) == len(set(elements)), CyclesError)
         elif type(arg) == dict:
             true_except(sorted(arg.keys()) == sorted(arg.values()), DictError)
+            true_except(all(is_natural(key) for key in arg), DictError)
             for key, val in arg.items():
                 if key != val:
                     mapping[key] = val
-- 
2.43.0


From 071844d7ede4b9e467a19a555fe20906e78c0170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:53 +0000
Subject: [PATCH 10/35] fix: reject lists of other elements in Perm

A list whose first element is neither an integer nor a list was silently
taken for the neutral permutation.
---
 discretehelpers/perm/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discretehelpers/perm/__init__.py b/discretehelpers/perm/__init__.py
index a8ed0c8..125d84a 100644
--- a/discretehelpers/perm/__init__.py
+++ b/discretehelpers/perm/__init__.py
@@ -42,6 +42,8 @@ class Perm(object):
                             mapping[map_from] = map_to
                 elements = [element for cycle in arg for element in cycle]
                 true_except(len(elements) == len(set(elements)), CyclesError)
+            else:
+                raise ArgTypeError
         elif type(arg) == dict:
             true_except(sorted(arg.keys()) == sorted(arg.values()), DictError)
             true_except(all(is_natural(key) for key in arg), DictError)
-- 
2.43.0


From 912d2f9c0a3d8e95c4c92cd6a545c8c61e4d5be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:54 +0000
Subject: [PATCH 11/35] fix: exact order of permutations with many cycles

The least common multiple overflowed 64 bits, e.g. for cycles whose lengths
are the primes up to 53.
---
 discretehelpers/perm/metributes/order.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/discretehelpers/perm/metributes/order.py b/discretehelpers/perm/metributes/order.py
index c14032c..f411122 100644
--- a/discretehelpers/perm/metributes/order.py
+++ b/discretehelpers/perm/metributes/order.py
@@ -1,6 +1,5 @@
 from functools import cached_property
-
-import numpy as np
+from math import lcm
 
 
 @cached_property
@@ -12,6 +11,6 @@ def order(self):
         return 1
 
     cycle_lengths = [len(cycle) for cycle in self.cycles]
-    result = np.lcm.reduce(cycle_lengths)
+    result = lcm(*cycle_lengths)
 
     return result
-- 
2.43.0


From 72b1c3f13945e57e271fff4b4891228fe599bd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:54 +0000
Subject: [PATCH 12/35] fix: right rank of the neutral permutation

It raised a ValueError instead of returning 0.
---
 discretehelpers/perm/metributes/ranks/right_rank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discretehelpers/perm/metributes/ranks/right_rank.py b/discretehelpers/perm/metributes/ranks/right_rank.py
index 9dde9d9..c0c5f6c 100644
--- a/discretehelpers/perm/metributes/ranks/right_rank.py
+++ b/discretehelpers/perm/metributes/ranks/right_rank.py
@@ -15,7 +15,7 @@ def right_rank(self):
     true_except(not have(self.perilen), PermNotFiniteError)
 
     if self.neutral:
-        result = 0
+        return 0
 
     ric = right_inversion_count(self.sequence())
     ric_reflected = ric[::-1]
-- 
2.43.0


From 2cdaa16a927ea265ac2f41b836e064b689b48b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:28:35 +0000
Subject: [PATCH 13/35] fix: SigPerm ignores trailing zeros of the value
 negations

SigPerm(valneg=[1, 0], perm=[0]) was not equal to SigPerm(sequence=[~0]).
---
 discretehelpers/sig_perm/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/discretehelpers/sig_perm/__init__.py b/discretehelpers/sig_perm/__init__.py
index 1aedcfa..ac83c8e 100644
--- a/discretehelpers/sig_perm/__init__.py
+++ b/discretehelpers/sig_perm/__init__.py
@@ -104,8 +104,7 @@ class SigPerm(Perm):
             raw_binv = Binv(exposet=negator_exposet)
 
         self.length = max(raw_binv.required_length, self.perm.length)
-        missing_length = self.length - raw_binv.length
-        self.binv = Binv(raw_binv.vector + [False] * missing_length)
+        self.binv = Binv(intval=raw_binv.intval, length=self.length)
 
         self.unsigned = self.binv.intval == 0
         self.unmoved = self.perm.neutral
-- 
2.43.0


From 53b61c7644407be2ead200763d88bece7b2ffeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:28:35 +0000
Subject: [PATCH 14/35] fix: reject singular matrices that shrink to a single
 zero

WalshPerm(vector=[0, 2]) was taken for the neutral permutation.
---
 discretehelpers/walsh_perm/a/shrink_matrix/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/discretehelpers/walsh_perm/a/shrink_matrix/__init__.py b/discretehelpers/walsh_perm/a/shrink_matrix/__init__.py
index c784e96..7a0f370 100644
--- a/discretehelpers/walsh_perm/a/shrink_matrix/__init__.py
+++ b/discretehelpers/walsh_perm/a/shrink_matrix/__init__.py
@@ -2,6 +2,7 @@ import numpy as np
 
 from discretehelpers.a import true_except
 from discretehelpers.perm.ex import IsNeutralFail
+from discretehelpers.walsh_perm.ex import InvalidMatrixError
 
 from .ex import *
 
@@ -10,6 +11,7 @@ def shrink_matrix(matrix):
 
     matrix = np.array(matrix, dtype=int)  # should be redundant
 
+    true_except(matrix.size != 1 or matrix.item() == 1, InvalidMatrixError)
     true_except(matrix.size > 1, IsNeutralFail)
     true_except(matrix.shape[0] == matrix.shape[1], NotSquareError)
 
@@ -17,6 +19,7 @@ def shrink_matrix(matrix):
 
     while True:
         if degree < 2:
+            true_except(int(matrix[0, 0]) == 1, InvalidMatrixError)
             raise IsNeutralFail
 
         last = degree - 1
-- 
2.43.0


From 3d11c253985a5d69ebe7c44a077673d770b7632b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:28:35 +0000
Subject: [PATCH 15/35] fix: WalshPerm of the neutral Perm

WalshPerm(perm=Perm()) raised a math domain error.
---
 discretehelpers/walsh_perm/a/perm_to_matrix/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/discretehelpers/walsh_perm/a/perm_to_matrix/__init__.py b/discretehelpers/walsh_perm/a/perm_to_matrix/__init__.py
index 36cb7bb..e662a5f 100644
--- a/discretehelpers/walsh_perm/a/perm_to_matrix/__init__.py
+++ b/discretehelpers/walsh_perm/a/perm_to_matrix/__init__.py
@@ -20,6 +20,7 @@ def perm_to_matrix(perm, trust=False):
         true_except(sorted(perm) == list(range(len(perm))), NotEvenPermutationError)
 
     perilen = len(perm)
+    true_except(perilen > 0, IsNeutralFail)
 
     log_perilen = log(perilen, 2)  # `perilen` should be a power of two. `degree` is the corresponding exponent.
     true_except(is_natural(log_perilen), PermLengthError)
-- 
2.43.0


From 5606e4b3ffa3059aa307f675c700a90fe96fd2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:28:35 +0000
Subject: [PATCH 16/35] fix: WalshPerm of a matrix given as a list of rows

Only neutral matrices were accepted in this form.
---
 discretehelpers/walsh_perm/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discretehelpers/walsh_perm/__init__.py b/discretehelpers/walsh_perm/__init__.py
index 4adeb03..fa8470e 100644
--- a/discretehelpers/walsh_perm/__init__.py
+++ b/discretehelpers/walsh_perm/__init__.py
@@ -40,6 +40,8 @@ class WalshPerm(Perm):
             self.set_neutral()
             return
 
+        matrix = np.array(matrix)
+
         self.neutral = False
         self.vector_object = Vector(matrix_to_vector(matrix))
         self.transpose_vector_object = Vector(matrix_to_vector(matrix, by_row=True))
-- 
2.43.0


From c4a25666d51803d8403502d5ee6a236c442d4a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:54 +0000
Subject: [PATCH 17/35] fix: reject blocks with elements outside the domain of
 a SetPart

SetPart([[0, 7]], domain=range(3)) was accepted.
---
 discretehelpers/set_part/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/discretehelpers/set_part/__init__.py b/discretehelpers/set_part/__init__.py
index 351eaa5..3622725 100644
--- a/discretehelpers/set_part/__init__.py
+++ b/discretehelpers/set_part/__init__.py
@@ -2,7 +2,7 @@ from bidict import bidict
 
 from discretehelpers.a import true_except, is_natural, have
 
-from .ex import DomainsNotEqualError, DomainNotSetLikeError, DuplicateElementsError
+from .ex import NotInDomainError, DomainsNotEqualError, DomainNotSetLikeError, DuplicateElementsError
 
 
 class SetPart(object):
@@ -19,6 +19,9 @@ class SetPart(object):
             self.set_trivial()
             return
 
+        blocks = [list(block) for block in blocks]
+        true_except(all(self.element_in_domain(element) for block in blocks for element in block), NotInDomainError)
+
         blocks = sorted(sorted(block) for block in blocks if len(block) > 1)
         if not blocks:
             self.set_trivial()
-- 
2.43.0


From 591f375abe40ef7206655b19f2a81ded69f78189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:54 +0000
Subject: [PATCH 18/35] fix: cached metributes of a SetPart after merging or
 refining

pairs, intval, singletons and canonical_blocks_with_singletons still described
the partition at their first use.
---
 discretehelpers/set_part/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discretehelpers/set_part/__init__.py b/discretehelpers/set_part/__init__.py
index 3622725..dd50c14 100644
--- a/discretehelpers/set_part/__init__.py
+++ b/discretehelpers/set_part/__init__.py
@@ -80,6 +80,8 @@ class SetPart(object):
         self._intval = None
         self._canonical_blocks_with_singletons = None
         self._singletons = None
+        for name in ['pairs', 'intval', 'canonical_blocks_with_singletons', 'singletons']:
+            self.__dict__.pop(name, None)  # cached values of the partition before reinitialization
         self.glove_compartment = None  # just a handy stowaway (without functionality within this class)
 
     def __eq__(self, other):
-- 
2.43.0


From 041465d4599d875cc213321a8f585695ee7f467f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:54 +0000
Subject: [PATCH 19/35] fix: keep the labels of singletons in a trivial SetPart

Refining the last block into labelled singletons lost the labels.
---
 discretehelpers/set_part/__init__.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/discretehelpers/set_part/__init__.py b/discretehelpers/set_part/__init__.py
index dd50c14..2dfdd18 100644
--- a/discretehelpers/set_part/__init__.py
+++ b/discretehelpers/set_part/__init__.py
@@ -15,6 +15,11 @@ class SetPart(object):
         else:
             self.domain = domain  # keep the letters
 
+        if have(block_labels):
+            self.block_labels = bidict(block_labels)
+        else:
+            self.block_labels = bidict()  # remains empty until filled with `add_block_label`
+
         if blocks is None:
             self.set_trivial()
             return
@@ -46,11 +51,6 @@ class SetPart(object):
 
         self.trivial = False
 
-        if have(block_labels):
-            self.block_labels = bidict(block_labels)
-        else:
-            self.block_labels = bidict()  # remains empty until filled with `add_block_label`
-
         self.set_dummies()
 
     from .metributes import pairs, intval, canonical_blocks_with_singletons, singletons
@@ -68,7 +68,6 @@ class SetPart(object):
         self.blocks = []
         self.non_singleton_to_block_index = dict()
         self.non_singletons = set()
-        self.block_labels = bidict()
 
         if self.domain == 'N':
             self.length = 0
-- 
2.43.0


From 9a5a16a26c315970d2ae5e9a98d9285d83b96f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:54 +0000
Subject: [PATCH 20/35] fix: check the new labels before refine_block changes
 the partition

A call rejected for its labels left the blocks changed.
---
 discretehelpers/set_part/methods/refine_block/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/discretehelpers/set_part/methods/refine_block/__init__.py b/discretehelpers/set_part/methods/refine_block/__init__.py
index 4050fbb..f05939b 100644
--- a/discretehelpers/set_part/methods/refine_block/__init__.py
+++ b/discretehelpers/set_part/methods/refine_block/__init__.py
@@ -15,6 +15,10 @@ def refine_block(self, new_blocks, new_labels=None):
 
     true_except(old_block in self.blocks, ArgValueError)
 
+    if have(new_labels):
+        true_except(type(new_labels) in [list, tuple], ArgTypeError)
+        true_except(len(new_labels) == len(new_blocks), ArgValueError)
+
     self.blocks.remove(old_block)
     self.blocks += new_blocks
 
@@ -24,8 +28,6 @@ def refine_block(self, new_blocks, new_labels=None):
         pass
 
     if have(new_labels):
-        true_except(type(new_labels) in [list, tuple], ArgTypeError)
-        true_except(len(new_labels) == len(new_blocks), ArgValueError)
         for i, block in enumerate(new_blocks):
             label = new_labels[i]
             self.block_labels[tuple(block)] = label
-- 
2.43.0


From 398e7ce892f7ed2386749b7360dd5798e1605d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:54 +0000
Subject: [PATCH 21/35] fix: labels of unsorted blocks in refine_block

The label was stored for the unsorted tuple and could not be looked up.
---
 discretehelpers/set_part/methods/refine_block/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discretehelpers/set_part/methods/refine_block/__init__.py b/discretehelpers/set_part/methods/refine_block/__init__.py
index f05939b..8d299ef 100644
--- a/discretehelpers/set_part/methods/refine_block/__init__.py
+++ b/discretehelpers/set_part/methods/refine_block/__init__.py
@@ -30,6 +30,6 @@ def refine_block(self, new_blocks, new_labels=None):
     if have(new_labels):
         for i, block in enumerate(new_blocks):
             label = new_labels[i]
-            self.block_labels[tuple(block)] = label
+            self.block_labels[tuple(sorted(block))] = label
 
     self.__init__(self.blocks, self.domain, self.block_labels)  # reinitialize
-- 
2.43.0


From 457f3c1a58e0e77c6a5eda8cf574b3fa8721ad7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:54 +0000
Subject: [PATCH 22/35] fix: join keeps the domain and rejects different
 domains

The result always had domain N, so <= failed for all other domains.
---
 .../set_part/methods/meet_and_join/join/_1_fast.py       | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/discretehelpers/set_part/methods/meet_and_join/join/_1_fast.py b/discretehelpers/set_part/methods/meet_and_join/join/_1_fast.py
index 03be9be..48da9e8 100644
--- a/discretehelpers/set_part/methods/meet_and_join/join/_1_fast.py
+++ b/discretehelpers/set_part/methods/meet_and_join/join/_1_fast.py
@@ -1,7 +1,14 @@
+from discretehelpers.a import true_except
+
+from ....ex import DomainsNotEqualError
+
+
 def join(self, other):
 
     from discretehelpers.set_part import SetPart
 
+    true_except(self.domain == other.domain, DomainsNotEqualError)
+
     domain = self.non_singletons | other.non_singletons
 
     result_blocks = []
@@ -59,4 +66,4 @@ def join(self, other):
             pass
         close_block()
 
-    return SetPart(result_blocks)
+    return SetPart(result_blocks, self.domain)
-- 
2.43.0


From be4c1fdfb988d6126515044a2864a1c5452c8c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:54 +0000
Subject: [PATCH 23/35] fix: improved join prototype for domains other than N

---
 .../set_part/methods/meet_and_join/join/_0_prototypes.py      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discretehelpers/set_part/methods/meet_and_join/join/_0_prototypes.py b/discretehelpers/set_part/methods/meet_and_join/join/_0_prototypes.py
index bcd52d8..ee69bbc 100644
--- a/discretehelpers/set_part/methods/meet_and_join/join/_0_prototypes.py
+++ b/discretehelpers/set_part/methods/meet_and_join/join/_0_prototypes.py
@@ -33,8 +33,8 @@ def _join_prototype_improved(self, other):
     clean_s_blocks = [sorted(set(block) - trash) for block in self.blocks]
     clean_o_blocks = [sorted(set(block) - trash) for block in other.blocks]
 
-    clean_s_part = SetPart(clean_s_blocks)
-    clean_o_part = SetPart(clean_o_blocks)
+    clean_s_part = SetPart(clean_s_blocks, self.domain)
+    clean_o_part = SetPart(clean_o_blocks, self.domain)
 
     clean_join_part = clean_s_part._join_prototype(clean_o_part)
 
-- 
2.43.0


From b787b723574fb724122728b77efcf715639b7d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:54 +0000
Subject: [PATCH 24/35] fix: blocks with singletons of a trivial SetPart of the
 integers

The minimum of an empty set raised a ValueError.
---
 .../set_part/methods/blocks_with_singletons/__init__.py     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/discretehelpers/set_part/methods/blocks_with_singletons/__init__.py b/discretehelpers/set_part/methods/blocks_with_singletons/__init__.py
index ac712b7..4d8da65 100644
--- a/discretehelpers/set_part/methods/blocks_with_singletons/__init__.py
+++ b/discretehelpers/set_part/methods/blocks_with_singletons/__init__.py
@@ -12,8 +12,8 @@ def blocks_with_singletons(self, length=None, range_pair=None, elements=None):
         if self.domain == 'N':
             elements = range(self.length)
         elif self.domain == 'Z':
-            low = min(self.non_singletons)
-            high = max(self.non_singletons) + 1
+            low = min(self.non_singletons, default=0)
+            high = max(self.non_singletons, default=-1) + 1
             elements = range(low, high)
         else:
             elements = self.domain
@@ -30,7 +30,7 @@ def blocks_with_singletons(self, length=None, range_pair=None, elements=None):
         true_except(self.domain == 'Z', RangeNotAllowedError)
         low, high = range_pair
         true_except(type(low) == type(high) == int, RangeWrongTypeError)
-        true_except(low <= min(self.non_singletons) and high > max(self.non_singletons), RangeMismatchError)
+        true_except(self.trivial or low <= min(self.non_singletons) and high > max(self.non_singletons), RangeMismatchError)
         elements = range(low, high)
 
     elif not have(length) and not have(range_pair) and have(elements):  # elements (not restricted by domain)
-- 
2.43.0


From 902f33e2a1003f7302c265926561033eac29c4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:54 +0000
Subject: [PATCH 25/35] fix: every element of a SetPartComp is equal to itself

set_comp(a, a) was accepted for singletons.
---
 discretehelpers/set_part_comp/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discretehelpers/set_part_comp/__init__.py b/discretehelpers/set_part_comp/__init__.py
index 83e158b..9871df5 100644
--- a/discretehelpers/set_part_comp/__init__.py
+++ b/discretehelpers/set_part_comp/__init__.py
@@ -40,6 +40,8 @@ class SetPartComp():
     from .methods import set_equal, set_comp, boolf, int_matches, all_complement_pairs
 
     def are_equal(self, a, b):
+        if a == b:
+            return True
         a_index, b_index = _exposet(self, a, b)
         if not (have(a_index) and have(b_index)):
             return False
-- 
2.43.0


From 543cb20bcf760ac0a588714e6f459942bd26c2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:31:23 +0000
Subject: [PATCH 26/35] fix: reject repeated labels before refine_block changes
 the partition

A label that is already in use raised a duplication error of the bidict,
after the blocks had been changed.
---
 discretehelpers/set_part/methods/refine_block/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/discretehelpers/set_part/methods/refine_block/__init__.py b/discretehelpers/set_part/methods/refine_block/__init__.py
index 8d299ef..886fa85 100644
--- a/discretehelpers/set_part/methods/refine_block/__init__.py
+++ b/discretehelpers/set_part/methods/refine_block/__init__.py
@@ -3,6 +3,8 @@ from itertools import chain
 from discretehelpers.a import have, true_except
 from discretehelpers.ex import ArgValueError, ArgTypeError
 
+from ...methods.block_labels.ex import LabelContradictionError
+
 
 def refine_block(self, new_blocks, new_labels=None):
 
@@ -18,6 +20,9 @@ def refine_block(self, new_blocks, new_labels=None):
     if have(new_labels):
         true_except(type(new_labels) in [list, tuple], ArgTypeError)
         true_except(len(new_labels) == len(new_blocks), ArgValueError)
+        other_labels = [label for block, label in self.block_labels.items() if block != tuple(old_block)]
+        all_labels = other_labels + list(new_labels)
+        true_except(len(all_labels) == len(set(all_labels)), LabelContradictionError)
 
     self.blocks.remove(old_block)
     self.blocks += new_blocks
-- 
2.43.0


From f912906b21965823d35b2ca0e6cceb7db1752a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:40:09 +0000
Subject: [PATCH 27/35] fix: bitwise_gt is strict

---
 discretehelpers/boolf/methods/bitwise/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discretehelpers/boolf/methods/bitwise/__init__.py b/discretehelpers/boolf/methods/bitwise/__init__.py
index 772ad2a..02d4635 100644
--- a/discretehelpers/boolf/methods/bitwise/__init__.py
+++ b/discretehelpers/boolf/methods/bitwise/__init__.py
@@ -38,7 +38,7 @@ def bitwise_lt(self, other):
 
 
 def bitwise_gt(self, other):
-    return other.bitwise_le(self)
+    return other.bitwise_lt(self)
 
 
 def bitwise_le(self, other):
-- 
2.43.0


From e3a5348223bca436276c5124e073a857422d098c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:40:09 +0000
Subject: [PATCH 28/35] fix: reject argument combinations of Boolf that name no
 function

---
 discretehelpers/boolf/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discretehelpers/boolf/__init__.py b/discretehelpers/boolf/__init__.py
index fd98c7f..dab1b0d 100644
--- a/discretehelpers/boolf/__init__.py
+++ b/discretehelpers/boolf/__init__.py
@@ -1,6 +1,7 @@
 from discretehelpers.binv import Binv
 
 from .ex import *
+from discretehelpers.ex import ArgComboError
 
 from .a import reorder_if_atomvals_not_asc, deflate
 
@@ -40,6 +41,7 @@ class Boolf(object):
                 break
             if self._subinit_multi():
                 break
+            raise ArgComboError
 
         self.set_dummies()
 
-- 
2.43.0


From e89933a608f091e70ee88eb3d313a1c6f5aa65d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:40:09 +0000
Subject: [PATCH 29/35] fix: sort the atoms of fullspots before deflating

---
 discretehelpers/boolf/subinit_methods/fs/__init__.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/discretehelpers/boolf/subinit_methods/fs/__init__.py b/discretehelpers/boolf/subinit_methods/fs/__init__.py
index 13a145b..c73a988 100644
--- a/discretehelpers/boolf/subinit_methods/fs/__init__.py
+++ b/discretehelpers/boolf/subinit_methods/fs/__init__.py
@@ -11,7 +11,6 @@ def _subinit_fullspots(self):
     fullspots = self._doa['fs']
     atomvals = self._doa['av']
     arity = self._doa['arity']
-    skip_deflation = self._doda['sd']
 
     true_except(int(have(atomvals)) + int(have(arity)) == 1, ArgComboError)
 
@@ -33,10 +32,6 @@ def _subinit_fullspots(self):
     length = 1 << len(atomvals)  # 2 ** len(atomvals)
     binv = Binv(exposet=fullspots, length=length)
 
-    if not skip_deflation:
-        from discretehelpers.boolf.a import deflate
-        binv, atomvals = deflate(binv, atomvals)
-
     self._doa['tt'] = binv
     self._doa['av'] = atomvals
     self._doa['arity'] = self._doa['fs'] = None
-- 
2.43.0


From deefcdcf0baaf890d7d1187bdd38c520915e32a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:41:32 +0000
Subject: [PATCH 30/35] fix: mod_tt_neg for negators given as list or Binv

---
 discretehelpers/boolf/a/_mod_tt/mod_tt_neg/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discretehelpers/boolf/a/_mod_tt/mod_tt_neg/__init__.py b/discretehelpers/boolf/a/_mod_tt/mod_tt_neg/__init__.py
index c7611e2..a9347f4 100644
--- a/discretehelpers/boolf/a/_mod_tt/mod_tt_neg/__init__.py
+++ b/discretehelpers/boolf/a/_mod_tt/mod_tt_neg/__init__.py
@@ -7,9 +7,9 @@ def mod_tt_neg(tt, signet):
         signet_index = signet
     elif type(signet) == list:
         signet_binv = Binv(signet)
-        signet_index = signet_binv.index
+        signet_index = signet_binv.intval
     elif type(signet) == Binv:
-        signet_index = signet.index
+        signet_index = signet.intval
 
     perm = [_ ^ signet_index for _ in range(len(tt))]
 
-- 
2.43.0


From d84fd4d14cabd258d6c7733055a11138d52d9f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:46:46 +0000
Subject: [PATCH 31/35] fix: filtrated_pair of atoms in descending order

---
 discretehelpers/boolf/methods/filtrated_pair/__init__.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/discretehelpers/boolf/methods/filtrated_pair/__init__.py b/discretehelpers/boolf/methods/filtrated_pair/__init__.py
index 296ba49..1729c51 100644
--- a/discretehelpers/boolf/methods/filtrated_pair/__init__.py
+++ b/discretehelpers/boolf/methods/filtrated_pair/__init__.py
@@ -10,7 +10,4 @@ def filtrated_pair(self, a, b):
 
         raw_result = self.filtrated_pairs[(b, a)]
 
-        if raw_result in ['1011', '1101']:  # subset, superset
-            return raw_result[::-1]
-        else:
-            return raw_result
+        return raw_result[0] + raw_result[2] + raw_result[1] + raw_result[3]  # exchange the atoms
-- 
2.43.0


From 5e967a6bf7aa8e6a8ad3b903449a79fea166639d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:46:46 +0000
Subject: [PATCH 32/35] fix: filtrated_boolf of unsorted atoms

---
 discretehelpers/boolf/methods/filtrated_boolf/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/discretehelpers/boolf/methods/filtrated_boolf/__init__.py b/discretehelpers/boolf/methods/filtrated_boolf/__init__.py
index 90217d8..1b43b96 100644
--- a/discretehelpers/boolf/methods/filtrated_boolf/__init__.py
+++ b/discretehelpers/boolf/methods/filtrated_boolf/__init__.py
@@ -11,6 +11,7 @@ def filtrated_boolf(self, small_atomvals):
 
     big_atomvals = self.atomvals
     true_except(set(small_atomvals).issubset(big_atomvals), AtomvalsMismatchError)
+    small_atomvals = sorted(small_atomvals)
     
     big_valency = self.valency
     big_length = 2 ** big_valency
-- 
2.43.0


From acc941a8b7d5b32d12bb45e6dc6b04b771e477b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:48:41 +0000
Subject: [PATCH 33/35] fix: sort_together for empty lists

---
 discretehelpers/a/sort_together/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/discretehelpers/a/sort_together/__init__.py b/discretehelpers/a/sort_together/__init__.py
index db3e157..cdf0de1 100644
--- a/discretehelpers/a/sort_together/__init__.py
+++ b/discretehelpers/a/sort_together/__init__.py
@@ -9,6 +9,9 @@ def sort_together(*args):
     for arg in args:
         true_except(len(arg) == length, LengthMismatchError)
 
+    if length == 0:
+        return tuple([[] for _ in args])
+
     zipped = zip(*args)
     sorted_zipped = sorted(zipped)
     unzipped = zip(*sorted_zipped)
-- 
2.43.0


From d5b245097d7faafd5c1edd3e7e69668433c45a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:48:41 +0000
Subject: [PATCH 34/35] fix: zip empty vectors apart and together

---
 discretehelpers/a/vector_zip_apart/__init__.py    | 2 +-
 discretehelpers/a/vector_zip_together/__init__.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/discretehelpers/a/vector_zip_apart/__init__.py b/discretehelpers/a/vector_zip_apart/__init__.py
index dc3793d..81a5fbd 100644
--- a/discretehelpers/a/vector_zip_apart/__init__.py
+++ b/discretehelpers/a/vector_zip_apart/__init__.py
@@ -15,7 +15,7 @@ def vector_zip_apart(vector, pattern):
     for i in range(length):
         true_except(is_natural(pattern[i]), NotNaturalError)
 
-    result_length = max(pattern) + 1
+    result_length = max(pattern, default=-1) + 1
     result = [list() for _ in range(result_length)]  # list of empty lists
 
     for i in range(length):
diff --git a/discretehelpers/a/vector_zip_together/__init__.py b/discretehelpers/a/vector_zip_together/__init__.py
index 37f551b..9246cf9 100644
--- a/discretehelpers/a/vector_zip_together/__init__.py
+++ b/discretehelpers/a/vector_zip_together/__init__.py
@@ -23,7 +23,7 @@ def vector_zip_together(short_vectors, pattern):
             _short_vectors[i].pop(0)
         )
 
-    if type(short_vectors[0]) == tuple:
+    if short_vectors and type(short_vectors[0]) == tuple:
         return tuple(result)
     else:
         return result
-- 
2.43.0


From fcfa632ee4867b177982cc625b1a42af67c48fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:50:01 +0000
Subject: [PATCH 35/35] fix: order of the entries of Sierpinski rows

---
 discretehelpers/a/int_to_sierpinski_row/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discretehelpers/a/int_to_sierpinski_row/__init__.py b/discretehelpers/a/int_to_sierpinski_row/__init__.py
index a608134..a4e61b1 100644
--- a/discretehelpers/a/int_to_sierpinski_row/__init__.py
+++ b/discretehelpers/a/int_to_sierpinski_row/__init__.py
@@ -21,7 +21,7 @@ def int_to_sierpinski_row(intval=None, exposet=None):
         if not exposet:  # empty list
             return [0]
 
-    addends = [1 << i for i in exposet]
+    addends = [1 << i for i in sorted(exposet)]
     short = len(addends)
     long = 2**short
     result = [0] * long
-- 
2.43.0

