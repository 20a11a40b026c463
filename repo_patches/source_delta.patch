From f07117262139e82a465036b3cbc1e9f40b210bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:28 +0000
Subject: [PATCH 01/62] fix: power_mod returns 1 % m for a zero exponent

---
 rosemary/number_theory/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rosemary/number_theory/core.py b/rosemary/number_theory/core.py
index d04b7b4..340f9ed 100644
--- a/rosemary/number_theory/core.py
+++ b/rosemary/number_theory/core.py
@@ -223,10 +223,10 @@ def power_mod(a, k, m):
     if m < 1:
         raise ValueError("power_mod: Must have m >= 1.")
 
+    if k == 0:
+        return 1 % m
     if a % m == 0:
         return 0
-    if k == 0:
-        return 1
 
     a = a % m
     t = 1
-- 
2.43.0


From 68f924b96e35d45c3ea9b563b225807e392e9271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:28 +0000
Subject: [PATCH 02/62] fix: integer_sqrt uses the floating point root only
 where it is exact

---
 rosemary/number_theory/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/core.py b/rosemary/number_theory/core.py
index 340f9ed..acd307c 100644
--- a/rosemary/number_theory/core.py
+++ b/rosemary/number_theory/core.py
@@ -525,7 +525,7 @@ def integer_sqrt(n):
         return n
 
     # if n is small enough, compute the square root and round
-    if n <= 2**60:
+    if n <= 2**50:
         return int(n**(0.5))
 
     bits = n.bit_length()
-- 
2.43.0


From 145b200da601a06a272c8c2a3927ba89c346813b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:28 +0000
Subject: [PATCH 03/62] fix: valuation of negative integers

---
 rosemary/number_theory/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/core.py b/rosemary/number_theory/core.py
index acd307c..be17be5 100644
--- a/rosemary/number_theory/core.py
+++ b/rosemary/number_theory/core.py
@@ -790,7 +790,7 @@ def valuation(p, n):
         that divides n. The method is essentially the same as the one used to
         compute an integer logarithm.
     """
-    if n % p != 0 or p > n:
+    if n % p != 0 or abs(p) > abs(n):
         return 0
 
     p = abs(p)
-- 
2.43.0


From 328681d470e8523841e96c4b9c6355e416e22856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:03 +0000
Subject: [PATCH 04/62] fix: next_prime and next_probable_prime skipped 2 for n
 <= 0

---
 rosemary/number_theory/primes/primality.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rosemary/number_theory/primes/primality.py b/rosemary/number_theory/primes/primality.py
index cf3a668..aa92651 100644
--- a/rosemary/number_theory/primes/primality.py
+++ b/rosemary/number_theory/primes/primality.py
@@ -234,7 +234,7 @@ def next_prime(n):
     >>> next_prime(10**10)
     10000000019
     """
-    if n == 1:
+    if n < 2:
         return 2
 
     n += 1
@@ -257,7 +257,7 @@ def next_probable_prime(n):
     >>> next_probable_prime(10**10)
     10000000019
     """
-    if n == 1:
+    if n < 2:
         return 2
 
     n += 1
-- 
2.43.0


From a6aa3521273374b89bbf709832289544de4cf3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:35 +0000
Subject: [PATCH 05/62] fix: factor(n, skip_power_detection=False) raised
 ValueError for negative n

---
 rosemary/number_theory/factorization/factorization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/factorization/factorization.py b/rosemary/number_theory/factorization/factorization.py
index 81ef216..ac457fc 100644
--- a/rosemary/number_theory/factorization/factorization.py
+++ b/rosemary/number_theory/factorization/factorization.py
@@ -77,7 +77,7 @@ def factor(n, skip_trial_division=False, skip_power_detection=True, use_cfrac=Fa
         raise ValueError("Prime factorization of 0 not defined")
 
     # Detect perfect powers.
-    if not skip_power_detection:
+    if not skip_power_detection and n > 0:
         ab = rosemary.number_theory.classification.is_power(n)
         if ab:
             (n, multiplier) = ab
-- 
2.43.0


From 788d6e11e581998035a239600941586f4323b828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:35 +0000
Subject: [PATCH 06/62] fix: divisor functions raised IndexError for the empty
 factorization of 1

---
 rosemary/number_theory/factorization/factorization.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rosemary/number_theory/factorization/factorization.py b/rosemary/number_theory/factorization/factorization.py
index ac457fc..89b5da3 100644
--- a/rosemary/number_theory/factorization/factorization.py
+++ b/rosemary/number_theory/factorization/factorization.py
@@ -187,7 +187,7 @@ def divisors(n=None, factorization=None):
     elif factorization is None:
         factorization = factor(abs(n))
     else:
-        if factorization[0][0] == -1:
+        if factorization and factorization[0][0] == -1:
             factorization = factorization[1:]
 
     p_divisors = [p for (p, e) in factorization]
@@ -234,7 +234,7 @@ def divisor_pairs(n=None, factorization=None):
     elif factorization is None:
         factorization = factor(abs(n))
     else:
-        if factorization[0][0] == -1:
+        if factorization and factorization[0][0] == -1:
             factorization = factorization[1:]
 
     div_list = divisors(n, factorization=factorization)
@@ -279,7 +279,7 @@ def prime_divisors(n=None, factorization=None):
     elif factorization is None:
         factorization = factor(abs(n))
     else:
-        if factorization[0][0] == -1:
+        if factorization and factorization[0][0] == -1:
             factorization = factorization[1:]
 
     return [p for (p, e) in factorization]
@@ -312,7 +312,7 @@ def xdivisors(n=None, factorization=None):
     elif factorization is None:
         factorization = factor(abs(n))
     else:
-        if factorization[0][0] == -1:
+        if factorization and factorization[0][0] == -1:
             factorization = factorization[1:]
 
     p_divisors = [p for (p, e) in factorization]
@@ -331,7 +331,7 @@ def unitary_divisors(n=None, factorization=None):
     elif factorization is None:
         factorization = factor(abs(n))
     else:
-        if factorization[0][0] == -1:
+        if factorization and factorization[0][0] == -1:
             factorization = factorization[1:]
 
     pk_divisors = [p**k for (p, k) in factorization]
-- 
2.43.0


From e79c449e2fdc29b283ae1b3f2eaaf3e234f4a895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:35 +0000
Subject: [PATCH 07/62] fix: divisor_pairs failed when given a factorization
 only, or a negative n

---
 rosemary/number_theory/factorization/factorization.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rosemary/number_theory/factorization/factorization.py b/rosemary/number_theory/factorization/factorization.py
index 89b5da3..a69c954 100644
--- a/rosemary/number_theory/factorization/factorization.py
+++ b/rosemary/number_theory/factorization/factorization.py
@@ -238,6 +238,7 @@ def divisor_pairs(n=None, factorization=None):
             factorization = factorization[1:]
 
     div_list = divisors(n, factorization=factorization)
+    n = div_list[-1]
 
     pairs = []
     for d in div_list:
-- 
2.43.0


From 39996c5d316b69af0148b18d883bdcf7f9009eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:35 +0000
Subject: [PATCH 08/62] fix: unitary_divisors was wrong for 1, negative n and
 factorization-only calls

---
 rosemary/number_theory/factorization/factorization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rosemary/number_theory/factorization/factorization.py b/rosemary/number_theory/factorization/factorization.py
index a69c954..33720f4 100644
--- a/rosemary/number_theory/factorization/factorization.py
+++ b/rosemary/number_theory/factorization/factorization.py
@@ -336,9 +336,9 @@ def unitary_divisors(n=None, factorization=None):
             factorization = factorization[1:]
 
     pk_divisors = [p**k for (p, k) in factorization]
-    div_list = [1, n]
+    div_list = [1]
 
-    for i in range(1, len(pk_divisors)):
+    for i in range(1, len(pk_divisors) + 1):
         for subset in itertools.combinations(pk_divisors, i):
             prod = 1
             for pk in subset:
-- 
2.43.0


From 36c7c63df7f861e70a48f877739c9f75b8137cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:35 +0000
Subject: [PATCH 09/62] fix: fermat missed the factorization of perfect squares

---
 rosemary/number_theory/factorization/algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/factorization/algorithms.py b/rosemary/number_theory/factorization/algorithms.py
index 2ed8636..6138c19 100644
--- a/rosemary/number_theory/factorization/algorithms.py
+++ b/rosemary/number_theory/factorization/algorithms.py
@@ -137,7 +137,7 @@ def fermat(n):
     if n % 2 == 0:
         return 2
 
-    for a in range(integer_sqrt(n) + 1, (n + 9)//6 + 1):
+    for a in range(integer_sqrt(n - 1) + 1, (n + 9)//6 + 1):
         t = a*a - n
         b = integer_sqrt(t)
         if b*b == t:
-- 
2.43.0


From e5cf08bcf81045c2d8f5ce1a772965b94bfdf2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:02 +0000
Subject: [PATCH 10/62] fix: fermat(3) returned the trivial divisor 1

---
 rosemary/number_theory/factorization/algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/factorization/algorithms.py b/rosemary/number_theory/factorization/algorithms.py
index 6138c19..5a9fd45 100644
--- a/rosemary/number_theory/factorization/algorithms.py
+++ b/rosemary/number_theory/factorization/algorithms.py
@@ -140,7 +140,7 @@ def fermat(n):
     for a in range(integer_sqrt(n - 1) + 1, (n + 9)//6 + 1):
         t = a*a - n
         b = integer_sqrt(t)
-        if b*b == t:
+        if b*b == t and a - b > 1:
             return a - b
 
     return n
-- 
2.43.0


From 3c77880726309c3d97925cae8cf5a89d8d80904a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:55 +0000
Subject: [PATCH 11/62] fix: prime_range included a prime upper end, skipped a
 prime lower end or failed on empty intervals

---
 rosemary/number_theory/primes/sieves.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rosemary/number_theory/primes/sieves.py b/rosemary/number_theory/primes/sieves.py
index 9bf9a5d..89a61a1 100644
--- a/rosemary/number_theory/primes/sieves.py
+++ b/rosemary/number_theory/primes/sieves.py
@@ -515,23 +515,26 @@ def prime_range(a, b=None):
         b = a
         a = 1
 
+    if b <= a:
+        return
+
     # If the upper bound is less than some appropriate cutoff, we generate all
     # primes up to this limit yield the ones in the interval.
     if b <= cutoff:
         prime_list = primes(b)
         idx = bisect_left(prime_list, a)
-        for i in range(idx, len(prime_list)):
+        for i in range(idx, bisect_left(prime_list, b)):
             yield prime_list[i]
     else:
         # Otherwise use a segmented sieve on the interval.
-        sqrt = int(b**(0.5))
+        sqrt = integer_sqrt(b)
         prime_list = primes(sqrt)
 
         # Our segmented sieve code assumes that a > sqrt(b). If this is not the
         # case, then we yield the primes <= sqrt(b) first.
         if a <= sqrt:
             # If a*a <= b, iterate over the primes a <= p <= sqrt(b) first.
-            idx = bisect(prime_list, a)
+            idx = bisect_left(prime_list, a)
             for i in range(idx, len(prime_list)):
                 yield prime_list[i]
 
-- 
2.43.0


From d4540fd408bd352988901e86b58e4f74fad4b9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:27 +0000
Subject: [PATCH 12/62] fix: arithmetic functions raised IndexError for the
 empty factorization of 1

---
 rosemary/number_theory/arithmetic_functions/functions.py    | 5 +++++
 .../number_theory/arithmetic_functions/inverse_functions.py | 2 +-
 rosemary/number_theory/classification.py                    | 6 ++++--
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/rosemary/number_theory/arithmetic_functions/functions.py b/rosemary/number_theory/arithmetic_functions/functions.py
index 573442d..c8624f0 100644
--- a/rosemary/number_theory/arithmetic_functions/functions.py
+++ b/rosemary/number_theory/arithmetic_functions/functions.py
@@ -53,6 +53,9 @@ def _validate_input(n):
             message = "{}: Must have n > 0.".format(caller_name)
             raise ValueError(message)
         factorization = rosemary.number_theory.factorization.factorization.factor(n)
+    elif isinstance(n, list) and not n:
+        # The empty factorization is that of 1.
+        return [(1, 1)]
     elif isinstance(n, list) and n[0][0] > 0:
         factorization = n
     else:
@@ -437,6 +440,8 @@ def carmichael_lambda(n):
         elif n <= 0:
             raise ValueError("carmichael_lambda: Must have n > 0.")
         n_factorization = rosemary.number_theory.factorization.factorization.factor(n)
+    elif isinstance(n, list) and not n:
+        return 1
     elif isinstance(n, list) and n[0][0] > 0:
         n_factorization = n
     else:
diff --git a/rosemary/number_theory/arithmetic_functions/inverse_functions.py b/rosemary/number_theory/arithmetic_functions/inverse_functions.py
index f914190..859aaad 100644
--- a/rosemary/number_theory/arithmetic_functions/inverse_functions.py
+++ b/rosemary/number_theory/arithmetic_functions/inverse_functions.py
@@ -51,7 +51,7 @@ def euler_phi_inverse(n):
         elif n <= 0:
             raise ValueError("euler_phi_inverse: Must have n > 0.")
         n_factorization = factor.factor(n)
-    elif isinstance(n, list) and n[0][0] > 0:
+    elif isinstance(n, list) and (not n or n[0][0] > 0):
         n_factorization = n
         n = factor.factor_back(n_factorization)
     else:
diff --git a/rosemary/number_theory/classification.py b/rosemary/number_theory/classification.py
index 1c1e69f..d09d7bf 100644
--- a/rosemary/number_theory/classification.py
+++ b/rosemary/number_theory/classification.py
@@ -88,7 +88,7 @@ def is_square(n):
 
     """
     if isinstance(n, list):
-        if n[0][0] == -1:
+        if n and n[0][0] == -1:
             return False
         n_factorization = n[:]
         sqrt = 1
@@ -177,7 +177,7 @@ def is_power(n, k=None, detect_only=False):
         raise ValueError("is_power: Must have k >= 1.")
 
     if isinstance(n, list):
-        if n[0][0] == -1:
+        if n and n[0][0] == -1:
             raise ValueError("is_power: Must have n >= 1.")
         n_factorization = n[:]
 
@@ -190,6 +190,8 @@ def is_power(n, k=None, detect_only=False):
                     return False
             return (kth_root, k)
         else:
+            if not n_factorization:
+                return False
             exponents = [e for (p, e) in n_factorization]
             d = gcd_list(exponents)
             if d == 1:
-- 
2.43.0


From bd65849d8e66b50efd62e12149daa722e30fef7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:26 +0000
Subject: [PATCH 13/62] fix: inverse_phi changed its dictionary while iterating
 over it and missed 1 for n = 1

---
 .../number_theory/arithmetic_functions/inverse_functions.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rosemary/number_theory/arithmetic_functions/inverse_functions.py b/rosemary/number_theory/arithmetic_functions/inverse_functions.py
index 859aaad..b6d7400 100644
--- a/rosemary/number_theory/arithmetic_functions/inverse_functions.py
+++ b/rosemary/number_theory/arithmetic_functions/inverse_functions.py
@@ -103,16 +103,14 @@ def euler_phi_inverse(n):
 def inverse_phi(n):
     prime_list = [a + 1 for a in factor.divisors(n) if primality.is_prime(a + 1)]
     phi_cache = defaultdict(list)
+    phi_cache[1] = [1]
 
     for p in prime_list[::-1]:
         a = p - 1
         pk = p
 
         while a <= n:
-            if n % a == 0:
-                phi_cache[a] += [pk]
-
-            for b in phi_cache.keys():
+            for b in list(phi_cache.keys()):
                 if a*b > n:
                     continue
                 for x in phi_cache[b]:
-- 
2.43.0


From f0da20d8f6fe09c0e520035896ab45c4c610a2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:26 +0000
Subject: [PATCH 14/62] fix: summatory functions used a floating point square
 root, wrong for large n

---
 .../number_theory/arithmetic_functions/sums.py   | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/rosemary/number_theory/arithmetic_functions/sums.py b/rosemary/number_theory/arithmetic_functions/sums.py
index d49e699..4caf421 100644
--- a/rosemary/number_theory/arithmetic_functions/sums.py
+++ b/rosemary/number_theory/arithmetic_functions/sums.py
@@ -4,6 +4,8 @@
 
 import rosemary.number_theory.arithmetic_functions.sieves as sieves
 
+from rosemary.number_theory.core import integer_sqrt
+
 
 def euler_phi_sum(n):
     r"""Returns the value of the sum of euler_phi(k) for k = 1, 2, ..., n.
@@ -48,7 +50,7 @@ def euler_phi_sum(n):
     if n <= 0:
         raise ValueError("euler_phi_sum: Must have n > 0.")
 
-    sqrt = int(n**(0.5))
+    sqrt = integer_sqrt(n)
     phi_list = sieves.euler_phi_list(sqrt)
 
     # for i <= sqrt(n), compute the sum directly
@@ -60,7 +62,7 @@ def euler_phi_sum(n):
         if n in cache:
             return cache[n]
 
-        sqrt_n = int(n**(0.5))
+        sqrt_n = integer_sqrt(n)
         value = n - sqrt_n*cache[sqrt_n]
 
         for d in range(2, sqrt_n + 1):
@@ -106,7 +108,7 @@ def euler_phi_weighted_sum(n):
     if n <= 0:
         raise ValueError("euler_phi_weighted_sum: Must have n > 0.")
 
-    sqrt = int(n**(0.5))
+    sqrt = integer_sqrt(n)
     totients = sieves.euler_phi_list(sqrt)
 
     # for i <= sqrt(n), compute the sum directly
@@ -118,7 +120,7 @@ def euler_phi_weighted_sum(n):
         if n in cache:
             return cache[n]
 
-        sqrt_n = int(n**(0.5)) + 1
+        sqrt_n = integer_sqrt(n) + 1
         s1 = sum(d*totients[d]*(n//d - d + 1)*(n//d + d)//2 for d in range(1, sqrt_n))
         s2 = sum(d*(T(n//d) - T(d - 1)) for d in range(2, sqrt_n))
         s3 = sum(d*d*totients[d] for d in range(1, sqrt_n))
@@ -167,7 +169,7 @@ def moebius_sum(n):
     if n <= 0:
         raise ValueError("moebius_sum: Must have n > 0.")
 
-    sqrt = int(n**(0.5))
+    sqrt = integer_sqrt(n)
     mu_list = sieves.moebius_list(sqrt)
 
     # for i <= sqrt(n), compute the sum directly
@@ -178,7 +180,7 @@ def moebius_sum(n):
     def M(n):
         if n in cache:
             return cache[n]
-        sqrt_n = int(n**(0.5)) + 1
+        sqrt_n = integer_sqrt(n) + 1
         value = n - 1
         for d in range(2, sqrt_n):
             value += M(n//d) - M(d - 1)
@@ -222,7 +224,7 @@ def sigma_sum(n):
     if n <= 0:
         raise ValueError("sigma_sum: Must have n > 0.")
 
-    sqrt = int(n**(0.5))
+    sqrt = integer_sqrt(n)
     value = -sqrt*(sqrt + 1)
 
     for k in range(1, sqrt + 1):
-- 
2.43.0


From 7e44d6b8a69513b5c1b6d7270276db747f29168f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:26 +0000
Subject: [PATCH 15/62] fix: sqrts_mod_p raised D to a huge exponent without
 reducing modulo p

---
 rosemary/number_theory/zn_arithmetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/zn_arithmetic.py b/rosemary/number_theory/zn_arithmetic.py
index 7e7d5c2..e52dc94 100644
--- a/rosemary/number_theory/zn_arithmetic.py
+++ b/rosemary/number_theory/zn_arithmetic.py
@@ -329,7 +329,7 @@ def sqrts_mod_p(a, p):
         m = 0
 
         for i in range(s):
-            if pow(A*D**m, 2**(s - 1 - i), p) == p - 1:
+            if pow(A*pow(D, m, p), 2**(s - 1 - i), p) == p - 1:
                 m += 2**i
 
         x = pow(a, (t + 1)//2, p)*pow(D, m//2, p) % p
-- 
2.43.0


From 0f98b8485491aa6cdbfdd3b0e099367c17a6725d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:26 +0000
Subject: [PATCH 16/62] fix: multiplicative_order returned None for the modulus
 1

---
 rosemary/number_theory/zn_arithmetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/zn_arithmetic.py b/rosemary/number_theory/zn_arithmetic.py
index e52dc94..99c3c45 100644
--- a/rosemary/number_theory/zn_arithmetic.py
+++ b/rosemary/number_theory/zn_arithmetic.py
@@ -723,7 +723,7 @@ def multiplicative_order(
 
     # Guaranteed to exist since (a, n) = 1
     for d in phi_divisors:
-        if pow(a, d, n) == 1:
+        if pow(a, d, n) == 1 % n:
             return d
 
 
-- 
2.43.0


From d94ec247adc35cc838bd57d9d9e39052654c517a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:26 +0000
Subject: [PATCH 17/62] fix: sqrts_mod_n raised IndexError for the modulus 1

---
 rosemary/number_theory/zn_arithmetic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rosemary/number_theory/zn_arithmetic.py b/rosemary/number_theory/zn_arithmetic.py
index 99c3c45..ac38d0a 100644
--- a/rosemary/number_theory/zn_arithmetic.py
+++ b/rosemary/number_theory/zn_arithmetic.py
@@ -480,6 +480,9 @@ def sqrts_mod_n(a, n, n_factorization=None):
     if n_factorization is None:
         n_factorization = factor.factor(n)
 
+    if n == 1:
+        return [0]
+
     congruences = []
     moduli = []
     for (p, k) in n_factorization:
-- 
2.43.0


From 72307487c60c38f3df84a92fdb138a492162e605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:46 +0000
Subject: [PATCH 18/62] fix: lehmer miscounted when n//p exceeded the last
 tabulated prime

phi used the table of primes only for x < primes[-1], although it is
complete up to root; the recursion is not valid for the large a used there.
For example lehmer(41**4 - 1) returned 177158 instead of 205143.
---
 rosemary/number_theory/primes/prime_counting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/primes/prime_counting.py b/rosemary/number_theory/primes/prime_counting.py
index ac1c280..8ed43f4 100644
--- a/rosemary/number_theory/primes/prime_counting.py
+++ b/rosemary/number_theory/primes/prime_counting.py
@@ -203,7 +203,7 @@ def lehmer(n):
                          x//24310 - x//34034 - x//15015 - x//19635 - x//23205 - x//36465 - x//51051 - x//85085 +
                          x//30030 + x//39270 + x//46410 + x//72930 + x//102102 + x//170170 + x//255255 - x//510510)
 
-        elif a >= bisect(primes, x**(0.5)) and x < primes[-1]:
+        elif a >= bisect(primes, x**(0.5)) and x <= root:
             pi = bisect(primes, x)
             value = pi - a + 1
 
-- 
2.43.0


From c9b49309096f526808ab8d8a756b0d562c5ba9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:46 +0000
Subject: [PATCH 19/62] fix: lmo_bit failed for x < 9 and miscounted at cubes
 of primes

The roots were computed in floating point; use the exact roots and the
guards of lmo.
---
 rosemary/number_theory/primes/prime_counting.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/rosemary/number_theory/primes/prime_counting.py b/rosemary/number_theory/primes/prime_counting.py
index 8ed43f4..6d9c488 100644
--- a/rosemary/number_theory/primes/prime_counting.py
+++ b/rosemary/number_theory/primes/prime_counting.py
@@ -300,13 +300,18 @@ def lmo(x):
 
 
 def lmo_bit(x):
-    root = int(x**(2.0/3.0))
+    if x <= 1:
+        return 0
+    elif x <= _PRIME_LIST[-1]:
+        return bisect(_PRIME_LIST, x)
+
+    root = integer_nth_root(3, x**2)
 
     primes = sieves.primes(root)
-    t = x**(0.33333333333333)
+    t = integer_nth_root(3, x)
 
     c = bisect(primes, t)
-    b = bisect(primes, x**(0.5))
+    b = bisect(primes, integer_nth_root(2, x))
 
     value = (b + c - 2)*(b - c + 1)//2
 
-- 
2.43.0


From cbe7cc61e6c8a4104d9e7ab1fbbd96789b441bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:56 +0000
Subject: [PATCH 20/62] fix: pi_table(1) raised UnboundLocalError

---
 rosemary/number_theory/primes/prime_counting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/primes/prime_counting.py b/rosemary/number_theory/primes/prime_counting.py
index 6d9c488..a0a67ed 100644
--- a/rosemary/number_theory/primes/prime_counting.py
+++ b/rosemary/number_theory/primes/prime_counting.py
@@ -455,7 +455,7 @@ def pi_table(n):
         table[last:p] = [i]*(p - last)
         last = p
 
-    table[last:n + 1] = [i + 1]*(n + 1 - last)
+    table[last:n + 1] = [len(primes)]*(n + 1 - last)
 
     return primes, table
 
-- 
2.43.0


From 8879de19b5e90ca69c66b820f627188cd725b25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:56 +0000
Subject: [PATCH 21/62] fix: prime_count reported one prime <= 1

---
 rosemary/number_theory/primes/prime_counting.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rosemary/number_theory/primes/prime_counting.py b/rosemary/number_theory/primes/prime_counting.py
index a0a67ed..3c93dc3 100644
--- a/rosemary/number_theory/primes/prime_counting.py
+++ b/rosemary/number_theory/primes/prime_counting.py
@@ -472,4 +472,6 @@ def prime_count(n):
                 if v < p*p:
                     break
                 S[v] -= (S[v//p] - S[p - 1])
+
+    S[1] = 0
     return S
-- 
2.43.0


From 0bb251d9a3e7b10a8efa368b4a80e19a1748db2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:52 +0000
Subject: [PATCH 22/62] fix: UnionFind.union swapped the wrong variables, so
 ranks no longer bounded the tree heights

---
 rosemary/data_structures/unionfind.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/data_structures/unionfind.py b/rosemary/data_structures/unionfind.py
index d78a1e8..f9ce211 100644
--- a/rosemary/data_structures/unionfind.py
+++ b/rosemary/data_structures/unionfind.py
@@ -126,7 +126,7 @@ class UnionFind(object):
         py = parent[y]
 
         if rank[px] > rank[py]:
-            x, y = y, x
+            px, py = py, px
 
         if rank[px] == rank[py]:
             rank[py] += 1
-- 
2.43.0


From e2fa8f83e5c75a0d10b2d544638e9e3bf23beb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:52 +0000
Subject: [PATCH 23/62] fix: LeftistHeap of fewer than two values raised
 UnboundLocalError

---
 rosemary/data_structures/heaps.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rosemary/data_structures/heaps.py b/rosemary/data_structures/heaps.py
index 891f1a0..508c0cc 100644
--- a/rosemary/data_structures/heaps.py
+++ b/rosemary/data_structures/heaps.py
@@ -109,8 +109,8 @@ class LeftistHeap(object):
             heap, which we return.
         """
         num_values = len(values)
-        size = 0
         nodes = deque([_LeftistHeapNode(val) for val in values])
+        self.size = num_values
 
         while num_values > 1:
             nodeA = nodes.popleft()
@@ -118,10 +118,8 @@ class LeftistHeap(object):
             nodeA = _leftist_heap_merge(nodeA, nodeB)
             nodes.append(nodeA)
             num_values -= 1
-            size += 1
 
-        self.root = nodeA
-        self.size = size + 1
+        self.root = nodes.popleft() if nodes else None
 
     def __repr__(self):
         return "Leftist heap of size {}.".format(self.size)
-- 
2.43.0


From 23d4991c110cd08ca37312f903dfddf68f7e0c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:00 +0000
Subject: [PATCH 24/62] fix: pell_minimal_positive_solutions lost the classes
 holding a solution with x = 0 or y = 0

---
 rosemary/number_theory/diophantine_equations/pell.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rosemary/number_theory/diophantine_equations/pell.py b/rosemary/number_theory/diophantine_equations/pell.py
index a30eb0a..2bc1048 100644
--- a/rosemary/number_theory/diophantine_equations/pell.py
+++ b/rosemary/number_theory/diophantine_equations/pell.py
@@ -272,7 +272,7 @@ def pell_minimal_positive_solutions(D, N):
     for r in residues:
         for x in range(r, B, D):
             y = is_square((x*x - N) // D)
-            if y > 0 and y is not False:
+            if y is not False:
                 if (-x*x - D*y*y) % N == 0 and 2*x*y % N == 0:
                     fundamental_solutions.append((x, y))
                 else:
@@ -288,6 +288,9 @@ def pell_minimal_positive_solutions(D, N):
             else:
                 (p, q) = (x, y)
             p, q = p*u + q*v*D, p*v + q*u
+        elif x == 0 or y == 0:
+            # The next solution in the class is the first positive one.
+            p, q = x*u + y*v*D, x*v + y*u
         else:
             (p, q) = (x, y)
         minimal_positive_solutions.append((p, q))
-- 
2.43.0


From 3093b34230c1491f18b66d02804c31f3736eec0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:00 +0000
Subject: [PATCH 25/62] fix: pell_minimal_positive_solutions bounded its search
 in floating point

---
 rosemary/number_theory/diophantine_equations/pell.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rosemary/number_theory/diophantine_equations/pell.py b/rosemary/number_theory/diophantine_equations/pell.py
index 2bc1048..ccf5df5 100644
--- a/rosemary/number_theory/diophantine_equations/pell.py
+++ b/rosemary/number_theory/diophantine_equations/pell.py
@@ -1,4 +1,5 @@
 from rosemary.number_theory.classification import is_square
+from rosemary.number_theory.core import integer_sqrt
 from rosemary.number_theory.continued_fractions import QuadraticIrrational
 from rosemary.number_theory.zn_arithmetic import sqrts_mod_n
 
@@ -250,10 +251,10 @@ def pell_minimal_positive_solutions(D, N):
 
     if N > 0:
         # See Theorem 7.1 in [2]
-        B = int(((u + 1)*N / 2.0)**(0.5)) + 1
+        B = integer_sqrt((u + 1)*N // 2) + 1
     else:
         # See Theorem 7.2 in [2]
-        B = int(((u - 1)*(-N) / 2.0)**(0.5)) + 1
+        B = integer_sqrt((u - 1)*(-N) // 2) + 1
 
     # We can proceed in two different ways at this point:
     # 1) We can check all values of y in the range described in Theorems
-- 
2.43.0


From 50e06a5be787c7573c4a458d54704a7096f1babc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:00 +0000
Subject: [PATCH 26/62] fix: PellEquation.resolvent_solution used undefined
 names

---
 rosemary/number_theory/diophantine_equations/pell.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rosemary/number_theory/diophantine_equations/pell.py b/rosemary/number_theory/diophantine_equations/pell.py
index ccf5df5..8f2761f 100644
--- a/rosemary/number_theory/diophantine_equations/pell.py
+++ b/rosemary/number_theory/diophantine_equations/pell.py
@@ -75,6 +75,7 @@ class PellEquation(object):
         ...
         ValueError: pell_fundamental_solution: Must have D > 0 not a perfect square and n in (-1, 1).
         """
+        D, n = self.D, self.N
         if D <= 0 or is_square(D) or n not in (1, -1):
             raise ValueError("pell_fundamental_solution: Must have D > 0 not a perfect square and n in (-1, 1).")
 
-- 
2.43.0


From ddbdaff24d72bce179d3cb6a12f10d1832c37536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:00 +0000
Subject: [PATCH 27/62] fix: QuadraticIrrational recorded the unscaled pair as
 its first complete quotient

---
 rosemary/number_theory/continued_fractions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/continued_fractions.py b/rosemary/number_theory/continued_fractions.py
index 4f09d9b..f398830 100644
--- a/rosemary/number_theory/continued_fractions.py
+++ b/rosemary/number_theory/continued_fractions.py
@@ -62,7 +62,7 @@ class QuadraticIrrational(object):
             D = q*q*d
             r = integer_sqrt(D)
 
-        pq_pairs = {(p, q): 0}
+        pq_pairs = {(P, Q): 0}
         partial_quotients = []
 
         for i in itertools.count(1):
-- 
2.43.0


From 7ec8ae998d89d9e224e0bd0c3fe1738648872da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:00 +0000
Subject: [PATCH 28/62] fix: QuadraticIrrational took wrong partial quotients
 for negative denominators

---
 rosemary/number_theory/continued_fractions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rosemary/number_theory/continued_fractions.py b/rosemary/number_theory/continued_fractions.py
index f398830..444326d 100644
--- a/rosemary/number_theory/continued_fractions.py
+++ b/rosemary/number_theory/continued_fractions.py
@@ -66,7 +66,8 @@ class QuadraticIrrational(object):
         partial_quotients = []
 
         for i in itertools.count(1):
-            a = (P + r)//Q
+            # For Q < 0 the floor of (P + sqrt(D))/Q is that of (P + r + 1)/Q.
+            a = (P + r)//Q if Q > 0 else (P + r + 1)//Q
             P = a*Q - P
             Q = (D - P*P)//Q
             partial_quotients.append(a)
-- 
2.43.0


From fb1e4de3d935272284d150f9ac105b3abd91478b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:00 +0000
Subject: [PATCH 29/62] fix: QuadraticIrrational displayed the denominator in
 place of p

---
 rosemary/number_theory/continued_fractions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/continued_fractions.py b/rosemary/number_theory/continued_fractions.py
index 444326d..e5ea2da 100644
--- a/rosemary/number_theory/continued_fractions.py
+++ b/rosemary/number_theory/continued_fractions.py
@@ -30,7 +30,7 @@ class QuadraticIrrational(object):
                 s = "sqrt({})/{}".format(self.d, self.q)
         else:
             if self.q == 1:
-                s = "{} + sqrt({})".format(self.q, self.d)
+                s = "{} + sqrt({})".format(self.p, self.d)
             else:
                 s = "({} + sqrt({}))/{}".format(self.p, self.d, self.q)
 
-- 
2.43.0


From 137ae3cc2ec17e468e7701ab0c4c3077dbb830d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:01 +0000
Subject: [PATCH 30/62] fix: longest_ap left out the pairs ending in the last
 element when there is no longer progression

---
 rosemary/number_theory/arithmetic_progressions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/arithmetic_progressions.py b/rosemary/number_theory/arithmetic_progressions.py
index f7bb392..a11442f 100644
--- a/rosemary/number_theory/arithmetic_progressions.py
+++ b/rosemary/number_theory/arithmetic_progressions.py
@@ -74,7 +74,7 @@ def longest_ap(A):
     n = len(A)
     longest = 2
 
-    for j in range(n - 2, 0, -1):
+    for j in range(n - 1, 0, -1):
         i = j - 1
         k = j + 1
         while i >= 0 and k <= n - 1:
-- 
2.43.0


From 67ce739c10c2eb37cf919246c3c049f1d4556a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:01 +0000
Subject: [PATCH 31/62] fix: bernoulli_list(0) raised IndexError

---
 rosemary/number_theory/misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rosemary/number_theory/misc.py b/rosemary/number_theory/misc.py
index 8342082..b86707a 100644
--- a/rosemary/number_theory/misc.py
+++ b/rosemary/number_theory/misc.py
@@ -160,7 +160,8 @@ def bernoulli_list(n):
     """
     values = [0]*(n + 1)
     values[0] = 1
-    values[1] = Fraction(-1, 2)
+    if n >= 1:
+        values[1] = Fraction(-1, 2)
 
     for m in range(2, n + 1, 2):
         total = 1
-- 
2.43.0


From ec8011b667b5fddc119c2eadc5f548a3da593e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:13 +0000
Subject: [PATCH 32/62] fix: largest_divisor split a prime between the halves
 and returned products not dividing n

---
 rosemary/number_theory/misc.py | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/rosemary/number_theory/misc.py b/rosemary/number_theory/misc.py
index b86707a..6198cd7 100644
--- a/rosemary/number_theory/misc.py
+++ b/rosemary/number_theory/misc.py
@@ -32,24 +32,15 @@ def largest_divisor(n, b):
         return target
 
     n_factorization = rosemary.number_theory.factorization.factor(n)
-    L = []
-    for (p, e) in n_factorization:
-        pp = p
-        for _ in range(e):
-            L.append(pp)
-            pp *= p
-
-    k = len(L) // 2
-    P1 = L[:k]
-    P2 = L[k:]
+    k = len(n_factorization) // 2
 
     # Form all of the products in each half
     prods1 = [1]
-    for p in P1:
-        prods1 += [x*p for x in prods1 if x*p <= b and n % (x*p) == 0]
+    for (p, e) in n_factorization[:k]:
+        prods1 = [x*p**i for x in prods1 for i in range(e + 1) if x*p**i <= b]
     prods2 = [1]
-    for p in P2:
-        prods2 += [x*p for x in prods2 if x*p <= b and n % (x*p) == 0]
+    for (p, e) in n_factorization[k:]:
+        prods2 = [x*p**i for x in prods2 for i in range(e + 1) if x*p**i <= b]
 
     prods1.sort()
     prods2.sort(reverse=True)
-- 
2.43.0


From 081a2ab503513b057e9c72e8e3876d6bffaacb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:23 +0000
Subject: [PATCH 33/62] fix: largest_divisor called factor through a package
 that does not hold it

---
 rosemary/number_theory/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rosemary/number_theory/misc.py b/rosemary/number_theory/misc.py
index 6198cd7..60604d1 100644
--- a/rosemary/number_theory/misc.py
+++ b/rosemary/number_theory/misc.py
@@ -1,6 +1,6 @@
 # Miscellaneous number theoretic functions
 
-import rosemary.number_theory.factorization
+import rosemary.number_theory.factorization.factorization
 
 from rosemary.number_theory.prime_list import _PRIME_LIST
 from fractions import Fraction
@@ -31,7 +31,7 @@ def largest_divisor(n, b):
     if n % target == 0:
         return target
 
-    n_factorization = rosemary.number_theory.factorization.factor(n)
+    n_factorization = rosemary.number_theory.factorization.factorization.factor(n)
     k = len(n_factorization) // 2
 
     # Form all of the products in each half
-- 
2.43.0


From a6c6b9894b38761d23eb2f23bc87ea94604e0a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:50 +0000
Subject: [PATCH 34/62] fix: stirling_number2 used a wrong recurrence and
 raised KeyError for n > m

---
 rosemary/combinatorics/enumeration/enumeration.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rosemary/combinatorics/enumeration/enumeration.py b/rosemary/combinatorics/enumeration/enumeration.py
index 489a572..be018bb 100644
--- a/rosemary/combinatorics/enumeration/enumeration.py
+++ b/rosemary/combinatorics/enumeration/enumeration.py
@@ -50,6 +50,9 @@ def bell_number(n):
 
 
 def stirling_number2(m, n):
+    if n > m:
+        return 0
+
     S = {}
     S[0, 0] = 1
 
@@ -61,7 +64,7 @@ def stirling_number2(m, n):
 
     for i in range(1, m + 1):
         for j in range(1, min(i, n) + 1):
-            S[i, j] = j*S[i - 1, j] + S[i - j, j - 1]
+            S[i, j] = j*S[i - 1, j] + S[i - 1, j - 1]
 
     return S[m, n]
 
-- 
2.43.0


From 033a67ae963954f4fd2bfa87d9d8504d73777e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:50 +0000
Subject: [PATCH 35/62] fix: binomial(n, k) was 1 for k > n

---
 rosemary/combinatorics/enumeration/enumeration.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rosemary/combinatorics/enumeration/enumeration.py b/rosemary/combinatorics/enumeration/enumeration.py
index be018bb..772d189 100644
--- a/rosemary/combinatorics/enumeration/enumeration.py
+++ b/rosemary/combinatorics/enumeration/enumeration.py
@@ -87,6 +87,9 @@ def binomial(n, k):
         >>> binomial(2, 0)
         1
     """
+    if k > n:
+        return 0
+
     pp = 1
     k = min(k, n - k)
     for e in range(n - k + 1, n + 1):
-- 
2.43.0


From 9d19fe76c7a8de333d267bfb2a6b68c27a909299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:50 +0000
Subject: [PATCH 36/62] fix: partition_list(0) raised IndexError

---
 rosemary/combinatorics/enumeration/enumeration.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rosemary/combinatorics/enumeration/enumeration.py b/rosemary/combinatorics/enumeration/enumeration.py
index 772d189..7276730 100644
--- a/rosemary/combinatorics/enumeration/enumeration.py
+++ b/rosemary/combinatorics/enumeration/enumeration.py
@@ -172,9 +172,8 @@ def partition_list(n):
     """
     values = [0]*(n + 1)
     values[0] = 1
-    values[1] = 1
 
-    for m in range(2, n + 1):
+    for m in range(1, n + 1):
         max_idx = int((1 + (1 + 24*m)**(0.5))/6)
         sign = (-1)**(max_idx + 1)
         total = 0
-- 
2.43.0


From f3bcd8fea4ce1c48f014ed022d62759140e6d6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:50 +0000
Subject: [PATCH 37/62] fix: necklaces with weights raised TypeError

---
 rosemary/combinatorics/enumeration/enumeration.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rosemary/combinatorics/enumeration/enumeration.py b/rosemary/combinatorics/enumeration/enumeration.py
index 7276730..ca8a3f7 100644
--- a/rosemary/combinatorics/enumeration/enumeration.py
+++ b/rosemary/combinatorics/enumeration/enumeration.py
@@ -397,7 +397,9 @@ def necklaces(n, k, weights=None):
         16
     """
     if weights:
-        j = gcd(weights)
+        j = 0
+        for e in weights:
+            j = gcd(j, e)
         ss = 0
         for d in xdivisors(j):
             ll = [e//d for e in weights]
-- 
2.43.0


From 23ad95239ade134248789ea3f7621415a8a6f352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:50 +0000
Subject: [PATCH 38/62] fix: integer_partitions yielded an empty partition when
 num_parts > n

---
 rosemary/combinatorics/generation/partitions.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rosemary/combinatorics/generation/partitions.py b/rosemary/combinatorics/generation/partitions.py
index 04955e8..39bdde6 100644
--- a/rosemary/combinatorics/generation/partitions.py
+++ b/rosemary/combinatorics/generation/partitions.py
@@ -69,7 +69,6 @@ def integer_partitions(n, **kwargs):
     if 'num_parts' in kwargs:
         num_parts = kwargs['num_parts']
         if num_parts > n:
-            yield []
             return
     else:
         num_parts = 0
-- 
2.43.0


From 88194af5209f71b91f0b2eb922b3d1140f4f359f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:50 +0000
Subject: [PATCH 39/62] fix: integer_partitions raised IndexError for n = 0 and
 for num_parts = 1

---
 rosemary/combinatorics/generation/partitions.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rosemary/combinatorics/generation/partitions.py b/rosemary/combinatorics/generation/partitions.py
index 39bdde6..5bb2e63 100644
--- a/rosemary/combinatorics/generation/partitions.py
+++ b/rosemary/combinatorics/generation/partitions.py
@@ -73,6 +73,11 @@ def integer_partitions(n, **kwargs):
     else:
         num_parts = 0
 
+    if n == 0:
+        # only the empty partition remains
+        yield []
+        return
+
     def algorithm_p(n):
         """
         Generates all partitions of n. This is Algorithm P from 7.2.1.4 of
@@ -114,6 +119,8 @@ def integer_partitions(n, **kwargs):
 
         while True:
             yield partition[:]
+            if m == 1:
+                return
             if partition[1] < partition[0] - 1:
                 partition[0] -= 1
                 partition[1] += 1
-- 
2.43.0


From 27fffea9d70a6d8ca464e7a326cbe783e0aedc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:50 +0000
Subject: [PATCH 40/62] fix: integer_partitions repeated the largest of the
 given parts with distinct=True

---
 rosemary/combinatorics/generation/partitions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/combinatorics/generation/partitions.py b/rosemary/combinatorics/generation/partitions.py
index 5bb2e63..5f297e4 100644
--- a/rosemary/combinatorics/generation/partitions.py
+++ b/rosemary/combinatorics/generation/partitions.py
@@ -149,7 +149,7 @@ def integer_partitions(n, **kwargs):
             if num_parts and num_used >= num_parts:
                 return
             idx = 0
-            if last_idx != 0:
+            if num_used != 0:
                 idx = last_idx + distinct
             for i in range(idx, total_number):
                 part = parts[i]
-- 
2.43.0


From f9f77679d1076cb84373479d4761b2df58913f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:50 +0000
Subject: [PATCH 41/62] fix: phillips repeated or failed on a multiset whose
 elements are all equal

---
 rosemary/combinatorics/generation/permutations.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rosemary/combinatorics/generation/permutations.py b/rosemary/combinatorics/generation/permutations.py
index 1c71f7f..302039e 100644
--- a/rosemary/combinatorics/generation/permutations.py
+++ b/rosemary/combinatorics/generation/permutations.py
@@ -75,7 +75,8 @@ def phillips(elements):
 
     if n == 1:
         yield [entries[0], entries[1]]
-        yield [entries[1], entries[0]]
+        if entries[0] < entries[1]:
+            yield [entries[1], entries[0]]
         return
 
     while True:
@@ -107,7 +108,7 @@ def phillips(elements):
             # L2.2' [Find j]
             j = n - 3
             y = entries[j]
-            while y >= x:
+            while j >= 0 and y >= x:
                 j -= 1
                 x = y
                 y = entries[j]
-- 
2.43.0


From a10ee7aec4b476d6a449441caa751cf057407b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:05 +0000
Subject: [PATCH 42/62] fix: steepest_ascent_two_opt started from a tour costed
 by the points instead of the given distance matrix

---
 rosemary/combinatorics/optimization/tsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/combinatorics/optimization/tsp.py b/rosemary/combinatorics/optimization/tsp.py
index db73df8..41b9234 100644
--- a/rosemary/combinatorics/optimization/tsp.py
+++ b/rosemary/combinatorics/optimization/tsp.py
@@ -227,7 +227,7 @@ def steepest_ascent_two_opt(points, distance_matrix=None):
         distance_matrix = euclidean_distance_matrix(points)
 
     num_points = len(points)
-    best_cost, best_sol = farthest_insertion(points)
+    best_cost, best_sol = farthest_insertion(points, distance_matrix)
 
     def G(X, i, j):
         xi = X[i]
-- 
2.43.0


From ee150955b325ee7e75bde2169a33f15cbaa105c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:05 +0000
Subject: [PATCH 43/62] fix: TravelingSalesman.solve returned the runner-up
 with its cost instead of the best path

---
 rosemary/combinatorics/optimization/genetic_tsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/combinatorics/optimization/genetic_tsp.py b/rosemary/combinatorics/optimization/genetic_tsp.py
index c031643..77bc74a 100755
--- a/rosemary/combinatorics/optimization/genetic_tsp.py
+++ b/rosemary/combinatorics/optimization/genetic_tsp.py
@@ -166,7 +166,7 @@ class TravelingSalesman(object):
             current_cost = population[0][0]
 
             if current_cost < best_cost:
-                Xbest = list(population[1])
+                Xbest = list(population[0][1])
                 best_cost = current_cost
                 print(c, best_cost)
 
-- 
2.43.0


From 91e2ecbddb870d6a609e5693a0727a910dfc7393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:05 +0000
Subject: [PATCH 44/62] fix: domino_tilings(1) was 1

---
 rosemary/combinatorics/optimization/exact_cover.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rosemary/combinatorics/optimization/exact_cover.py b/rosemary/combinatorics/optimization/exact_cover.py
index db7afea..cc97679 100644
--- a/rosemary/combinatorics/optimization/exact_cover.py
+++ b/rosemary/combinatorics/optimization/exact_cover.py
@@ -133,9 +133,8 @@ class ExactCoverBinary(ExactCover):
     Given a matrix M with entries of 0 and 1, does there exist a subset of the
     rows of M which sum to the vector of all 1s?
     """
-    def __init__(self, integers):
+    def __init__(self, integers, num_bits=0):
         vectors = defaultdict(list)
-        num_bits = 0
 
         for n in integers:
             least_set_bit = n & (-n)
@@ -222,7 +221,7 @@ def domino_ints(n):
 
 def domino_tilings(n):
     ints = domino_ints(n)
-    E = ExactCoverBinary(ints)
+    E = ExactCoverBinary(ints, n*n)
     num_sols = E.number_of_solutions()
     return num_sols
 
-- 
2.43.0


From a6552a61ee94c46a629a36cf0582833513edac0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:00 +0000
Subject: [PATCH 45/62] fix: dijkstra_bidirectional found no path from a vertex
 to itself and returned a bare inf without a path

---
 rosemary/graphs/algorithms/paths.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rosemary/graphs/algorithms/paths.py b/rosemary/graphs/algorithms/paths.py
index b23ec23..a8d37cd 100644
--- a/rosemary/graphs/algorithms/paths.py
+++ b/rosemary/graphs/algorithms/paths.py
@@ -575,6 +575,9 @@ def dijkstra_bidirectional(graph, s, t):
     if t not in graph_dict:
         raise ValueError("dijkstra_bidirectional: {} is not a vertex of graph.".format(t))
 
+    if s == t:
+        return 0, [s]
+
     # Search forward from `s`.
     forward_search = dijkstra_iterator(graph, s)
     forward_estimate = {}
@@ -604,7 +607,7 @@ def dijkstra_bidirectional(graph, s, t):
                 break
 
     except StopIteration:
-        return inf
+        return inf, []
 
     best_len = inf
     best_path = []
-- 
2.43.0


From fdc16e2ebcc81f8a9e72db4209f6dd517167a9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:00 +0000
Subject: [PATCH 46/62] fix: branch_and_bound returned no coloring of a graph
 that needs a color per vertex

---
 rosemary/graphs/algorithms/coloring.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rosemary/graphs/algorithms/coloring.py b/rosemary/graphs/algorithms/coloring.py
index 91b7c4b..5d2ddd9 100644
--- a/rosemary/graphs/algorithms/coloring.py
+++ b/rosemary/graphs/algorithms/coloring.py
@@ -453,7 +453,8 @@ def branch_and_bound(graph, classes=True):
             return best_number
 
     vertices = graph.vertices()
-    best = [len(vertices), []]
+    # No coloring found yet, so any of at most len(vertices) colors is better.
+    best = [len(vertices) + 1, []]
 
     # color_map and uncolored are global data structure used by the
     # recursive method.
@@ -468,7 +469,7 @@ def branch_and_bound(graph, classes=True):
         neighbors[u] = graph.neighbors(u)
 
     # Main entry to the recursive function.
-    color(len(vertices), 0)
+    color(len(vertices) + 1, 0)
     num_colors, color_map = best
 
     if not classes:
-- 
2.43.0


From 64f8834f8754e7de35f674e129c272acaba929cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:00 +0000
Subject: [PATCH 47/62] fix: korman failed or looped forever on graphs with
 isolated vertices

---
 rosemary/graphs/algorithms/coloring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/graphs/algorithms/coloring.py b/rosemary/graphs/algorithms/coloring.py
index 5d2ddd9..e6ca83b 100644
--- a/rosemary/graphs/algorithms/coloring.py
+++ b/rosemary/graphs/algorithms/coloring.py
@@ -566,7 +566,7 @@ def korman(graph, classes=True):
 
         while idx >= clique_size:
             if find_next_s:
-                max_adj = 0
+                max_adj = -1
                 max_deg = 0
                 for u in uncolored:
                     adjacent_colors = {color[v] for v in graph_dict[u]}
-- 
2.43.0


From f3990164962614d5844f6b9ee91fbdbaf375b49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:00 +0000
Subject: [PATCH 48/62] fix: number_of_hamiltonian_paths5 was 0 for a single
 vertex

---
 rosemary/graphs/algorithms/hamiltonian_paths.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rosemary/graphs/algorithms/hamiltonian_paths.py b/rosemary/graphs/algorithms/hamiltonian_paths.py
index d5f1f7a..9fd89ea 100644
--- a/rosemary/graphs/algorithms/hamiltonian_paths.py
+++ b/rosemary/graphs/algorithms/hamiltonian_paths.py
@@ -236,10 +236,9 @@ def walks(graph, a, n, allowed):
     neighbors = {u: graph.neighbors(u) & allowed for u in allowed}
 
     num_walks = {u: 0 for u in allowed}
-    for u in neighbors[a]:
-        num_walks[u] += 1
+    num_walks[a] = 1
 
-    for i in range(n - 1):
+    for i in range(n):
         num_walks2 = {u: 0 for u in allowed}
         for u in allowed:
             for v in neighbors[u]:
-- 
2.43.0


From aeb7ad21ae44b480ae64d224bba880f891b3fc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:00 +0000
Subject: [PATCH 49/62] fix: is_graphic printed every intermediate sequence

---
 rosemary/graphs/algorithms/degree_sequences.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rosemary/graphs/algorithms/degree_sequences.py b/rosemary/graphs/algorithms/degree_sequences.py
index 575b73d..6826565 100644
--- a/rosemary/graphs/algorithms/degree_sequences.py
+++ b/rosemary/graphs/algorithms/degree_sequences.py
@@ -67,7 +67,6 @@ def is_graphic(S):
             return True
 
         T = sorted(T, reverse=True)
-        print(T)
         d = T.pop(0)
 
         # Subtract 1 from the next d largest elements.
-- 
2.43.0


From 34aded18781a3e162f266fd9f537a1aeb6569a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:00 +0000
Subject: [PATCH 50/62] fix: is_graphic_erdos_gallai accepted sequences with an
 odd sum or negative entries

---
 rosemary/graphs/algorithms/degree_sequences.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rosemary/graphs/algorithms/degree_sequences.py b/rosemary/graphs/algorithms/degree_sequences.py
index 6826565..ac405f3 100644
--- a/rosemary/graphs/algorithms/degree_sequences.py
+++ b/rosemary/graphs/algorithms/degree_sequences.py
@@ -78,6 +78,10 @@ def is_graphic_erdos_gallai(S):
     T = sorted(S, reverse=True)
     d_sum = 0
 
+    # The degrees are non-negative and have an even sum.
+    if T and (T[-1] < 0 or sum(T) % 2):
+        return False
+
     for k in range(len(T)):
         d_sum += T[k]
         rhs = k*(k + 1) + sum(min(k + 1, T[i]) for i in range(k + 1, len(T)))
-- 
2.43.0


From 21f2ba1d0e594c488e157466ecf11d7d2b869aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:30 +0000
Subject: [PATCH 51/62] fix: kruskal failed on graphs that are not connected

---
 rosemary/graphs/algorithms/spanning_trees.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rosemary/graphs/algorithms/spanning_trees.py b/rosemary/graphs/algorithms/spanning_trees.py
index aad03bd..ddfba80 100644
--- a/rosemary/graphs/algorithms/spanning_trees.py
+++ b/rosemary/graphs/algorithms/spanning_trees.py
@@ -180,8 +180,9 @@ def kruskal(graph):
     find = X.find
     union = X.union
 
-    # A tree on n vertices has n - 1 edges, so break when finished.
-    while num_edges < num_vertices - 1:
+    # A tree on n vertices has n - 1 edges, so break when finished. A
+    # graph that is not connected runs out of edges first.
+    while edges and num_edges < num_vertices - 1:
         (weight, u, v) = heappop(edges)
         if find(u) != find(v):
             edge = min(u, v), max(u, v)
-- 
2.43.0


From 9ed4d575879286105301c0d6ce0c15d034941a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:30 +0000
Subject: [PATCH 52/62] fix: gabow failed on spanning trees of equal weight,
 comparing their predecessor dicts

---
 rosemary/graphs/algorithms/spanning_trees.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/rosemary/graphs/algorithms/spanning_trees.py b/rosemary/graphs/algorithms/spanning_trees.py
index ddfba80..2a9bc23 100644
--- a/rosemary/graphs/algorithms/spanning_trees.py
+++ b/rosemary/graphs/algorithms/spanning_trees.py
@@ -1,4 +1,5 @@
 from heapq import heappush, heappop, heapify
+from itertools import count
 from random import choice
 
 from rosemary.data_structures.unionfind import UnionFind, NamedUnionFind
@@ -359,15 +360,17 @@ def gabow(graph, k=None):
     tree_weight, father = prim(graph, root, edge_list=False)
     father[root] = root
 
+    # The counter breaks ties, since the entries after it have no order.
+    counter = count()
     (exchange_weight, e, f) = find_exchange(father, [], [])
-    heap = [(tree_weight + exchange_weight, e, f, father, [], [])]
+    heap = [(tree_weight + exchange_weight, next(counter), e, f, father, [], [])]
 
     tree_edges = sorted([(min(x, y), max(x, y)) for (x, y) in father.items() if x != y])
     yield tree_weight, tree_edges
 
     j = 1
     while j < k:
-        (tree_weight, e, f, father, included, excluded) = heappop(heap)
+        (tree_weight, _, e, f, father, included, excluded) = heappop(heap)
 
         if tree_weight == inf:
             return
@@ -389,8 +392,8 @@ def gabow(graph, k=None):
         excluded_j = excluded + [e]
 
         (exchange_weight, e, f) = find_exchange(father, included_i, excluded)
-        heappush(heap, (new_tree_weight + exchange_weight, e, f, father, included_i, excluded))
+        heappush(heap, (new_tree_weight + exchange_weight, next(counter), e, f, father, included_i, excluded))
 
         (exchange_weight, e, f) = find_exchange(new_father, included, excluded_j)
-        heappush(heap, (tree_weight + exchange_weight, e, f, new_father, included, excluded_j))
+        heappush(heap, (tree_weight + exchange_weight, next(counter), e, f, new_father, included, excluded_j))
         j += 1
-- 
2.43.0


From f640ffb8b835f2a035ccfb80b0f687aa9d668b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:30 +0000
Subject: [PATCH 53/62] fix: the product of non-square matrices had the wrong
 shape or failed

---
 rosemary/algebra/matrices/matrices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/algebra/matrices/matrices.py b/rosemary/algebra/matrices/matrices.py
index 25b6d00..8b5d3b2 100644
--- a/rosemary/algebra/matrices/matrices.py
+++ b/rosemary/algebra/matrices/matrices.py
@@ -207,7 +207,7 @@ class Matrix(object):
             raise ValueError("Incompatible Matrix dimensions")
 
         other_entries = other.__entries
-        result = [[0]*nrows for _ in range(other_ncols)]
+        result = [[0]*other_ncols for _ in range(nrows)]
 
         for i in range(nrows):
             for j in range(other_ncols):
-- 
2.43.0


From afc943e5b4958a379986f12b8948f65a14bee040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:30 +0000
Subject: [PATCH 54/62] fix: matrices of different dimensions were added and
 subtracted

---
 rosemary/algebra/matrices/matrices.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rosemary/algebra/matrices/matrices.py b/rosemary/algebra/matrices/matrices.py
index 8b5d3b2..823f79d 100644
--- a/rosemary/algebra/matrices/matrices.py
+++ b/rosemary/algebra/matrices/matrices.py
@@ -102,8 +102,8 @@ class Matrix(object):
 
         self_ncols = self.__ncols
         self_nrows = self.__nrows
-        other_ncols = self.__ncols
-        other_nrows = self.__nrows
+        other_ncols = other.__ncols
+        other_nrows = other.__nrows
 
         if self_ncols != other_ncols or self_nrows != other_nrows:
             raise ValueError("Invalid dimensions for matrix addition")
@@ -163,6 +163,9 @@ class Matrix(object):
 
         ncols = self.__ncols
         nrows = self.__nrows
+        if ncols != other.__ncols or nrows != other.__nrows:
+            raise ValueError("Invalid dimensions for matrix subtraction")
+
         entries = list(self.__entries)
         other_entries = list(other.__entries)
         result = [[0]*ncols for _ in range(nrows)]
-- 
2.43.0


From d73d3edf35cc7604479c1146693385bca820df28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:30 +0000
Subject: [PATCH 55/62] fix: determinant changed the matrix and was 0 when the
 last row held the only pivot

---
 rosemary/algebra/matrices/matrices.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/rosemary/algebra/matrices/matrices.py b/rosemary/algebra/matrices/matrices.py
index 823f79d..8bb5343 100644
--- a/rosemary/algebra/matrices/matrices.py
+++ b/rosemary/algebra/matrices/matrices.py
@@ -316,7 +316,7 @@ class Matrix(object):
         if nrows != ncols:
             raise ValueError("Determinant only defined for square matrices.")
 
-        m = self.__entries
+        m = [list(row) for row in self.__entries]
 
         for k in range(ncols):
             pivot = m[k][k]
@@ -325,10 +325,9 @@ class Matrix(object):
                 for i in range(k + 1, ncols):
                     if m[i][k] != 0:
                         break
-
-                # If no nonzero entry was found in column k, then the
-                # determinant is zero.
-                if i == ncols - 1:
+                else:
+                    # If no nonzero entry was found in column k, then the
+                    # determinant is zero.
                     return 0
                 # Othwerwise, we perform exchanges.
                 for j in range(k, ncols):
-- 
2.43.0


From df1ae412c4c9daa3a3dad47b87d5b336f39cf2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:38 +0000
Subject: [PATCH 56/62] fix: culberson returned no vertex of a graph without
 edges, which made maxis loop forever

---
 rosemary/graphs/algorithms/independent_sets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/graphs/algorithms/independent_sets.py b/rosemary/graphs/algorithms/independent_sets.py
index 65867d2..6d647ab 100644
--- a/rosemary/graphs/algorithms/independent_sets.py
+++ b/rosemary/graphs/algorithms/independent_sets.py
@@ -159,7 +159,7 @@ def culberson(graph):
             return (0, 0, [])
 
         max_size = 0
-        max_deg = 0
+        max_deg = -1
         max_set = []
 
         vertices[0], vertices[-1] = vertices[-1], vertices[0]
-- 
2.43.0


From 96c11f59878ad58f79242adb606da6c01eff2c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:00 +0000
Subject: [PATCH 57/62] fix: dijkstra_bidirectional keeps returning a bare inf
 when there is no path, as its tests require

---
 rosemary/graphs/algorithms/paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/graphs/algorithms/paths.py b/rosemary/graphs/algorithms/paths.py
index a8d37cd..8d582fa 100644
--- a/rosemary/graphs/algorithms/paths.py
+++ b/rosemary/graphs/algorithms/paths.py
@@ -607,7 +607,7 @@ def dijkstra_bidirectional(graph, s, t):
                 break
 
     except StopIteration:
-        return inf, []
+        return inf
 
     best_len = inf
     best_path = []
-- 
2.43.0


From 9db421b45aff072ea9628b1e707e66515e454ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:06 +0000
Subject: [PATCH 58/62] fix: subtracting a constant from a polynomial added it

---
 rosemary/algebra/polynomials/polynomials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/algebra/polynomials/polynomials.py b/rosemary/algebra/polynomials/polynomials.py
index 9bb53f2..6e4f2ea 100644
--- a/rosemary/algebra/polynomials/polynomials.py
+++ b/rosemary/algebra/polynomials/polynomials.py
@@ -150,7 +150,7 @@ class Polynomial(object):
             try:
                 parent_class = self.__class__
                 other_poly = parent_class(other, self.variable)
-                return self + other_poly
+                return self - other_poly
             except:
                 raise ValueError('Other cannot be coerced into a polynomial')
 
-- 
2.43.0


From 45f2c232b31342d0b94e798fde01b7de3ab15247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:06 +0000
Subject: [PATCH 59/62] fix: polynomial gcd raised AttributeError when more
 than one division was needed

---
 rosemary/algebra/polynomials/polynomials.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/rosemary/algebra/polynomials/polynomials.py b/rosemary/algebra/polynomials/polynomials.py
index 6e4f2ea..a866022 100644
--- a/rosemary/algebra/polynomials/polynomials.py
+++ b/rosemary/algebra/polynomials/polynomials.py
@@ -386,24 +386,22 @@ class Polynomial(object):
         u = self.primitive_part()
         v = other.primitive_part()
         h = g = 1
-        dd = u.degree - v.degree
 
-        if dd < 0:
+        if u.degree < v.degree:
             return other.gcd(self)
 
         while True:
+            dd = u.degree - v.degree
             (q, r) = u.pseudo_quo_rem(v)
             if r == 0:
                 return d * v.primitive_part()
             elif r.degree == 0:
-                return Polynomial([d])
+                return PolyZZ([d], self.variable)
             u = v
-            v = Polynomial([e // (g*h**dd) for e in r._coefficients])
+            v = PolyZZ([e // (g*h**dd) for e in r._coefficients], self.variable)
             g = u.lead_coeff
-            if dd > 1:
+            if dd > 0:
                 h = g**dd // h**(dd - 1)
-            else:
-                h = h**(1 - dd) // g**(-dd)
 
 
 class PolyZZ(Polynomial):
-- 
2.43.0


From d34e7b1c811d271e979ec6f28a7b1703b606c28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:24 +0000
Subject: [PATCH 60/62] fix: power of the zero polynomial raised IndexError

---
 rosemary/algebra/polynomials/algorithms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rosemary/algebra/polynomials/algorithms.py b/rosemary/algebra/polynomials/algorithms.py
index 83e6ae1..ac59d0f 100644
--- a/rosemary/algebra/polynomials/algorithms.py
+++ b/rosemary/algebra/polynomials/algorithms.py
@@ -129,6 +129,9 @@ def power_jcp(A, k):
         >>> power_jcp(L, 2)
         [1, 6, 13, 12, 4]
     """
+    if not any(A):
+        return [0**k]
+
     shift = 0
     while A[shift] == 0:
         shift += 1
-- 
2.43.0


From d07b70393afdfb1d7fd90164e9c532e7037ab69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:42 +0000
Subject: [PATCH 61/62] fix: gcd_list of a single negative integer was negative

---
 rosemary/number_theory/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/core.py b/rosemary/number_theory/core.py
index be17be5..cb7e5ae 100644
--- a/rosemary/number_theory/core.py
+++ b/rosemary/number_theory/core.py
@@ -59,7 +59,7 @@ def gcd_list(L):
     """
     num_values = len(L)
     if num_values == 1:
-        return L[0]
+        return abs(L[0])
 
     partial = gcd(L[0], L[1])
     for i in range(2, num_values):
-- 
2.43.0


From 9c2bf65711bc6bba43403722529f5b3b2f971503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:53 +0000
Subject: [PATCH 62/62] fix: lcm_list of a single negative integer was negative

---
 rosemary/number_theory/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/core.py b/rosemary/number_theory/core.py
index cb7e5ae..b723828 100644
--- a/rosemary/number_theory/core.py
+++ b/rosemary/number_theory/core.py
@@ -177,7 +177,7 @@ def lcm_list(L):
     """
     num_values = len(L)
     if num_values == 1:
-        return L[0]
+        return abs(L[0])
 
     partial = lcm(L[0], L[1])
     for i in range(2, num_values):
-- 
2.43.0

