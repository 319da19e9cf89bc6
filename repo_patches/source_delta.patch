From 91c18d8d8aa2d013ed275bad2eee320eba523a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:16 +0000
Subject: [PATCH 01/76] fix: gcd_list of a single negative value is its
 absolute value

---
 rosemary/number_theory/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/core.py b/rosemary/number_theory/core.py
index d04b7b4..98a7619 100644
--- a/rosemary/number_theory/core.py
+++ b/rosemary/number_theory/core.py
@@ -59,7 +59,7 @@ def gcd_list(L):
     """
     num_values = len(L)
     if num_values == 1:
-        return L[0]
+        return abs(L[0])
 
     partial = gcd(L[0], L[1])
     for i in range(2, num_values):
-- 
2.43.0


From fa762df1a59680c1c8054a7c31ebab32ff504a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:16 +0000
Subject: [PATCH 02/76] fix: lcm_list of a single negative value is its
 absolute value

---
 rosemary/number_theory/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/core.py b/rosemary/number_theory/core.py
index 98a7619..5892287 100644
--- a/rosemary/number_theory/core.py
+++ b/rosemary/number_theory/core.py
@@ -177,7 +177,7 @@ def lcm_list(L):
     """
     num_values = len(L)
     if num_values == 1:
-        return L[0]
+        return abs(L[0])
 
     partial = lcm(L[0], L[1])
     for i in range(2, num_values):
-- 
2.43.0


From aae788b284d5edea98636c476895c613087c81b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:29 +0000
Subject: [PATCH 03/76] fix: power_mod(a, 0, m) is 1 mod m when m divides a

---
 rosemary/number_theory/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rosemary/number_theory/core.py b/rosemary/number_theory/core.py
index 5892287..53a810f 100644
--- a/rosemary/number_theory/core.py
+++ b/rosemary/number_theory/core.py
@@ -223,10 +223,10 @@ def power_mod(a, k, m):
     if m < 1:
         raise ValueError("power_mod: Must have m >= 1.")
 
+    if k == 0:
+        return 1 % m
     if a % m == 0:
         return 0
-    if k == 0:
-        return 1
 
     a = a % m
     t = 1
-- 
2.43.0


From 4991c5b9f7491ffe3bf2b3e641ca8b0fc85ddc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:29 +0000
Subject: [PATCH 04/76] fix: integer_sqrt rounds up for some n above 2**52

---
 rosemary/number_theory/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/core.py b/rosemary/number_theory/core.py
index 53a810f..ce87412 100644
--- a/rosemary/number_theory/core.py
+++ b/rosemary/number_theory/core.py
@@ -525,7 +525,7 @@ def integer_sqrt(n):
         return n
 
     # if n is small enough, compute the square root and round
-    if n <= 2**60:
+    if n <= 2**52:
         return int(n**(0.5))
 
     bits = n.bit_length()
-- 
2.43.0


From aafaa4e47644b22621c487c170febab63b4d5e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:29 +0000
Subject: [PATCH 05/76] fix: valuation of negative n was always 0

---
 rosemary/number_theory/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/core.py b/rosemary/number_theory/core.py
index ce87412..c1b4b0c 100644
--- a/rosemary/number_theory/core.py
+++ b/rosemary/number_theory/core.py
@@ -790,7 +790,7 @@ def valuation(p, n):
         that divides n. The method is essentially the same as the one used to
         compute an integer logarithm.
     """
-    if n % p != 0 or p > n:
+    if n % p != 0 or abs(p) > abs(n):
         return 0
 
     p = abs(p)
-- 
2.43.0


From 07dfb3580b324621cc04e0706748ad557d671c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:40 +0000
Subject: [PATCH 06/76] fix: chinese of a single congruence is reduced modulo
 its modulus

---
 rosemary/number_theory/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/core.py b/rosemary/number_theory/core.py
index c1b4b0c..432b98d 100644
--- a/rosemary/number_theory/core.py
+++ b/rosemary/number_theory/core.py
@@ -592,7 +592,7 @@ def chinese(congruences):
         m *= mi
         x = x % m
 
-    return x
+    return x % m
 
 
 def crt_preconditioning_data(moduli):
-- 
2.43.0


From 40f17dc4bda7afb54f553e7f88f182ec7b119bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:26 +0000
Subject: [PATCH 07/76] fix: multiplicative_order modulo 1 returned None

---
 rosemary/number_theory/zn_arithmetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/zn_arithmetic.py b/rosemary/number_theory/zn_arithmetic.py
index 7e7d5c2..9866dc6 100644
--- a/rosemary/number_theory/zn_arithmetic.py
+++ b/rosemary/number_theory/zn_arithmetic.py
@@ -723,7 +723,7 @@ def multiplicative_order(
 
     # Guaranteed to exist since (a, n) = 1
     for d in phi_divisors:
-        if pow(a, d, n) == 1:
+        if pow(a, d, n) == 1 % n:
             return d
 
 
-- 
2.43.0


From 17360cd20f0d56512bb03d0b3d1a60213bfcef70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:26 +0000
Subject: [PATCH 08/76] fix: sqrts_mod_n modulo 1 crashed

---
 rosemary/number_theory/zn_arithmetic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rosemary/number_theory/zn_arithmetic.py b/rosemary/number_theory/zn_arithmetic.py
index 9866dc6..2446466 100644
--- a/rosemary/number_theory/zn_arithmetic.py
+++ b/rosemary/number_theory/zn_arithmetic.py
@@ -480,6 +480,9 @@ def sqrts_mod_n(a, n, n_factorization=None):
     if n_factorization is None:
         n_factorization = factor.factor(n)
 
+    if not n_factorization:
+        return [0]
+
     congruences = []
     moduli = []
     for (p, k) in n_factorization:
-- 
2.43.0


From f817646668a1a3d0a7b1f75779c8f6fde025b0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:30 +0000
Subject: [PATCH 09/76] fix: divisor functions crashed on the empty
 factorization of 1

---
 rosemary/number_theory/factorization/factorization.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rosemary/number_theory/factorization/factorization.py b/rosemary/number_theory/factorization/factorization.py
index 81ef216..ea7b87a 100644
--- a/rosemary/number_theory/factorization/factorization.py
+++ b/rosemary/number_theory/factorization/factorization.py
@@ -187,7 +187,7 @@ def divisors(n=None, factorization=None):
     elif factorization is None:
         factorization = factor(abs(n))
     else:
-        if factorization[0][0] == -1:
+        if factorization and factorization[0][0] == -1:
             factorization = factorization[1:]
 
     p_divisors = [p for (p, e) in factorization]
@@ -234,7 +234,7 @@ def divisor_pairs(n=None, factorization=None):
     elif factorization is None:
         factorization = factor(abs(n))
     else:
-        if factorization[0][0] == -1:
+        if factorization and factorization[0][0] == -1:
             factorization = factorization[1:]
 
     div_list = divisors(n, factorization=factorization)
@@ -279,7 +279,7 @@ def prime_divisors(n=None, factorization=None):
     elif factorization is None:
         factorization = factor(abs(n))
     else:
-        if factorization[0][0] == -1:
+        if factorization and factorization[0][0] == -1:
             factorization = factorization[1:]
 
     return [p for (p, e) in factorization]
@@ -312,7 +312,7 @@ def xdivisors(n=None, factorization=None):
     elif factorization is None:
         factorization = factor(abs(n))
     else:
-        if factorization[0][0] == -1:
+        if factorization and factorization[0][0] == -1:
             factorization = factorization[1:]
 
     p_divisors = [p for (p, e) in factorization]
@@ -331,7 +331,7 @@ def unitary_divisors(n=None, factorization=None):
     elif factorization is None:
         factorization = factor(abs(n))
     else:
-        if factorization[0][0] == -1:
+        if factorization and factorization[0][0] == -1:
             factorization = factorization[1:]
 
     pk_divisors = [p**k for (p, k) in factorization]
-- 
2.43.0


From 08b9204743142a80b67db92d2b8b610766a42124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:30 +0000
Subject: [PATCH 10/76] fix: unitary_divisors of 1 and of a bare factorization

---
 rosemary/number_theory/factorization/factorization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rosemary/number_theory/factorization/factorization.py b/rosemary/number_theory/factorization/factorization.py
index ea7b87a..51619ee 100644
--- a/rosemary/number_theory/factorization/factorization.py
+++ b/rosemary/number_theory/factorization/factorization.py
@@ -335,9 +335,9 @@ def unitary_divisors(n=None, factorization=None):
             factorization = factorization[1:]
 
     pk_divisors = [p**k for (p, k) in factorization]
-    div_list = [1, n]
+    div_list = []
 
-    for i in range(1, len(pk_divisors)):
+    for i in range(len(pk_divisors) + 1):
         for subset in itertools.combinations(pk_divisors, i):
             prod = 1
             for pk in subset:
-- 
2.43.0


From 927749cca7f3d24ea0d3ef0fee67524f9b664391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:30 +0000
Subject: [PATCH 11/76] fix: divisor_pairs crashed when only a factorization
 was given

---
 rosemary/number_theory/factorization/factorization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rosemary/number_theory/factorization/factorization.py b/rosemary/number_theory/factorization/factorization.py
index 51619ee..22e26c1 100644
--- a/rosemary/number_theory/factorization/factorization.py
+++ b/rosemary/number_theory/factorization/factorization.py
@@ -238,6 +238,8 @@ def divisor_pairs(n=None, factorization=None):
             factorization = factorization[1:]
 
     div_list = divisors(n, factorization=factorization)
+    if n is None:
+        n = div_list[-1]
 
     pairs = []
     for d in div_list:
-- 
2.43.0


From 4a50af9e652e4901b11126ca157969e412b299c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:30 +0000
Subject: [PATCH 12/76] fix: fermat reported squares of primes as prime

---
 rosemary/number_theory/factorization/algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/factorization/algorithms.py b/rosemary/number_theory/factorization/algorithms.py
index 2ed8636..6138c19 100644
--- a/rosemary/number_theory/factorization/algorithms.py
+++ b/rosemary/number_theory/factorization/algorithms.py
@@ -137,7 +137,7 @@ def fermat(n):
     if n % 2 == 0:
         return 2
 
-    for a in range(integer_sqrt(n) + 1, (n + 9)//6 + 1):
+    for a in range(integer_sqrt(n - 1) + 1, (n + 9)//6 + 1):
         t = a*a - n
         b = integer_sqrt(t)
         if b*b == t:
-- 
2.43.0


From f5381909b43fac97bc6f733bd45856887107f181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:42 +0000
Subject: [PATCH 13/76] fix: fermat returned the trivial divisor 1 for n = 3

---
 rosemary/number_theory/factorization/algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/factorization/algorithms.py b/rosemary/number_theory/factorization/algorithms.py
index 6138c19..5a9fd45 100644
--- a/rosemary/number_theory/factorization/algorithms.py
+++ b/rosemary/number_theory/factorization/algorithms.py
@@ -140,7 +140,7 @@ def fermat(n):
     for a in range(integer_sqrt(n - 1) + 1, (n + 9)//6 + 1):
         t = a*a - n
         b = integer_sqrt(t)
-        if b*b == t:
+        if b*b == t and a - b > 1:
             return a - b
 
     return n
-- 
2.43.0


From b913bc4cefd71d8790dbc8f1fe89d999bffd43c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:03 +0000
Subject: [PATCH 14/76] fix: lehman reported 4 and 6 as prime

---
 rosemary/number_theory/factorization/algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/factorization/algorithms.py b/rosemary/number_theory/factorization/algorithms.py
index 5a9fd45..f6a69dc 100644
--- a/rosemary/number_theory/factorization/algorithms.py
+++ b/rosemary/number_theory/factorization/algorithms.py
@@ -186,7 +186,7 @@ def lehman(n):
     """
     # first, we trial divide up to floor(n^(1/3))
     bound = integer_nth_root(3, n)
-    d = trial_division(n, bound)
+    d = trial_division(n, max(bound, 2))
     if d < n:
         return d
 
-- 
2.43.0


From 0d34fe1073af3c0e628c8d67ed5ff4b5586d8696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:35 +0000
Subject: [PATCH 15/76] fix: next_prime below 1 skipped the prime 2

---
 rosemary/number_theory/primes/primality.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/primes/primality.py b/rosemary/number_theory/primes/primality.py
index cf3a668..92cdc0a 100644
--- a/rosemary/number_theory/primes/primality.py
+++ b/rosemary/number_theory/primes/primality.py
@@ -234,7 +234,7 @@ def next_prime(n):
     >>> next_prime(10**10)
     10000000019
     """
-    if n == 1:
+    if n <= 1:
         return 2
 
     n += 1
-- 
2.43.0


From c69df9af06a0b15848cd32830c54051620c79869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:35 +0000
Subject: [PATCH 16/76] fix: next_probable_prime of 0 returned 1

---
 rosemary/number_theory/primes/primality.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/primes/primality.py b/rosemary/number_theory/primes/primality.py
index 92cdc0a..aae83ac 100644
--- a/rosemary/number_theory/primes/primality.py
+++ b/rosemary/number_theory/primes/primality.py
@@ -257,7 +257,7 @@ def next_probable_prime(n):
     >>> next_probable_prime(10**10)
     10000000019
     """
-    if n == 1:
+    if n <= 1:
         return 2
 
     n += 1
-- 
2.43.0


From 2f50f25227df9518d3965d83a846ffb307ceee68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:35 +0000
Subject: [PATCH 17/76] fix: prime_range included its upper end b when b is
 prime and at most 10**7

---
 rosemary/number_theory/primes/sieves.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/primes/sieves.py b/rosemary/number_theory/primes/sieves.py
index 9bf9a5d..8622968 100644
--- a/rosemary/number_theory/primes/sieves.py
+++ b/rosemary/number_theory/primes/sieves.py
@@ -518,7 +518,7 @@ def prime_range(a, b=None):
     # If the upper bound is less than some appropriate cutoff, we generate all
     # primes up to this limit yield the ones in the interval.
     if b <= cutoff:
-        prime_list = primes(b)
+        prime_list = primes(b - 1)
         idx = bisect_left(prime_list, a)
         for i in range(idx, len(prime_list)):
             yield prime_list[i]
-- 
2.43.0


From a79ae62d4238c3b3cb6c73ceff5fd4d7dac3d666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:35 +0000
Subject: [PATCH 18/76] fix: prime_range skipped a prime lower end a when b is
 above 10**7

---
 rosemary/number_theory/primes/sieves.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/primes/sieves.py b/rosemary/number_theory/primes/sieves.py
index 8622968..9001a27 100644
--- a/rosemary/number_theory/primes/sieves.py
+++ b/rosemary/number_theory/primes/sieves.py
@@ -531,7 +531,7 @@ def prime_range(a, b=None):
         # case, then we yield the primes <= sqrt(b) first.
         if a <= sqrt:
             # If a*a <= b, iterate over the primes a <= p <= sqrt(b) first.
-            idx = bisect(prime_list, a)
+            idx = bisect_left(prime_list, a)
             for i in range(idx, len(prime_list)):
                 yield prime_list[i]
 
-- 
2.43.0


From e793540a34b324e7fadbb72f025d6d578a1f4f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:35 +0000
Subject: [PATCH 19/76] fix: pi_table crashed for n below 2

---
 rosemary/number_theory/primes/prime_counting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/primes/prime_counting.py b/rosemary/number_theory/primes/prime_counting.py
index ac1c280..60b80dd 100644
--- a/rosemary/number_theory/primes/prime_counting.py
+++ b/rosemary/number_theory/primes/prime_counting.py
@@ -450,7 +450,7 @@ def pi_table(n):
         table[last:p] = [i]*(p - last)
         last = p
 
-    table[last:n + 1] = [i + 1]*(n + 1 - last)
+    table[last:n + 1] = [len(primes)]*(n + 1 - last)
 
     return primes, table
 
-- 
2.43.0


From b94ef840c48126d89670c92f312dcef479ec5ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:14 +0000
Subject: [PATCH 20/76] fix: lehmer miscounted when n//p exceeds the largest
 prime below n**(3/4)

---
 rosemary/number_theory/primes/prime_counting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/primes/prime_counting.py b/rosemary/number_theory/primes/prime_counting.py
index 60b80dd..bf7b717 100644
--- a/rosemary/number_theory/primes/prime_counting.py
+++ b/rosemary/number_theory/primes/prime_counting.py
@@ -203,7 +203,7 @@ def lehmer(n):
                          x//24310 - x//34034 - x//15015 - x//19635 - x//23205 - x//36465 - x//51051 - x//85085 +
                          x//30030 + x//39270 + x//46410 + x//72930 + x//102102 + x//170170 + x//255255 - x//510510)
 
-        elif a >= bisect(primes, x**(0.5)) and x < primes[-1]:
+        elif a >= bisect(primes, x**(0.5)) and x <= root:
             pi = bisect(primes, x)
             value = pi - a + 1
 
-- 
2.43.0


From a23f3314e674b2adc87948017f424faefff19226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:08 +0000
Subject: [PATCH 21/76] fix: lmo_bit crashed below 8 and miscounted at some
 cubes of primes

---
 rosemary/number_theory/primes/prime_counting.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rosemary/number_theory/primes/prime_counting.py b/rosemary/number_theory/primes/prime_counting.py
index bf7b717..3dae494 100644
--- a/rosemary/number_theory/primes/prime_counting.py
+++ b/rosemary/number_theory/primes/prime_counting.py
@@ -300,13 +300,16 @@ def lmo(x):
 
 
 def lmo_bit(x):
-    root = int(x**(2.0/3.0))
+    if x < 8:
+        return bisect(_PRIME_LIST, x)
+
+    root = integer_nth_root(3, x**2)
 
     primes = sieves.primes(root)
-    t = x**(0.33333333333333)
+    t = integer_nth_root(3, x)
 
     c = bisect(primes, t)
-    b = bisect(primes, x**(0.5))
+    b = bisect(primes, integer_nth_root(2, x))
 
     value = (b + c - 2)*(b - c + 1)//2
 
-- 
2.43.0


From 4bf93427ea09153a74cb378d07054854ea356fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:10 +0000
Subject: [PATCH 22/76] fix: inverse_phi changed its dictionary while iterating
 and missed phi(1) = 1

---
 .../number_theory/arithmetic_functions/inverse_functions.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rosemary/number_theory/arithmetic_functions/inverse_functions.py b/rosemary/number_theory/arithmetic_functions/inverse_functions.py
index f914190..199d435 100644
--- a/rosemary/number_theory/arithmetic_functions/inverse_functions.py
+++ b/rosemary/number_theory/arithmetic_functions/inverse_functions.py
@@ -103,16 +103,14 @@ def euler_phi_inverse(n):
 def inverse_phi(n):
     prime_list = [a + 1 for a in factor.divisors(n) if primality.is_prime(a + 1)]
     phi_cache = defaultdict(list)
+    phi_cache[1] = [1]
 
     for p in prime_list[::-1]:
         a = p - 1
         pk = p
 
         while a <= n:
-            if n % a == 0:
-                phi_cache[a] += [pk]
-
-            for b in phi_cache.keys():
+            for b in list(phi_cache.keys()):
                 if a*b > n:
                     continue
                 for x in phi_cache[b]:
-- 
2.43.0


From 786597a134e00387cf6b3e5c2de25a85a1e4fb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:10 +0000
Subject: [PATCH 23/76] fix: arithmetic functions crashed on the empty
 factorization of 1

---
 rosemary/number_theory/arithmetic_functions/functions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rosemary/number_theory/arithmetic_functions/functions.py b/rosemary/number_theory/arithmetic_functions/functions.py
index 573442d..40a4bbd 100644
--- a/rosemary/number_theory/arithmetic_functions/functions.py
+++ b/rosemary/number_theory/arithmetic_functions/functions.py
@@ -53,6 +53,8 @@ def _validate_input(n):
             message = "{}: Must have n > 0.".format(caller_name)
             raise ValueError(message)
         factorization = rosemary.number_theory.factorization.factorization.factor(n)
+    elif n == []:
+        return [(1, 1)]
     elif isinstance(n, list) and n[0][0] > 0:
         factorization = n
     else:
@@ -437,6 +439,8 @@ def carmichael_lambda(n):
         elif n <= 0:
             raise ValueError("carmichael_lambda: Must have n > 0.")
         n_factorization = rosemary.number_theory.factorization.factorization.factor(n)
+    elif n == []:
+        return 1
     elif isinstance(n, list) and n[0][0] > 0:
         n_factorization = n
     else:
-- 
2.43.0


From 7012bb1d087572d072f6faec706e3df8404d27a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:22 +0000
Subject: [PATCH 24/76] fix: continued fraction of a rescaled quadratic
 irrational found a wrong period

---
 rosemary/number_theory/continued_fractions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/continued_fractions.py b/rosemary/number_theory/continued_fractions.py
index 4f09d9b..f398830 100644
--- a/rosemary/number_theory/continued_fractions.py
+++ b/rosemary/number_theory/continued_fractions.py
@@ -62,7 +62,7 @@ class QuadraticIrrational(object):
             D = q*q*d
             r = integer_sqrt(D)
 
-        pq_pairs = {(p, q): 0}
+        pq_pairs = {(P, Q): 0}
         partial_quotients = []
 
         for i in itertools.count(1):
-- 
2.43.0


From 7344fa210ae7fffda48f26a8444339f68d27012d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:22 +0000
Subject: [PATCH 25/76] fix: continued fraction partial quotients were off by
 one for negative Q

---
 rosemary/number_theory/continued_fractions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/continued_fractions.py b/rosemary/number_theory/continued_fractions.py
index f398830..9137e44 100644
--- a/rosemary/number_theory/continued_fractions.py
+++ b/rosemary/number_theory/continued_fractions.py
@@ -66,7 +66,7 @@ class QuadraticIrrational(object):
         partial_quotients = []
 
         for i in itertools.count(1):
-            a = (P + r)//Q
+            a = (P + r)//Q if Q > 0 else (P + r + 1)//Q
             P = a*Q - P
             Q = (D - P*P)//Q
             partial_quotients.append(a)
-- 
2.43.0


From 77cf571ed2ebe05ca888f97d20682a02a49daf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:16 +0000
Subject: [PATCH 26/76] fix: pell_minimal_positive_solutions missed the class
 of (sqrt(N), 0)

---
 rosemary/number_theory/diophantine_equations/pell.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rosemary/number_theory/diophantine_equations/pell.py b/rosemary/number_theory/diophantine_equations/pell.py
index a30eb0a..81dcb95 100644
--- a/rosemary/number_theory/diophantine_equations/pell.py
+++ b/rosemary/number_theory/diophantine_equations/pell.py
@@ -272,7 +272,7 @@ def pell_minimal_positive_solutions(D, N):
     for r in residues:
         for x in range(r, B, D):
             y = is_square((x*x - N) // D)
-            if y > 0 and y is not False:
+            if y is not False:
                 if (-x*x - D*y*y) % N == 0 and 2*x*y % N == 0:
                     fundamental_solutions.append((x, y))
                 else:
@@ -288,6 +288,8 @@ def pell_minimal_positive_solutions(D, N):
             else:
                 (p, q) = (x, y)
             p, q = p*u + q*v*D, p*v + q*u
+        elif y == 0:
+            (p, q) = (x*u, x*v)
         else:
             (p, q) = (x, y)
         minimal_positive_solutions.append((p, q))
-- 
2.43.0


From db7603f3565a5e749f3bc4985ac8e30a0c0a7409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:47 +0000
Subject: [PATCH 27/76] fix: PellEquation.resolvent_solution raised NameError

---
 rosemary/number_theory/diophantine_equations/pell.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rosemary/number_theory/diophantine_equations/pell.py b/rosemary/number_theory/diophantine_equations/pell.py
index 81dcb95..184adfe 100644
--- a/rosemary/number_theory/diophantine_equations/pell.py
+++ b/rosemary/number_theory/diophantine_equations/pell.py
@@ -74,6 +74,8 @@ class PellEquation(object):
         ...
         ValueError: pell_fundamental_solution: Must have D > 0 not a perfect square and n in (-1, 1).
         """
+        D, n = self.D, self.N
+
         if D <= 0 or is_square(D) or n not in (1, -1):
             raise ValueError("pell_fundamental_solution: Must have D > 0 not a perfect square and n in (-1, 1).")
 
-- 
2.43.0


From f8ca141d147c9f29eefca056f2de645849134cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:47 +0000
Subject: [PATCH 28/76] fix: longest_ap missed the pairs ending in the last
 element

---
 rosemary/number_theory/arithmetic_progressions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/arithmetic_progressions.py b/rosemary/number_theory/arithmetic_progressions.py
index f7bb392..d428b8a 100644
--- a/rosemary/number_theory/arithmetic_progressions.py
+++ b/rosemary/number_theory/arithmetic_progressions.py
@@ -70,8 +70,8 @@ def longest_ap(A):
         >>> longest_ap(p_list)
         [(199, 409, 619, 829, 1039, 1249, 1459, 1669, 1879, 2089)]
     """
-    L = {}
     n = len(A)
+    L = {(i, n - 1): 2 for i in range(n - 1)}
     longest = 2
 
     for j in range(n - 2, 0, -1):
-- 
2.43.0


From dec7c7b0264244c60e3d798f9345e40548abbf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:47 +0000
Subject: [PATCH 29/76] fix: bernoulli_list(0) crashed

---
 rosemary/number_theory/misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rosemary/number_theory/misc.py b/rosemary/number_theory/misc.py
index 8342082..cb6aac3 100644
--- a/rosemary/number_theory/misc.py
+++ b/rosemary/number_theory/misc.py
@@ -160,7 +160,8 @@ def bernoulli_list(n):
     """
     values = [0]*(n + 1)
     values[0] = 1
-    values[1] = Fraction(-1, 2)
+    if n > 0:
+        values[1] = Fraction(-1, 2)
 
     for m in range(2, n + 1, 2):
         total = 1
-- 
2.43.0


From 95e476a65090f9ea4d9719016f824d2f08175635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:47 +0000
Subject: [PATCH 30/76] fix: largest_divisor raised AttributeError and combined
 powers of one prime from both halves

---
 rosemary/number_theory/misc.py | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/rosemary/number_theory/misc.py b/rosemary/number_theory/misc.py
index cb6aac3..8b2b064 100644
--- a/rosemary/number_theory/misc.py
+++ b/rosemary/number_theory/misc.py
@@ -1,6 +1,6 @@
 # Miscellaneous number theoretic functions
 
-import rosemary.number_theory.factorization
+import rosemary.number_theory.factorization.factorization
 
 from rosemary.number_theory.prime_list import _PRIME_LIST
 from fractions import Fraction
@@ -31,25 +31,18 @@ def largest_divisor(n, b):
     if n % target == 0:
         return target
 
-    n_factorization = rosemary.number_theory.factorization.factor(n)
-    L = []
-    for (p, e) in n_factorization:
-        pp = p
-        for _ in range(e):
-            L.append(pp)
-            pp *= p
+    n_factorization = rosemary.number_theory.factorization.factorization.factor(n)
 
-    k = len(L) // 2
-    P1 = L[:k]
-    P2 = L[k:]
+    # Keep all powers of one prime in the same half.
+    k = len(n_factorization) // 2
 
     # Form all of the products in each half
     prods1 = [1]
-    for p in P1:
-        prods1 += [x*p for x in prods1 if x*p <= b and n % (x*p) == 0]
+    for (p, e) in n_factorization[:k]:
+        prods1 = [x*p**i for x in prods1 for i in range(e + 1) if x*p**i <= b]
     prods2 = [1]
-    for p in P2:
-        prods2 += [x*p for x in prods2 if x*p <= b and n % (x*p) == 0]
+    for (p, e) in n_factorization[k:]:
+        prods2 = [x*p**i for x in prods2 for i in range(e + 1) if x*p**i <= b]
 
     prods1.sort()
     prods2.sort(reverse=True)
@@ -65,7 +58,7 @@ def largest_divisor(n, b):
         current = prods1[i] * prods2[j]
         if current > target:
             j += 1
-        elif current < target:
+        else:
             i += 1
             if current > best:
                 best = current
-- 
2.43.0


From 82635e393bf28874890525b117cc07e3484214bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:26 +0000
Subject: [PATCH 31/76] fix: subtracting a scalar from a polynomial added it

---
 rosemary/algebra/polynomials/polynomials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/algebra/polynomials/polynomials.py b/rosemary/algebra/polynomials/polynomials.py
index 9bb53f2..6e4f2ea 100644
--- a/rosemary/algebra/polynomials/polynomials.py
+++ b/rosemary/algebra/polynomials/polynomials.py
@@ -150,7 +150,7 @@ class Polynomial(object):
             try:
                 parent_class = self.__class__
                 other_poly = parent_class(other, self.variable)
-                return self + other_poly
+                return self - other_poly
             except:
                 raise ValueError('Other cannot be coerced into a polynomial')
 
-- 
2.43.0


From 80b20f50fe5eddd9028bb7a7e7e95537d4138eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:26 +0000
Subject: [PATCH 32/76] fix: powers of the zero polynomial crashed

---
 rosemary/algebra/polynomials/algorithms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rosemary/algebra/polynomials/algorithms.py b/rosemary/algebra/polynomials/algorithms.py
index 83e6ae1..ac59d0f 100644
--- a/rosemary/algebra/polynomials/algorithms.py
+++ b/rosemary/algebra/polynomials/algorithms.py
@@ -129,6 +129,9 @@ def power_jcp(A, k):
         >>> power_jcp(L, 2)
         [1, 6, 13, 12, 4]
     """
+    if not any(A):
+        return [0**k]
+
     shift = 0
     while A[shift] == 0:
         shift += 1
-- 
2.43.0


From 169f8b25ebcbe9f02311e319d815bbd8fd83254e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:49 +0000
Subject: [PATCH 33/76] fix: quo_rem checked only the first quotient
 coefficient for integrality

---
 rosemary/algebra/polynomials/polynomials.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rosemary/algebra/polynomials/polynomials.py b/rosemary/algebra/polynomials/polynomials.py
index 6e4f2ea..06120a5 100644
--- a/rosemary/algebra/polynomials/polynomials.py
+++ b/rosemary/algebra/polynomials/polynomials.py
@@ -361,9 +361,9 @@ class Polynomial(object):
         lc = b[l - 1]
         r = a[0:k]
         q = [0] * (k - l + 1)
-        if a[k - 1] % lc != 0:
-            raise ValueError("Non-Integral Coefficients")
         for i in range(k - l, -1, -1):
+            if r[i + l - 1] % lc != 0:
+                raise ValueError("Non-Integral Coefficients")
             q[i] = r[i + l - 1] // lc
             for j in range(l):
                 r[i + j] -= q[i] * b[j]
-- 
2.43.0


From a428a942121509db6c695700122de0c8bf11b28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:49 +0000
Subject: [PATCH 34/76] fix: polynomial gcd crashed or lost exactness when more
 than one division step is needed

---
 rosemary/algebra/polynomials/polynomials.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rosemary/algebra/polynomials/polynomials.py b/rosemary/algebra/polynomials/polynomials.py
index 06120a5..e7a166a 100644
--- a/rosemary/algebra/polynomials/polynomials.py
+++ b/rosemary/algebra/polynomials/polynomials.py
@@ -382,6 +382,7 @@ class Polynomial(object):
         by Cohen, or Algorithm C in section 4.6.1 of "The Art of Computer
         Programmming: Vol II" by Knuth.
         """
+        parent_class = self.__class__
         d = gcd(self.content(), other.content())
         u = self.primitive_part()
         v = other.primitive_part()
@@ -396,14 +397,15 @@ class Polynomial(object):
             if r == 0:
                 return d * v.primitive_part()
             elif r.degree == 0:
-                return Polynomial([d])
+                return parent_class([d], self.variable)
             u = v
-            v = Polynomial([e // (g*h**dd) for e in r._coefficients])
+            v = parent_class([e // (g*h**dd) for e in r._coefficients], self.variable)
             g = u.lead_coeff
             if dd > 1:
                 h = g**dd // h**(dd - 1)
             else:
-                h = h**(1 - dd) // g**(-dd)
+                h = h**(1 - dd) * g**dd
+            dd = u.degree - v.degree
 
 
 class PolyZZ(Polynomial):
-- 
2.43.0


From 74bd362b84a2a9d48004d66eed5d2f9fcaf94d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:49 +0000
Subject: [PATCH 35/76] fix: primitive_part and gcd of the zero polynomial
 crashed

---
 rosemary/algebra/polynomials/polynomials.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rosemary/algebra/polynomials/polynomials.py b/rosemary/algebra/polynomials/polynomials.py
index e7a166a..c422e1e 100644
--- a/rosemary/algebra/polynomials/polynomials.py
+++ b/rosemary/algebra/polynomials/polynomials.py
@@ -392,6 +392,11 @@ class Polynomial(object):
         if dd < 0:
             return other.gcd(self)
 
+        if v == 0:
+            return d * u
+        elif u == 0:
+            return d * v
+
         while True:
             (q, r) = u.pseudo_quo_rem(v)
             if r == 0:
@@ -430,6 +435,8 @@ class PolyZZ(Polynomial):
         """
         coeffs = self._coefficients
         content = gcd_list(coeffs)
+        if content == 0:
+            return self
         if coeffs[-1] < 0:
             content *= -1
         parent_class = self.__class__
-- 
2.43.0


From dce182ac4b8c529221c486d1b2628ee40776d389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:49 +0000
Subject: [PATCH 36/76] fix: product of non-square matrices had the wrong shape

---
 rosemary/algebra/matrices/matrices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/algebra/matrices/matrices.py b/rosemary/algebra/matrices/matrices.py
index 25b6d00..8b5d3b2 100644
--- a/rosemary/algebra/matrices/matrices.py
+++ b/rosemary/algebra/matrices/matrices.py
@@ -207,7 +207,7 @@ class Matrix(object):
             raise ValueError("Incompatible Matrix dimensions")
 
         other_entries = other.__entries
-        result = [[0]*nrows for _ in range(other_ncols)]
+        result = [[0]*other_ncols for _ in range(nrows)]
 
         for i in range(nrows):
             for j in range(other_ncols):
-- 
2.43.0


From aefffc50561ecf6abfcb1e36a695f7c5afbb5e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:49 +0000
Subject: [PATCH 37/76] fix: matrix addition did not check the dimensions of
 the other matrix

---
 rosemary/algebra/matrices/matrices.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rosemary/algebra/matrices/matrices.py b/rosemary/algebra/matrices/matrices.py
index 8b5d3b2..0f2778b 100644
--- a/rosemary/algebra/matrices/matrices.py
+++ b/rosemary/algebra/matrices/matrices.py
@@ -102,8 +102,8 @@ class Matrix(object):
 
         self_ncols = self.__ncols
         self_nrows = self.__nrows
-        other_ncols = self.__ncols
-        other_nrows = self.__nrows
+        other_ncols = other.__ncols
+        other_nrows = other.__nrows
 
         if self_ncols != other_ncols or self_nrows != other_nrows:
             raise ValueError("Invalid dimensions for matrix addition")
-- 
2.43.0


From 6a44778beb3e71377ba639a4bdce1af1e5940e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:49 +0000
Subject: [PATCH 38/76] fix: matrix subtraction did not check dimensions

---
 rosemary/algebra/matrices/matrices.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rosemary/algebra/matrices/matrices.py b/rosemary/algebra/matrices/matrices.py
index 0f2778b..823f79d 100644
--- a/rosemary/algebra/matrices/matrices.py
+++ b/rosemary/algebra/matrices/matrices.py
@@ -163,6 +163,9 @@ class Matrix(object):
 
         ncols = self.__ncols
         nrows = self.__nrows
+        if ncols != other.__ncols or nrows != other.__nrows:
+            raise ValueError("Invalid dimensions for matrix subtraction")
+
         entries = list(self.__entries)
         other_entries = list(other.__entries)
         result = [[0]*ncols for _ in range(nrows)]
-- 
2.43.0


From c3b585a7a388612ccd4fd4f34b28f4396eaff53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:49 +0000
Subject: [PATCH 39/76] fix: determinant overwrote the matrix

---
 rosemary/algebra/matrices/matrices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/algebra/matrices/matrices.py b/rosemary/algebra/matrices/matrices.py
index 823f79d..433b01b 100644
--- a/rosemary/algebra/matrices/matrices.py
+++ b/rosemary/algebra/matrices/matrices.py
@@ -316,7 +316,7 @@ class Matrix(object):
         if nrows != ncols:
             raise ValueError("Determinant only defined for square matrices.")
 
-        m = self.__entries
+        m = [list(row) for row in self.__entries]
 
         for k in range(ncols):
             pivot = m[k][k]
-- 
2.43.0


From c55c2a30f143533fd228601ed08689d08a97914f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:12 +0000
Subject: [PATCH 40/76] fix: determinant was 0 when the only pivot is in the
 last row

---
 rosemary/algebra/matrices/matrices.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/rosemary/algebra/matrices/matrices.py b/rosemary/algebra/matrices/matrices.py
index 433b01b..8bb5343 100644
--- a/rosemary/algebra/matrices/matrices.py
+++ b/rosemary/algebra/matrices/matrices.py
@@ -325,10 +325,9 @@ class Matrix(object):
                 for i in range(k + 1, ncols):
                     if m[i][k] != 0:
                         break
-
-                # If no nonzero entry was found in column k, then the
-                # determinant is zero.
-                if i == ncols - 1:
+                else:
+                    # If no nonzero entry was found in column k, then the
+                    # determinant is zero.
                     return 0
                 # Othwerwise, we perform exchanges.
                 for j in range(k, ncols):
-- 
2.43.0


From 12ca29a540885ed8710e7c60c7169b60d004cb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:35 +0000
Subject: [PATCH 41/76] fix: phillips crashed or repeated the arrangement when
 all elements are equal

---
 rosemary/combinatorics/generation/permutations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rosemary/combinatorics/generation/permutations.py b/rosemary/combinatorics/generation/permutations.py
index 1c71f7f..d0c2a06 100644
--- a/rosemary/combinatorics/generation/permutations.py
+++ b/rosemary/combinatorics/generation/permutations.py
@@ -68,8 +68,8 @@ def phillips(elements):
     n = len(entries) - 1
 
     # The Phillips algorithm assumes that there at least three elements in
-    # the list. We handle the other cases separately.
-    if n == 0:
+    # the list, not all equal. We handle the other cases separately.
+    if n < 1 or entries[0] == entries[n]:
         yield entries[:]
         return
 
-- 
2.43.0


From 58ff988378e82079c1253c5d4ddcbe91d4aeeeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:50 +0000
Subject: [PATCH 42/76] fix: distinct integer partitions could repeat the
 largest part

---
 rosemary/combinatorics/generation/partitions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/combinatorics/generation/partitions.py b/rosemary/combinatorics/generation/partitions.py
index 04955e8..f9e02d4 100644
--- a/rosemary/combinatorics/generation/partitions.py
+++ b/rosemary/combinatorics/generation/partitions.py
@@ -143,7 +143,7 @@ def integer_partitions(n, **kwargs):
             if num_parts and num_used >= num_parts:
                 return
             idx = 0
-            if last_idx != 0:
+            if used:
                 idx = last_idx + distinct
             for i in range(idx, total_number):
                 part = parts[i]
-- 
2.43.0


From f62126caf589f17ee0e14d3d50a5be9d8a0a777c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:50 +0000
Subject: [PATCH 43/76] fix: integer_partitions yielded an empty partition when
 more than n parts are asked for

---
 rosemary/combinatorics/generation/partitions.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rosemary/combinatorics/generation/partitions.py b/rosemary/combinatorics/generation/partitions.py
index f9e02d4..552cc34 100644
--- a/rosemary/combinatorics/generation/partitions.py
+++ b/rosemary/combinatorics/generation/partitions.py
@@ -69,7 +69,6 @@ def integer_partitions(n, **kwargs):
     if 'num_parts' in kwargs:
         num_parts = kwargs['num_parts']
         if num_parts > n:
-            yield []
             return
     else:
         num_parts = 0
-- 
2.43.0


From e41597c45bc303e1bf2f2605576e0457d671e389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:50 +0000
Subject: [PATCH 44/76] fix: integer_partitions into one part crashed

---
 rosemary/combinatorics/generation/partitions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rosemary/combinatorics/generation/partitions.py b/rosemary/combinatorics/generation/partitions.py
index 552cc34..6db8d88 100644
--- a/rosemary/combinatorics/generation/partitions.py
+++ b/rosemary/combinatorics/generation/partitions.py
@@ -114,6 +114,8 @@ def integer_partitions(n, **kwargs):
 
         while True:
             yield partition[:]
+            if m == 1:
+                return
             if partition[1] < partition[0] - 1:
                 partition[0] -= 1
                 partition[1] += 1
-- 
2.43.0


From 4bcde5bce6e8f92b219f7be63c5fc67088c3b483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 45/76] fix: integer_partitions of 0 crashed

---
 rosemary/combinatorics/generation/partitions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rosemary/combinatorics/generation/partitions.py b/rosemary/combinatorics/generation/partitions.py
index 6db8d88..7a57088 100644
--- a/rosemary/combinatorics/generation/partitions.py
+++ b/rosemary/combinatorics/generation/partitions.py
@@ -78,6 +78,10 @@ def integer_partitions(n, **kwargs):
         Generates all partitions of n. This is Algorithm P from 7.2.1.4 of
         Knuth, Vol. 4.
         """
+        if n == 0:
+            yield []
+            return
+
         partition = [0]*n
         last_replaced = 0
         partition[last_replaced] = n
-- 
2.43.0


From c4ade8aa794d72de96199661f2afe99a4fe80c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:10 +0000
Subject: [PATCH 46/76] fix: stirling_number2 used the wrong term of the
 recurrence

---
 rosemary/combinatorics/enumeration/enumeration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/combinatorics/enumeration/enumeration.py b/rosemary/combinatorics/enumeration/enumeration.py
index 489a572..fb9a3dd 100644
--- a/rosemary/combinatorics/enumeration/enumeration.py
+++ b/rosemary/combinatorics/enumeration/enumeration.py
@@ -61,7 +61,7 @@ def stirling_number2(m, n):
 
     for i in range(1, m + 1):
         for j in range(1, min(i, n) + 1):
-            S[i, j] = j*S[i - 1, j] + S[i - j, j - 1]
+            S[i, j] = j*S[i - 1, j] + S[i - 1, j - 1]
 
     return S[m, n]
 
-- 
2.43.0


From 74a58c631a204cdd3d9dfc7ddd54317345f0fd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:10 +0000
Subject: [PATCH 47/76] fix: binomial(n, k) was 1 instead of 0 for k > n

---
 rosemary/combinatorics/enumeration/enumeration.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rosemary/combinatorics/enumeration/enumeration.py b/rosemary/combinatorics/enumeration/enumeration.py
index fb9a3dd..3c57f15 100644
--- a/rosemary/combinatorics/enumeration/enumeration.py
+++ b/rosemary/combinatorics/enumeration/enumeration.py
@@ -84,6 +84,8 @@ def binomial(n, k):
         >>> binomial(2, 0)
         1
     """
+    if k > n:
+        return 0
     pp = 1
     k = min(k, n - k)
     for e in range(n - k + 1, n + 1):
-- 
2.43.0


From 85a2a27267a27063415b2fa653f3060e2e1c5a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:25 +0000
Subject: [PATCH 48/76] fix: partition_list(0) crashed

---
 rosemary/combinatorics/enumeration/enumeration.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rosemary/combinatorics/enumeration/enumeration.py b/rosemary/combinatorics/enumeration/enumeration.py
index 3c57f15..4d33b95 100644
--- a/rosemary/combinatorics/enumeration/enumeration.py
+++ b/rosemary/combinatorics/enumeration/enumeration.py
@@ -168,9 +168,8 @@ def partition_list(n):
     """
     values = [0]*(n + 1)
     values[0] = 1
-    values[1] = 1
 
-    for m in range(2, n + 1):
+    for m in range(1, n + 1):
         max_idx = int((1 + (1 + 24*m)**(0.5))/6)
         sign = (-1)**(max_idx + 1)
         total = 0
-- 
2.43.0


From e4130aaf1bc5e5ba4911ef83bbbde1c1fd79f12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:25 +0000
Subject: [PATCH 49/76] fix: necklaces with weights crashed

---
 rosemary/combinatorics/enumeration/enumeration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rosemary/combinatorics/enumeration/enumeration.py b/rosemary/combinatorics/enumeration/enumeration.py
index 4d33b95..509e60b 100644
--- a/rosemary/combinatorics/enumeration/enumeration.py
+++ b/rosemary/combinatorics/enumeration/enumeration.py
@@ -3,7 +3,7 @@
 # in to an enumeration algorithm, but we prefer algorithms more advanced than
 # simply listing and counting whenever possible.
 
-from rosemary.number_theory.core import gcd
+from rosemary.number_theory.core import gcd_list
 from rosemary.number_theory.factorization.factorization import xdivisors
 from rosemary.number_theory.arithmetic_functions.functions import euler_phi, factorial
 
@@ -393,7 +393,7 @@ def necklaces(n, k, weights=None):
         16
     """
     if weights:
-        j = gcd(weights)
+        j = gcd_list(weights)
         ss = 0
         for d in xdivisors(j):
             ll = [e//d for e in weights]
-- 
2.43.0


From aa0765bcd7ba4075d7a0cb7789e3634b1748ab68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:25 +0000
Subject: [PATCH 50/76] fix: stirling_number2(m, n) crashed for n > m + 1

---
 rosemary/combinatorics/enumeration/enumeration.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rosemary/combinatorics/enumeration/enumeration.py b/rosemary/combinatorics/enumeration/enumeration.py
index 509e60b..0a15c07 100644
--- a/rosemary/combinatorics/enumeration/enumeration.py
+++ b/rosemary/combinatorics/enumeration/enumeration.py
@@ -50,6 +50,9 @@ def bell_number(n):
 
 
 def stirling_number2(m, n):
+    if n > m:
+        return 0
+
     S = {}
     S[0, 0] = 1
 
-- 
2.43.0


From db7ed12324c915107c3a5575d524ddff37780f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:01 +0000
Subject: [PATCH 51/76] fix: steepest_ascent_two_opt ignored its distance
 matrix

---
 rosemary/combinatorics/optimization/tsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/combinatorics/optimization/tsp.py b/rosemary/combinatorics/optimization/tsp.py
index db73df8..41b9234 100644
--- a/rosemary/combinatorics/optimization/tsp.py
+++ b/rosemary/combinatorics/optimization/tsp.py
@@ -227,7 +227,7 @@ def steepest_ascent_two_opt(points, distance_matrix=None):
         distance_matrix = euclidean_distance_matrix(points)
 
     num_points = len(points)
-    best_cost, best_sol = farthest_insertion(points)
+    best_cost, best_sol = farthest_insertion(points, distance_matrix)
 
     def G(X, i, j):
         xi = X[i]
-- 
2.43.0


From d793bcb0cf744f1efe3cc974ff96cf3d9eefaeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:01 +0000
Subject: [PATCH 52/76] fix: genetic tsp returned another path than the one of
 best cost

---
 rosemary/combinatorics/optimization/genetic_tsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/combinatorics/optimization/genetic_tsp.py b/rosemary/combinatorics/optimization/genetic_tsp.py
index c031643..47f189d 100755
--- a/rosemary/combinatorics/optimization/genetic_tsp.py
+++ b/rosemary/combinatorics/optimization/genetic_tsp.py
@@ -166,7 +166,7 @@ class TravelingSalesman(object):
             current_cost = population[0][0]
 
             if current_cost < best_cost:
-                Xbest = list(population[1])
+                Xbest = population[0][1]
                 best_cost = current_cost
                 print(c, best_cost)
 
-- 
2.43.0


From d571f500c27d595eee0d844a014b04f8a87db172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:56 +0000
Subject: [PATCH 53/76] fix: leftist heap of at most one value crashed

---
 rosemary/data_structures/heaps.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rosemary/data_structures/heaps.py b/rosemary/data_structures/heaps.py
index 891f1a0..31091fa 100644
--- a/rosemary/data_structures/heaps.py
+++ b/rosemary/data_structures/heaps.py
@@ -109,7 +109,6 @@ class LeftistHeap(object):
             heap, which we return.
         """
         num_values = len(values)
-        size = 0
         nodes = deque([_LeftistHeapNode(val) for val in values])
 
         while num_values > 1:
@@ -118,10 +117,9 @@ class LeftistHeap(object):
             nodeA = _leftist_heap_merge(nodeA, nodeB)
             nodes.append(nodeA)
             num_values -= 1
-            size += 1
 
-        self.root = nodeA
-        self.size = size + 1
+        self.root = nodes[0] if nodes else None
+        self.size = len(values)
 
     def __repr__(self):
         return "Leftist heap of size {}.".format(self.size)
-- 
2.43.0


From 74905aeffe1891a41ef609ecb1ab48bacd0d33c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:56 +0000
Subject: [PATCH 54/76] fix: union of elements that are not set representatives
 split their sets

---
 rosemary/data_structures/unionfind.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rosemary/data_structures/unionfind.py b/rosemary/data_structures/unionfind.py
index d78a1e8..126b35f 100644
--- a/rosemary/data_structures/unionfind.py
+++ b/rosemary/data_structures/unionfind.py
@@ -122,8 +122,11 @@ class UnionFind(object):
         parent = self.parent
         rank = self.rank
 
-        px = parent[x]
-        py = parent[y]
+        px = self.find(x)
+        py = self.find(y)
+
+        if px == py:
+            return
 
         if rank[px] > rank[py]:
             x, y = y, x
-- 
2.43.0


From 930a97c64d7db191bb4bc9ad9738637b6f37fb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:15 +0000
Subject: [PATCH 55/76] fix: kruskal crashed on graphs that are not connected

---
 rosemary/graphs/algorithms/spanning_trees.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rosemary/graphs/algorithms/spanning_trees.py b/rosemary/graphs/algorithms/spanning_trees.py
index aad03bd..569ab67 100644
--- a/rosemary/graphs/algorithms/spanning_trees.py
+++ b/rosemary/graphs/algorithms/spanning_trees.py
@@ -180,8 +180,9 @@ def kruskal(graph):
     find = X.find
     union = X.union
 
-    # A tree on n vertices has n - 1 edges, so break when finished.
-    while num_edges < num_vertices - 1:
+    # A tree on n vertices has n - 1 edges, so break when finished. If the graph
+    # is not connected, we run out of edges first.
+    while edges and num_edges < num_vertices - 1:
         (weight, u, v) = heappop(edges)
         if find(u) != find(v):
             edge = min(u, v), max(u, v)
-- 
2.43.0


From a4e5cb086e148e07a95e8be72542ad03db8a5c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:44 +0000
Subject: [PATCH 56/76] fix: cheriton_tarjan crashed on graphs that are not
 connected

---
 rosemary/graphs/algorithms/spanning_trees.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rosemary/graphs/algorithms/spanning_trees.py b/rosemary/graphs/algorithms/spanning_trees.py
index 569ab67..3c5e7b3 100644
--- a/rosemary/graphs/algorithms/spanning_trees.py
+++ b/rosemary/graphs/algorithms/spanning_trees.py
@@ -249,11 +249,11 @@ def cheriton_tarjan(graph):
             triples.append((weight, u, v))
         PQ[u] = LeftistHeap(triples)
 
-    while num_edges < num_vertices - 1:
+    while PQ and num_edges < num_vertices - 1:
         u = choice(list(PQ.keys()))
         Tu = find(u)
 
-        while True:
+        while len(PQ[Tu]) > 0:
             (_, x, y) = PQ[Tu].delete_min()
             Tx = find(x)
             Ty = find(y)
@@ -266,6 +266,10 @@ def cheriton_tarjan(graph):
             else:
                 Tv = Tx
             break
+        else:
+            # No edge leaves this tree, so it spans its connected component.
+            del PQ[Tu]
+            continue
 
         union(Tu, Tv)
         u = find(Tu)
-- 
2.43.0


From 73a163512412bd52137cf4f8576c63332d5c6ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:17 +0000
Subject: [PATCH 57/76] fix: gabow crashed when exchanges of equal weight were
 compared

---
 rosemary/graphs/algorithms/spanning_trees.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rosemary/graphs/algorithms/spanning_trees.py b/rosemary/graphs/algorithms/spanning_trees.py
index 3c5e7b3..49b5a3f 100644
--- a/rosemary/graphs/algorithms/spanning_trees.py
+++ b/rosemary/graphs/algorithms/spanning_trees.py
@@ -364,14 +364,15 @@ def gabow(graph, k=None):
     father[root] = root
 
     (exchange_weight, e, f) = find_exchange(father, [], [])
-    heap = [(tree_weight + exchange_weight, e, f, father, [], [])]
+    # The entries are numbered so that ties are never decided by the trees.
+    heap = [(tree_weight + exchange_weight, e, f, 0, father, [], [])]
 
     tree_edges = sorted([(min(x, y), max(x, y)) for (x, y) in father.items() if x != y])
     yield tree_weight, tree_edges
 
     j = 1
     while j < k:
-        (tree_weight, e, f, father, included, excluded) = heappop(heap)
+        (tree_weight, e, f, _, father, included, excluded) = heappop(heap)
 
         if tree_weight == inf:
             return
@@ -393,8 +394,8 @@ def gabow(graph, k=None):
         excluded_j = excluded + [e]
 
         (exchange_weight, e, f) = find_exchange(father, included_i, excluded)
-        heappush(heap, (new_tree_weight + exchange_weight, e, f, father, included_i, excluded))
+        heappush(heap, (new_tree_weight + exchange_weight, e, f, 2*j - 1, father, included_i, excluded))
 
         (exchange_weight, e, f) = find_exchange(new_father, included, excluded_j)
-        heappush(heap, (tree_weight + exchange_weight, e, f, new_father, included, excluded_j))
+        heappush(heap, (tree_weight + exchange_weight, e, f, 2*j, new_father, included, excluded_j))
         j += 1
-- 
2.43.0


From d0baab49d597b5fe595478087abc1217525b3267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:02 +0000
Subject: [PATCH 58/76] fix: complete_graph(1) had no vertex

---
 rosemary/graphs/graphs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rosemary/graphs/graphs.py b/rosemary/graphs/graphs.py
index 7cdcb77..1447e9f 100644
--- a/rosemary/graphs/graphs.py
+++ b/rosemary/graphs/graphs.py
@@ -1040,6 +1040,7 @@ def complete_graph(n):
         6
     """
     Kn = Graph()
+    Kn.add_vertices(range(n))
 
     for u in range(n):
         for v in range(u):
-- 
2.43.0


From cb26cca082f011139fa21ad711b5243e70bbbe2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:27 +0000
Subject: [PATCH 59/76] fix: coprime_pairs_graph(1) had no vertex

---
 rosemary/graphs/graphs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rosemary/graphs/graphs.py b/rosemary/graphs/graphs.py
index 1447e9f..0792619 100644
--- a/rosemary/graphs/graphs.py
+++ b/rosemary/graphs/graphs.py
@@ -1194,6 +1194,8 @@ def coprime_pairs_graph(n):
         return x
 
     graph = Graph()
+    graph.add_vertices(range(1, n + 1))
+
     for i in range(1, n + 1):
         for j in range(1, i):
             if gcd(i, j) == 1:
-- 
2.43.0


From e3659755208e4d7a018c44f7951479e6e3a3698f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:27 +0000
Subject: [PATCH 60/76] fix: grid_graph(1) had no vertex

---
 rosemary/graphs/graphs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rosemary/graphs/graphs.py b/rosemary/graphs/graphs.py
index 0792619..83621fa 100644
--- a/rosemary/graphs/graphs.py
+++ b/rosemary/graphs/graphs.py
@@ -1256,6 +1256,7 @@ def odd_graph(k):
 
 def grid_graph(n):
     graph = Graph()
+    graph.add_vertices(range(n*n))
 
     for i in range(n):
         for j in range(n):
-- 
2.43.0


From 1614a028f5cf4aa2a9da1a6e3b3387ecbd05bb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:56 +0000
Subject: [PATCH 61/76] fix: odd_graph(k) was wrong for k > 5 because of labels
 of two digits

---
 rosemary/graphs/graphs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rosemary/graphs/graphs.py b/rosemary/graphs/graphs.py
index 83621fa..4d655f0 100644
--- a/rosemary/graphs/graphs.py
+++ b/rosemary/graphs/graphs.py
@@ -1,6 +1,7 @@
 import copy
 import itertools
 import random
+import string
 
 from rosemary.algebra.matrices.matrices import MatrixZZ
 
@@ -1241,7 +1242,7 @@ def odd_graph(k):
     [('0', '1'), ('0', '2'), ('1', '2')]
     """
     graph = Graph()
-    ints = ''.join(map(str, range(2*k - 1)))
+    ints = (string.digits + string.ascii_letters)[:2*k - 1]
 
     for tup in itertools.combinations(ints, k - 1):
         u = ''.join(tup)
-- 
2.43.0


From aadd7a325d1d46fa6690e86802fb27cacac32bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:17 +0000
Subject: [PATCH 62/76] fix: is_graphic_erdos_gallai accepted sequences of odd
 sum

---
 rosemary/graphs/algorithms/degree_sequences.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rosemary/graphs/algorithms/degree_sequences.py b/rosemary/graphs/algorithms/degree_sequences.py
index 575b73d..2078710 100644
--- a/rosemary/graphs/algorithms/degree_sequences.py
+++ b/rosemary/graphs/algorithms/degree_sequences.py
@@ -77,6 +77,11 @@ def is_graphic(S):
 
 def is_graphic_erdos_gallai(S):
     T = sorted(S, reverse=True)
+
+    # The degrees of a graph have an even sum.
+    if sum(T) % 2:
+        return False
+
     d_sum = 0
 
     for k in range(len(T)):
-- 
2.43.0


From db1f7a25b91d128ca69611a4b91399151781963e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:19 +0000
Subject: [PATCH 63/76] fix: dijkstra_bidirectional did not find the path from
 a vertex to itself

---
 rosemary/graphs/algorithms/paths.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rosemary/graphs/algorithms/paths.py b/rosemary/graphs/algorithms/paths.py
index b23ec23..8d582fa 100644
--- a/rosemary/graphs/algorithms/paths.py
+++ b/rosemary/graphs/algorithms/paths.py
@@ -575,6 +575,9 @@ def dijkstra_bidirectional(graph, s, t):
     if t not in graph_dict:
         raise ValueError("dijkstra_bidirectional: {} is not a vertex of graph.".format(t))
 
+    if s == t:
+        return 0, [s]
+
     # Search forward from `s`.
     forward_search = dijkstra_iterator(graph, s)
     forward_estimate = {}
-- 
2.43.0


From 8bba91e9655675f71e088822381649670982685d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:42 +0000
Subject: [PATCH 64/76] fix: branch_and_bound returned no coloring of complete
 graphs

---
 rosemary/graphs/algorithms/coloring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/graphs/algorithms/coloring.py b/rosemary/graphs/algorithms/coloring.py
index 91b7c4b..30c89df 100644
--- a/rosemary/graphs/algorithms/coloring.py
+++ b/rosemary/graphs/algorithms/coloring.py
@@ -453,7 +453,7 @@ def branch_and_bound(graph, classes=True):
             return best_number
 
     vertices = graph.vertices()
-    best = [len(vertices), []]
+    best = [len(vertices), {u: i + 1 for (i, u) in enumerate(vertices)}]
 
     # color_map and uncolored are global data structure used by the
     # recursive method.
-- 
2.43.0


From 0cde1560964e2479a4f8da2e3850a6e2a9bdd9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:42 +0000
Subject: [PATCH 65/76] fix: korman coloring crashed on graphs with isolated
 vertices

---
 rosemary/graphs/algorithms/coloring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/graphs/algorithms/coloring.py b/rosemary/graphs/algorithms/coloring.py
index 30c89df..e7121dd 100644
--- a/rosemary/graphs/algorithms/coloring.py
+++ b/rosemary/graphs/algorithms/coloring.py
@@ -565,7 +565,7 @@ def korman(graph, classes=True):
 
         while idx >= clique_size:
             if find_next_s:
-                max_adj = 0
+                max_adj = -1
                 max_deg = 0
                 for u in uncolored:
                     adjacent_colors = {color[v] for v in graph_dict[u]}
-- 
2.43.0


From 2aa56d06d3c643535b208e5c0595ca7baa6a67fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:42 +0000
Subject: [PATCH 66/76] fix: culberson left out isolated vertices

---
 rosemary/graphs/algorithms/independent_sets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/graphs/algorithms/independent_sets.py b/rosemary/graphs/algorithms/independent_sets.py
index 65867d2..6d647ab 100644
--- a/rosemary/graphs/algorithms/independent_sets.py
+++ b/rosemary/graphs/algorithms/independent_sets.py
@@ -159,7 +159,7 @@ def culberson(graph):
             return (0, 0, [])
 
         max_size = 0
-        max_deg = 0
+        max_deg = -1
         max_set = []
 
         vertices[0], vertices[-1] = vertices[-1], vertices[0]
-- 
2.43.0


From 2a9f8af85cffff6299e60568eb93121a9afef79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:42 +0000
Subject: [PATCH 67/76] fix: minimum_cost_paths_heuristic did not end if a
 terminal lies on the path to another one

---
 rosemary/graphs/algorithms/steiner_trees.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rosemary/graphs/algorithms/steiner_trees.py b/rosemary/graphs/algorithms/steiner_trees.py
index 2f17a78..48e3d86 100644
--- a/rosemary/graphs/algorithms/steiner_trees.py
+++ b/rosemary/graphs/algorithms/steiner_trees.py
@@ -220,6 +220,7 @@ def minimum_cost_paths_heuristic(graph, terminals):
                     tree_edges.append((b, a))
 
                 tree_vertices.add(a)
+                terminal_set.discard(a)
                 a, b = shortest_prev[u][a], a
 
         # Apply the improvement procedure to the tree.
-- 
2.43.0


From 4c3c46724319a28ae93a5e42a75de7f7cb7d4350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:42 +0000
Subject: [PATCH 68/76] fix: walks of length 0 were counted as walks of length
 1

---
 rosemary/graphs/algorithms/hamiltonian_paths.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rosemary/graphs/algorithms/hamiltonian_paths.py b/rosemary/graphs/algorithms/hamiltonian_paths.py
index d5f1f7a..9fd89ea 100644
--- a/rosemary/graphs/algorithms/hamiltonian_paths.py
+++ b/rosemary/graphs/algorithms/hamiltonian_paths.py
@@ -236,10 +236,9 @@ def walks(graph, a, n, allowed):
     neighbors = {u: graph.neighbors(u) & allowed for u in allowed}
 
     num_walks = {u: 0 for u in allowed}
-    for u in neighbors[a]:
-        num_walks[u] += 1
+    num_walks[a] = 1
 
-    for i in range(n - 1):
+    for i in range(n):
         num_walks2 = {u: 0 for u in allowed}
         for u in allowed:
             for v in neighbors[u]:
-- 
2.43.0


From b5342d801df96097f61253fd8c77ffa166898373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:42 +0000
Subject: [PATCH 69/76] fix: number_of_hamiltonian_paths5_con left out terms of
 the inclusion-exclusion sum

---
 rosemary/graphs/algorithms/hamiltonian_paths.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/rosemary/graphs/algorithms/hamiltonian_paths.py b/rosemary/graphs/algorithms/hamiltonian_paths.py
index 9fd89ea..4f00ce7 100644
--- a/rosemary/graphs/algorithms/hamiltonian_paths.py
+++ b/rosemary/graphs/algorithms/hamiltonian_paths.py
@@ -279,12 +279,11 @@ def number_of_hamiltonian_paths5_con(graph):
     n = len(vertices)
 
     def extend(partial, idx):
-        if is_connected2(graph, graph.vertex_set() - set(partial)):
-            yield partial
+        yield partial
 
-            for i in range(idx, n):
-                for foo in extend(partial + [vertices[i]], i + 1):
-                    yield foo
+        for i in range(idx, n):
+            for foo in extend(partial + [vertices[i]], i + 1):
+                yield foo
 
     total = 0
     for allowed in extend([], 0):
-- 
2.43.0


From b426f2cb09951d748edeabde31344cf55c56a885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:02 +0000
Subject: [PATCH 70/76] fix: prim and Steiner trees of a single terminal
 crashed on graphs without vertices

---
 rosemary/graphs/algorithms/spanning_trees.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rosemary/graphs/algorithms/spanning_trees.py b/rosemary/graphs/algorithms/spanning_trees.py
index 49b5a3f..4f666ef 100644
--- a/rosemary/graphs/algorithms/spanning_trees.py
+++ b/rosemary/graphs/algorithms/spanning_trees.py
@@ -81,6 +81,9 @@ def prim(graph, root=None, edge_list=True):
     (14, {'a': None, 'b': 'd', 'c': 'b', 'd': 'a', 'e': 'f', 'f': 'c'})
     """
     # Choose a root vertex if none is given
+    if not graph.graph_dict:
+        return (0, []) if edge_list else (0, {})
+
     if root is None:
         root = next(iter(graph.graph_dict))
 
-- 
2.43.0


From a36fc7c3a8c81bac56dc525a5f5bed2bc61a6a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:31 +0000
Subject: [PATCH 71/76] fix: matrices shared their rows with the list or matrix
 they were built from

---
 rosemary/algebra/matrices/matrices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/algebra/matrices/matrices.py b/rosemary/algebra/matrices/matrices.py
index 8bb5343..ba787fc 100644
--- a/rosemary/algebra/matrices/matrices.py
+++ b/rosemary/algebra/matrices/matrices.py
@@ -34,7 +34,7 @@ class Matrix(object):
             if isinstance(m, int):
                 entries = [[0]*m for _ in range(m)]
             else:
-                entries = list(m)
+                entries = [list(row) for row in m]
         elif isinstance(n, int):
             entries = [[0]*n for _ in range(m)]
 
-- 
2.43.0


From bd7155215256a47ac4eccccb856b7cce53d8c6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:31 +0000
Subject: [PATCH 72/76] fix: strong probable prime test accepted composites up
 to 3.3e24 that pass for all bases below 20

---
 rosemary/number_theory/primes/primality.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rosemary/number_theory/primes/primality.py b/rosemary/number_theory/primes/primality.py
index aae83ac..0493ede 100644
--- a/rosemary/number_theory/primes/primality.py
+++ b/rosemary/number_theory/primes/primality.py
@@ -180,7 +180,8 @@ def is_probable_prime(n):
         Crandall and Pomerance for details.
     """
     # return all(solovay_strassen(n, a) for a in range(2, min(n - 1, 20)))
-    return all(miller_rabin(n, a) for a in range(2, min(n - 1, 20)))
+    # No composite below 3317044064679887385961981 passes for all bases up to 41.
+    return all(miller_rabin(n, a) for a in range(2, min(n - 1, 42)))
 
 
 def is_prime(n):
-- 
2.43.0


From 344e8d9218f282bf6b5e2c4c7fbe82a28058caec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:13 +0000
Subject: [PATCH 73/76] fix: gabow crashed on graphs that are not connected

---
 rosemary/graphs/algorithms/spanning_trees.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rosemary/graphs/algorithms/spanning_trees.py b/rosemary/graphs/algorithms/spanning_trees.py
index 4f666ef..a6890ce 100644
--- a/rosemary/graphs/algorithms/spanning_trees.py
+++ b/rosemary/graphs/algorithms/spanning_trees.py
@@ -365,6 +365,9 @@ def gabow(graph, k=None):
     root = vertices[0]
     tree_weight, father = prim(graph, root, edge_list=False)
     father[root] = root
+    # A graph which is not connected has no spanning trees.
+    if None in father.values():
+        return
 
     (exchange_weight, e, f) = find_exchange(father, [], [])
     # The entries are numbered so that ties are never decided by the trees.
-- 
2.43.0


From 44ccb2c7be302acb382feb28da454d1ae009800e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:33 +0000
Subject: [PATCH 74/76] fix: Matrix.__rmul__ with a matrix multiplies from the
 other side

---
 rosemary/algebra/matrices/matrices.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rosemary/algebra/matrices/matrices.py b/rosemary/algebra/matrices/matrices.py
index ba787fc..e78c40e 100644
--- a/rosemary/algebra/matrices/matrices.py
+++ b/rosemary/algebra/matrices/matrices.py
@@ -249,13 +249,13 @@ class Matrix(object):
             raise ValueError("Incompatible Matrix dimensions")
 
         other_entries = other.__entries
-        result = [[0]*other_ncols for _ in range(nrows)]
+        result = [[0]*ncols for _ in range(other_nrows)]
 
         for i in range(other_nrows):
             for j in range(ncols):
                 total = 0
                 for k in range(other_ncols):
-                    total += entries[i][k]*other_entries[k][j]
+                    total += other_entries[i][k]*entries[k][j]
                 result[i][j] = total
 
         return parent_class(result)
-- 
2.43.0


From be492e986e2ab6af09fb8953314394702533da71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:00 +0000
Subject: [PATCH 75/76] fix: cfrac finds a divisor where the multiplied number
 is a square

---
 rosemary/number_theory/factorization/algorithms.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rosemary/number_theory/factorization/algorithms.py b/rosemary/number_theory/factorization/algorithms.py
index f6a69dc..467cd70 100644
--- a/rosemary/number_theory/factorization/algorithms.py
+++ b/rosemary/number_theory/factorization/algorithms.py
@@ -498,6 +498,13 @@ def cfrac(n, k=None):
         if n % p == 0:
             return p
 
+    # The continued fraction of an integer ends at once, but if kn is a square
+    # then its root shares a divisor with n.
+    root = integer_sqrt(kn)
+    if root*root == kn:
+        d = gcd(root, n)
+        return d if d < n else None
+
     # Our factor base needs to include -1 and 2, and the odd primes p for
     # which (kN|p) = 0 or 1.
     factor_base = [-1]
-- 
2.43.0


From 45dddd4c6890b69e0af9f693aeadcdd09c3c89ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:00 +0000
Subject: [PATCH 76/76] fix: factor with use_cfrac falls back on the rho method
 where cfrac finds nothing

---
 rosemary/number_theory/factorization/factorization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rosemary/number_theory/factorization/factorization.py b/rosemary/number_theory/factorization/factorization.py
index 22e26c1..e982798 100644
--- a/rosemary/number_theory/factorization/factorization.py
+++ b/rosemary/number_theory/factorization/factorization.py
@@ -69,7 +69,9 @@ def factor(n, skip_trial_division=False, skip_power_detection=True, use_cfrac=Fa
 
     _is_prime = is_probable_prime
     if use_cfrac:
-        _factor = algorithms.cfrac
+        # The relations found by cfrac need not split the number.
+        def _factor(n):
+            return algorithms.cfrac(n) or algorithms.pollard_rho_brent(n)
     else:
         _factor = algorithms.pollard_rho_brent
 
-- 
2.43.0

