From 52f61fde3c092dc6852a1f41df957b5526b8b84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:09 +0000
Subject: [PATCH 01/40] fix: represent every exact number canonically so that =
 implies eqv? on exact numbers

---
 include/meevax/kernel/number.hpp | 13 ++++++++++++-
 src/kernel/boot.cpp              |  2 +-
 src/kernel/number.cpp            | 10 +++++-----
 src/kernel/number/power.cpp      |  2 +-
 4 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/include/meevax/kernel/number.hpp b/include/meevax/kernel/number.hpp
index f504ae1..1d022d7 100644
--- a/include/meevax/kernel/number.hpp
+++ b/include/meevax/kernel/number.hpp
@@ -456,13 +456,24 @@ namespace number
     {
       if (x.denominator() == 1_i64)
       {
-        return make<large_integer>(x.numerator());
+        return canonicalize(x.numerator());
       }
       else
       {
         return make<ratio>(std::forward<decltype(x)>(x));
       }
     }
+    else if constexpr (std::is_same_v<std::decay_t<decltype(x)>, large_integer>)
+    {
+      if (mpz_fits_sint_p(x.value))
+      {
+        return make<small_integer>(static_cast<small_integer>(x));
+      }
+      else
+      {
+        return make<large_integer>(std::forward<decltype(x)>(x));
+      }
+    }
     else if constexpr (std::is_same_v<std::decay_t<decltype(x)>, widen_integer>)
     {
       if (std::numeric_limits<small_integer>::min() <= x and x <= std::numeric_limits<small_integer>::max())
diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index 898916c..005f712 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -236,7 +236,7 @@ namespace meevax::inline kernel
       { "acosh",                         [](let const& xs) { return acosh(car(xs)); } },
       { "atanh",                         [](let const& xs) { return atanh(car(xs)); } },
       { "sqrt",                          [](let const& xs) { return sqrt(car(xs)); } },
-      { "exact-integer-square-root",     [](let const& xs) { auto sqrt = [](let const& x) { if (x.is<small_integer>()) { return large_integer(x.as<small_integer>()).sqrt(); } else { return x.as<large_integer>().sqrt(); } }; auto&& [s, r] = sqrt(car(xs)); return cons(make<large_integer>(std::forward<decltype(s)>(s)), make<large_integer>(std::forward<decltype(r)>(r))); } },
+      { "exact-integer-square-root",     [](let const& xs) { auto sqrt = [](let const& x) { if (x.is<small_integer>()) { return large_integer(x.as<small_integer>()).sqrt(); } else { return x.as<large_integer>().sqrt(); } }; auto&& [s, r] = sqrt(car(xs)); return cons(canonicalize(std::forward<decltype(s)>(s)), canonicalize(std::forward<decltype(r)>(r))); } },
       { "expt",                          [](let const& xs) { return pow(car(xs), cadr(xs)); } },
       { "make-rectangular",              [](let const& xs) { return make<complex>(car(xs), cadr(xs)); } },
       { "make-polar",                    [](let const& xs) { let const& radius = car(xs), angle = cadr(xs); return make<complex>(radius * cos(angle), radius * sin(angle)); } },
diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index 78f6b73..1606bd2 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -325,8 +325,8 @@ namespace meevax::inline kernel
       if constexpr (std::is_same_v<T, widen_integer> and
                     std::is_same_v<U, widen_integer>)
       {
-        return make<ratio>(large_integer(x),
-                           large_integer(y));
+        return ratio(large_integer(x),
+                     large_integer(y));
       }
       else
       {
@@ -398,7 +398,7 @@ namespace meevax::inline kernel
     }
     catch (std::invalid_argument const&)
     {
-      return make<ratio>(literal, radix);
+      return number::canonicalize(ratio(literal, radix));
     }
   }
 
@@ -866,7 +866,7 @@ namespace number
   {
     if (x.is<ratio>())
     {
-      return make<large_integer>(x.as<ratio>().numerator());
+      return canonicalize(x.as<ratio>().numerator());
     }
     else if (is_exact(x))
     {
@@ -882,7 +882,7 @@ namespace number
   {
     if (x.is<ratio>())
     {
-      return make<large_integer>(x.as<ratio>().denominator());
+      return canonicalize(x.as<ratio>().denominator());
     }
     else if (is_exact(x))
     {
diff --git a/src/kernel/number/power.cpp b/src/kernel/number/power.cpp
index 0953a43..6a64950 100644
--- a/src/kernel/number/power.cpp
+++ b/src/kernel/number/power.cpp
@@ -104,7 +104,7 @@ namespace meevax::inline kernel::number
           {
             auto const [s, r] = x.sqrt();
 
-            return r == 0_i64 ? make<large_integer>(s) : make<large_integer>(std::sqrt(static_cast<double>(x)));
+            return r == 0_i64 ? canonicalize(s) : make<large_integer>(std::sqrt(static_cast<double>(x)));
           }
           else
           {
-- 
2.43.0


From a27cbd1f36a01dd2be10e93dbed2792722265676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:09 +0000
Subject: [PATCH 02/40] fix: reject a rational literal with zero denominator
 instead of dying with SIGFPE

---
 src/kernel/ratio.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/ratio.cpp b/src/kernel/ratio.cpp
index 9842e7d..42cbd8c 100644
--- a/src/kernel/ratio.cpp
+++ b/src/kernel/ratio.cpp
@@ -67,7 +67,7 @@ namespace meevax::inline kernel
 
   ratio::ratio(std::string const& token, int radix)
   {
-    if (mpq_init(value); mpq_set_str(value, token.c_str(), radix))
+    if (mpq_init(value); mpq_set_str(value, token.c_str(), radix) or mpz_sgn(mpq_denref(value)) == 0)
     {
       mpq_clear(value);
       throw std::invalid_argument("not a ratio");
-- 
2.43.0


From c2d4aa44e183dbccde537c8f94bf5b6f77d7f6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:38 +0000
Subject: [PATCH 03/40] fix: exact of an infinity or NaN signals an error
 instead of aborting

---
 src/kernel/ratio.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/kernel/ratio.cpp b/src/kernel/ratio.cpp
index 42cbd8c..4a216c9 100644
--- a/src/kernel/ratio.cpp
+++ b/src/kernel/ratio.cpp
@@ -14,8 +14,10 @@
    limitations under the License.
 */
 
+#include <cmath> // std::isfinite
 #include <regex>
 
+#include <meevax/kernel/error.hpp>
 #include <meevax/kernel/number.hpp>
 
 namespace meevax::inline kernel
@@ -61,6 +63,11 @@ namespace meevax::inline kernel
 
   ratio::ratio(double x)
   {
+    if (not std::isfinite(x))
+    {
+      throw error(make<string>("no exact representation exists for"), make<double>(x));
+    }
+
     mpq_init(value);
     mpq_set_d(value, x);
   }
-- 
2.43.0


From 0b11489d5480f96c6ede2eaf753bbf593ac79dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:38 +0000
Subject: [PATCH 04/40] fix: floor, ceiling, truncate, round and quotient on
 exact operands no longer go through double

---
 src/kernel/number/nearest_integer.cpp | 40 +++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/src/kernel/number/nearest_integer.cpp b/src/kernel/number/nearest_integer.cpp
index 9d2e5d7..fae3ff1 100644
--- a/src/kernel/number/nearest_integer.cpp
+++ b/src/kernel/number/nearest_integer.cpp
@@ -18,7 +18,35 @@
 
 namespace meevax::inline kernel::number
 {
-  #define DEFINE(NAME, CMATH)                                                  \
+  auto floor_quotient(large_integer const& n, large_integer const& d) -> large_integer
+  {
+    large_integer q;
+    mpz_fdiv_q(q.value, n.value, d.value);
+    return q;
+  }
+
+  auto ceiling_quotient(large_integer const& n, large_integer const& d) -> large_integer
+  {
+    large_integer q;
+    mpz_cdiv_q(q.value, n.value, d.value);
+    return q;
+  }
+
+  auto truncate_quotient(large_integer const& n, large_integer const& d) -> large_integer
+  {
+    large_integer q;
+    mpz_tdiv_q(q.value, n.value, d.value);
+    return q;
+  }
+
+  auto round_quotient(large_integer const& n, large_integer const& d) -> large_integer
+  {
+    // The integer closest to n/d (0 < d), away from zero when n/d is halfway between two integers.
+    return n < 0_i64 ? ceiling_quotient(2_i64 * n - d, 2_i64 * d)
+                     : floor_quotient  (2_i64 * n + d, 2_i64 * d);
+  }
+
+  #define DEFINE(NAME, CMATH, QUOTIENT)                                        \
   auto NAME(object const& x) -> object                                         \
   {                                                                            \
     auto f = []<typename T>(T const& x)                                        \
@@ -29,7 +57,7 @@ namespace meevax::inline kernel::number
       }                                                                        \
       else if constexpr (std::is_same_v<T, ratio>)                             \
       {                                                                        \
-        return large_integer(CMATH(static_cast<double>(x)));                   \
+        return QUOTIENT(x.numerator(), x.denominator());                       \
       }                                                                        \
       else if constexpr (std::is_same_v<T, large_integer> or std::is_integral_v<T>) \
       {                                                                        \
@@ -45,8 +73,8 @@ namespace meevax::inline kernel::number
     return apply_to<complex_number>(f, x);                                     \
   }
 
-  DEFINE(floor,    std::floor)
-  DEFINE(ceiling,  std::ceil)
-  DEFINE(truncate, std::trunc)
-  DEFINE(round,    std::round)
+  DEFINE(floor,    std::floor, floor_quotient)
+  DEFINE(ceiling,  std::ceil,  ceiling_quotient)
+  DEFINE(truncate, std::trunc, truncate_quotient)
+  DEFINE(round,    std::round, round_quotient)
 } // namespace meevax::kernel::number
-- 
2.43.0


From 95542015718dcdd1e0634c878c21736c9772bfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:38 +0000
Subject: [PATCH 05/40] fix: round rounds halfway cases to even as R7RS 6.2.6
 requires

---
 src/kernel/number/nearest_integer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/kernel/number/nearest_integer.cpp b/src/kernel/number/nearest_integer.cpp
index fae3ff1..3b6c367 100644
--- a/src/kernel/number/nearest_integer.cpp
+++ b/src/kernel/number/nearest_integer.cpp
@@ -41,9 +41,9 @@ namespace meevax::inline kernel::number
 
   auto round_quotient(large_integer const& n, large_integer const& d) -> large_integer
   {
-    // The integer closest to n/d (0 < d), away from zero when n/d is halfway between two integers.
-    return n < 0_i64 ? ceiling_quotient(2_i64 * n - d, 2_i64 * d)
-                     : floor_quotient  (2_i64 * n + d, 2_i64 * d);
+    // The integer closest to n/d (0 < d), the even one when n/d is halfway between two integers.
+    auto q = floor_quotient(2_i64 * n + d, 2_i64 * d);
+    return d == 2_i64 and mpz_odd_p(q.value) ? q - 1_i64 : q;
   }
 
   #define DEFINE(NAME, CMATH, QUOTIENT)                                        \
@@ -76,5 +76,5 @@ namespace meevax::inline kernel::number
   DEFINE(floor,    std::floor, floor_quotient)
   DEFINE(ceiling,  std::ceil,  ceiling_quotient)
   DEFINE(truncate, std::trunc, truncate_quotient)
-  DEFINE(round,    std::round, round_quotient)
+  DEFINE(round,    std::nearbyint, round_quotient)
 } // namespace meevax::kernel::number
-- 
2.43.0


From 356a8fe110fdd5dd6815c2e60f2177a4d48c66ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:03 +0000
Subject: [PATCH 06/40] fix: exact division by zero signals an error instead of
 killing the process with SIGFPE

---
 src/kernel/number.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index 1606bd2..42da794 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -320,6 +320,11 @@ namespace meevax::inline kernel
   {
     using namespace number;
 
+    if (is_exact(x) and is_exact(y) and is_zero(y))
+    {
+      throw error(make<string>("division by zero"), x);
+    }
+
     auto f = []<typename T, typename U>(T const& x, U const& y)
     {
       if constexpr (std::is_same_v<T, widen_integer> and
@@ -341,6 +346,11 @@ namespace meevax::inline kernel
   {
     using namespace number;
 
+    if (is_exact(x) and is_exact(y) and is_zero(y))
+    {
+      throw error(make<string>("division by zero"), x);
+    }
+
     auto f = []<typename T, typename U>(T const& x, U const& y)
     {
       if constexpr ((std::is_floating_point_v<T> and std::is_arithmetic_v<U>) or
-- 
2.43.0


From 3bf5041946b0f29fde3d3a5662ac6e9307d019d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:03 +0000
Subject: [PATCH 07/40] fix: gcd and lcm are never negative and lcm of zeros is
 zero

---
 src/kernel/boot.cpp   | 4 ++--
 src/kernel/number.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index 005f712..eabe854 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -213,8 +213,8 @@ namespace meevax::inline kernel
       { "quotient",                      [](let const& xs) { return quotient(car(xs), cadr(xs)); } },
       { "remainder",                     [](let const& xs) { return remainder(car(xs), cadr(xs)); } },
       { "modulo",                        [](let const& xs) { return modulo(car(xs), cadr(xs)); } },
-      { "gcd",                           [](let const& xs) { switch (length(xs)) { case 0: return e0; case 1: return car(xs); default: return fold_left(cdr(xs) | as_proper_list, car(xs), gcd); } } },
-      { "lcm",                           [](let const& xs) { switch (length(xs)) { case 0: return e1; case 1: return car(xs); default: return fold_left(cdr(xs) | as_proper_list, car(xs), lcm); } } },
+      { "gcd",                           [](let const& xs) { switch (length(xs)) { case 0: return e0; case 1: return abs(car(xs)); default: return fold_left(cdr(xs) | as_proper_list, car(xs), gcd); } } },
+      { "lcm",                           [](let const& xs) { switch (length(xs)) { case 0: return e1; case 1: return abs(car(xs)); default: return fold_left(cdr(xs) | as_proper_list, car(xs), lcm); } } },
       { "numerator",                     [](let const& xs) { return numerator(car(xs)); } },
       { "denominator",                   [](let const& xs) { return denominator(car(xs)); } },
       { "floor",                         [](let const& xs) { return floor(car(xs)); } },
diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index 42da794..e5be869 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -813,7 +813,7 @@ namespace number
 
   auto lcm(object const& x, object const& y) -> object
   {
-    return abs(quotient(x * y, gcd(x, y)));
+    return is_zero(x) or is_zero(y) ? x * y : abs(quotient(x * y, gcd(x, y)));
   }
 
   auto real(object const& x) -> object
-- 
2.43.0


From 8310a6e19cfe632d0316e4fee0a707be5498a142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:03 +0000
Subject: [PATCH 08/40] fix: infinities are not integers

---
 src/kernel/number.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index e5be869..5887b1b 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -638,7 +638,7 @@ namespace number
       }
       else if constexpr (std::is_floating_point_v<T>)
       {
-        return x == std::trunc(x);
+        return std::isfinite(x) and x == std::trunc(x);
       }
       else if constexpr (std::is_same_v<T, ratio>)
       {
-- 
2.43.0


From 1d3f50fdd6066856b25b523f3a1fdd02ff0817b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:03 +0000
Subject: [PATCH 09/40] fix: bit-shift of small integers by 64 or more bits to
 the right

---
 src/kernel/number/bitwise.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kernel/number/bitwise.cpp b/src/kernel/number/bitwise.cpp
index 0179196..3ad3ad2 100644
--- a/src/kernel/number/bitwise.cpp
+++ b/src/kernel/number/bitwise.cpp
@@ -88,7 +88,7 @@ namespace meevax::inline kernel::number
         if (c < 0)
         {
           auto i = large_integer();
-          mpz_fdiv_q_2exp(i.value, x.value, -c);
+          mpz_fdiv_q_2exp(i.value, x.value, -static_cast<widen_integer>(c));
           return i;
         }
         else if (c == 0)
@@ -106,7 +106,7 @@ namespace meevax::inline kernel::number
       {
         if (c < 0)
         {
-          return canonicalize(x >> -c);
+          return canonicalize(x >> std::min(-static_cast<widen_integer>(c), 63_i64));
         }
         else if (c == 0)
         {
@@ -118,7 +118,7 @@ namespace meevax::inline kernel::number
           {
             auto i = large_integer();
             mpz_mul_2exp(i.value, large_integer(x).value, c);
-            return make<large_integer>(i);
+            return canonicalize(i);
           }
           else
           {
-- 
2.43.0


From 08f0e875e29400c16760acdbc2983343679079b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:03 +0000
Subject: [PATCH 10/40] fix: expt with exact base and exact integer exponent is
 exact

---
 src/kernel/number/power.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/kernel/number/power.cpp b/src/kernel/number/power.cpp
index 6a64950..a2e99b0 100644
--- a/src/kernel/number/power.cpp
+++ b/src/kernel/number/power.cpp
@@ -43,16 +43,29 @@ namespace meevax::inline kernel::number
         return complex(make<double>(z.real()),
                        make<double>(z.imag()));
       }
-      else if constexpr (std::is_same_v<T, widen_integer> and
+      else if constexpr ((std::is_same_v<T, widen_integer> or std::is_same_v<T, large_integer> or std::is_same_v<T, ratio>) and
                          std::is_same_v<U, widen_integer>)
       {
-        if (auto result = std::pow(x, y); std::numeric_limits<small_integer>::min() <= result and result <= std::numeric_limits<small_integer>::max())
+        auto power = [](large_integer const& base, widen_integer exponent)
         {
-          return make<small_integer>(static_cast<small_integer>(result));
+          large_integer result {};
+          mpz_pow_ui(result.value, base.value, static_cast<unsigned long>(exponent));
+          return result;
+        };
+
+        auto const base = ratio(x);
+
+        if (0 <= y)
+        {
+          return ratio(power(base.numerator(), y), power(base.denominator(), y));
+        }
+        else if (base.numerator() == 0_i64)
+        {
+          throw error(make<string>("zero cannot be raised to a negative power"), make<small_integer>(static_cast<small_integer>(y)));
         }
         else
         {
-          return make<large_integer>(result);
+          return ratio(power(base.denominator(), -y), power(base.numerator(), -y));
         }
       }
       else if constexpr (std::is_same_v<T, large_integer> and
-- 
2.43.0


From 119efd6e93a203a972033d2c528ed85515666168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:03 +0000
Subject: [PATCH 11/40] fix: sqrt of a large integer that is not a perfect
 square is not truncated

---
 src/kernel/number/power.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/number/power.cpp b/src/kernel/number/power.cpp
index a2e99b0..b306df7 100644
--- a/src/kernel/number/power.cpp
+++ b/src/kernel/number/power.cpp
@@ -117,7 +117,7 @@ namespace meevax::inline kernel::number
           {
             auto const [s, r] = x.sqrt();
 
-            return r == 0_i64 ? canonicalize(s) : make<large_integer>(std::sqrt(static_cast<double>(x)));
+            return r == 0_i64 ? canonicalize(s) : make<double>(std::sqrt(static_cast<double>(x)));
           }
           else
           {
-- 
2.43.0


From dd68115972898337ad4a4d2f548138ca49fac6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:03 +0000
Subject: [PATCH 12/40] fix: magnitude of a negative real and angle of a
 complex number

---
 src/kernel/number.cpp | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index 5887b1b..cc9e043 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -852,24 +852,12 @@ namespace number
 
   auto magnitude(object const& x) -> object
   {
-    auto f = []<typename T>(T const& x)
-    {
-      if constexpr (std::is_same_v<T, complex>)
-      {
-        return sqrt(x.real() * x.real() + x.imag() * x.imag());
-      }
-      else
-      {
-        return x;
-      }
-    };
-
-    return apply_to<complex_number>(f, x);
+    return abs(x);
   }
 
   auto angle(object const& x) -> object
   {
-    return atan2(real(x), imag(x));
+    return atan2(imag(x), real(x));
   }
 
   auto numerator(object const& x) -> object
-- 
2.43.0


From 813320d17198a0a7d28368769e9a92379d8e2fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:27 +0000
Subject: [PATCH 13/40] fix: comparing a large integer with a NaN no longer
 traps in GMP

---
 src/kernel/number.cpp | 54 ++++++++++++++++++++++++-------------------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index cc9e043..3630ca9 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -15,6 +15,7 @@
 */
 
 #include <charconv>
+#include <compare> // std::partial_ordering
 #include <meevax/kernel/error.hpp>
 #include <meevax/kernel/ghost.hpp>
 #include <meevax/kernel/number.hpp>
@@ -29,6 +30,11 @@
 
 namespace meevax::inline kernel
 {
+  auto static compare(large_integer const& a, double b) -> std::partial_ordering
+  {
+    return std::isnan(b) ? std::partial_ordering::unordered : mpz_cmp_d(a.value, b) <=> 0; // mpz_cmp_d traps NaN
+  }
+
   auto operator * (widen_integer a, large_integer const& b) -> large_integer { return large_integer(a) * b; }
   auto operator + (widen_integer a, large_integer const& b) -> large_integer { return large_integer(a) + b; }
   auto operator - (widen_integer a, large_integer const& b) -> large_integer { return large_integer(a) - b; }
@@ -101,24 +107,24 @@ namespace meevax::inline kernel
   auto operator * (large_integer const& a, float b) -> float { return static_cast<float>(a) *  b; }
   auto operator / (large_integer const& a, float b) -> float { return static_cast<float>(a) /  b; }
   auto operator % (large_integer const& a, float b) -> float { return std::remainder(static_cast<float>(a), b); }
-  auto operator ==(large_integer const& a, float b) -> bool  { return mpz_cmp_d(a.value, b) == 0; }
-  auto operator !=(large_integer const& a, float b) -> bool  { return mpz_cmp_d(a.value, b) != 0; }
-  auto operator < (large_integer const& a, float b) -> bool  { return mpz_cmp_d(a.value, b) <  0; }
-  auto operator <=(large_integer const& a, float b) -> bool  { return mpz_cmp_d(a.value, b) <= 0; }
-  auto operator > (large_integer const& a, float b) -> bool  { return mpz_cmp_d(a.value, b) >  0; }
-  auto operator >=(large_integer const& a, float b) -> bool  { return mpz_cmp_d(a.value, b) >= 0; }
+  auto operator ==(large_integer const& a, float b) -> bool  { return compare(a, b) == 0; }
+  auto operator !=(large_integer const& a, float b) -> bool  { return compare(a, b) != 0; }
+  auto operator < (large_integer const& a, float b) -> bool  { return compare(a, b) <  0; }
+  auto operator <=(large_integer const& a, float b) -> bool  { return compare(a, b) <= 0; }
+  auto operator > (large_integer const& a, float b) -> bool  { return compare(a, b) >  0; }
+  auto operator >=(large_integer const& a, float b) -> bool  { return compare(a, b) >= 0; }
 
   auto operator + (large_integer const& a, double b) -> double { return static_cast<double>(a) +  b; }
   auto operator - (large_integer const& a, double b) -> double { return static_cast<double>(a) -  b; }
   auto operator * (large_integer const& a, double b) -> double { return static_cast<double>(a) *  b; }
   auto operator / (large_integer const& a, double b) -> double { return static_cast<double>(a) /  b; }
   auto operator % (large_integer const& a, double b) -> double { return std::remainder(static_cast<double>(a), b); }
-  auto operator ==(large_integer const& a, double b) -> bool   { return mpz_cmp_d(a.value, b) == 0; }
-  auto operator !=(large_integer const& a, double b) -> bool   { return mpz_cmp_d(a.value, b) != 0; }
-  auto operator < (large_integer const& a, double b) -> bool   { return mpz_cmp_d(a.value, b) <  0; }
-  auto operator <=(large_integer const& a, double b) -> bool   { return mpz_cmp_d(a.value, b) <= 0; }
-  auto operator > (large_integer const& a, double b) -> bool   { return mpz_cmp_d(a.value, b) >  0; }
-  auto operator >=(large_integer const& a, double b) -> bool   { return mpz_cmp_d(a.value, b) >= 0; }
+  auto operator ==(large_integer const& a, double b) -> bool   { return compare(a, b) == 0; }
+  auto operator !=(large_integer const& a, double b) -> bool   { return compare(a, b) != 0; }
+  auto operator < (large_integer const& a, double b) -> bool   { return compare(a, b) <  0; }
+  auto operator <=(large_integer const& a, double b) -> bool   { return compare(a, b) <= 0; }
+  auto operator > (large_integer const& a, double b) -> bool   { return compare(a, b) >  0; }
+  auto operator >=(large_integer const& a, double b) -> bool   { return compare(a, b) >= 0; }
 
   auto operator + (large_integer const& a, complex const& b) -> complex { return complex(make<large_integer>(a), e0) +  b; }
   auto operator - (large_integer const& a, complex const& b) -> complex { return complex(make<large_integer>(a), e0) -  b; }
@@ -199,12 +205,12 @@ namespace meevax::inline kernel
   auto operator * (float a, large_integer const& b) -> float { return a *  static_cast<float>(b); }
   auto operator / (float a, large_integer const& b) -> float { return a /  static_cast<float>(b); }
   auto operator % (float a, large_integer const& b) -> float { return std::remainder(a, static_cast<float>(b)); }
-  auto operator ==(float a, large_integer const& b) -> bool  { return 0 == mpz_cmp_d(b.value, a); }
-  auto operator !=(float a, large_integer const& b) -> bool  { return 0 != mpz_cmp_d(b.value, a); }
-  auto operator < (float a, large_integer const& b) -> bool  { return 0 <  mpz_cmp_d(b.value, a); }
-  auto operator <=(float a, large_integer const& b) -> bool  { return 0 <= mpz_cmp_d(b.value, a); }
-  auto operator > (float a, large_integer const& b) -> bool  { return 0 >  mpz_cmp_d(b.value, a); }
-  auto operator >=(float a, large_integer const& b) -> bool  { return 0 >= mpz_cmp_d(b.value, a); }
+  auto operator ==(float a, large_integer const& b) -> bool  { return 0 == compare(b, a); }
+  auto operator !=(float a, large_integer const& b) -> bool  { return 0 != compare(b, a); }
+  auto operator < (float a, large_integer const& b) -> bool  { return 0 <  compare(b, a); }
+  auto operator <=(float a, large_integer const& b) -> bool  { return 0 <= compare(b, a); }
+  auto operator > (float a, large_integer const& b) -> bool  { return 0 >  compare(b, a); }
+  auto operator >=(float a, large_integer const& b) -> bool  { return 0 >= compare(b, a); }
 
   auto operator + (float a, ratio const& b) -> float { return a +  static_cast<float>(b); }
   auto operator - (float a, ratio const& b) -> float { return a -  static_cast<float>(b); }
@@ -230,12 +236,12 @@ namespace meevax::inline kernel
   auto operator * (double a, large_integer const& b) -> double { return a * static_cast<double>(b); }
   auto operator / (double a, large_integer const& b) -> double { return a / static_cast<double>(b); }
   auto operator % (double a, large_integer const& b) -> double { return std::remainder(a, static_cast<double>(b)); }
-  auto operator ==(double a, large_integer const& b) -> bool   { return 0 == mpz_cmp_d(b.value, a); }
-  auto operator !=(double a, large_integer const& b) -> bool   { return 0 != mpz_cmp_d(b.value, a); }
-  auto operator < (double a, large_integer const& b) -> bool   { return 0 <  mpz_cmp_d(b.value, a); }
-  auto operator <=(double a, large_integer const& b) -> bool   { return 0 <= mpz_cmp_d(b.value, a); }
-  auto operator > (double a, large_integer const& b) -> bool   { return 0 >  mpz_cmp_d(b.value, a); }
-  auto operator >=(double a, large_integer const& b) -> bool   { return 0 >= mpz_cmp_d(b.value, a); }
+  auto operator ==(double a, large_integer const& b) -> bool   { return 0 == compare(b, a); }
+  auto operator !=(double a, large_integer const& b) -> bool   { return 0 != compare(b, a); }
+  auto operator < (double a, large_integer const& b) -> bool   { return 0 <  compare(b, a); }
+  auto operator <=(double a, large_integer const& b) -> bool   { return 0 <= compare(b, a); }
+  auto operator > (double a, large_integer const& b) -> bool   { return 0 >  compare(b, a); }
+  auto operator >=(double a, large_integer const& b) -> bool   { return 0 >= compare(b, a); }
 
   auto operator + (double a, ratio const& b) -> double { return a +  static_cast<double>(b); }
   auto operator - (double a, ratio const& b) -> double { return a -  static_cast<double>(b); }
-- 
2.43.0


From d30c6a8f5991f4aa9ee62ebd965bceab6bc92e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:19 +0000
Subject: [PATCH 14/40] fix: a NaN is not finite

---
 src/kernel/number.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index 3630ca9..49dab0d 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -694,7 +694,7 @@ namespace number
 
   auto is_finite(object const& x) -> bool
   {
-    return not is_infinite(x);
+    return not is_infinite(x) and not is_nan(x);
   }
 
   auto is_infinite(object const& x) -> bool
-- 
2.43.0


From 47f05dfcd3efaa01d501e384ad190763422cb986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:12 +0000
Subject: [PATCH 15/40] fix: apply hands the callee a list of its own, not the
 caller's

---
 library/meevax.ss | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/library/meevax.ss b/library/meevax.ss
index 81460e6..2f55b62 100644
--- a/library/meevax.ss
+++ b/library/meevax.ss
@@ -100,21 +100,20 @@
              (emergency-exit . xs)))))
 
 (define-library (meevax apply)
-  (import (only (meevax core) define if lambda)
-          (only (meevax list) append null? reverse)
+  (import (only (meevax core) define lambda quote)
+          (only (meevax list) append reverse)
           (only (meevax pair) car cdr cons))
 
   (export apply)
 
   (begin (define (apply f x . xs)
-           (if (null? xs)
-               (f . x)
-               ((lambda (xs)
-                  ((lambda (x)
-                     (f . x))
-                   (append (reverse (cdr xs))
-                           (car xs))))
-                (reverse (cons x xs)))))))
+           ((lambda (xs)
+              ((lambda (x)
+                 (f . x))
+               (append (reverse (cdr xs))
+                       (car xs)
+                       '())))
+            (reverse (cons x xs))))))
 
 (define-library (meevax map)
   (import (only (meevax apply) apply)
-- 
2.43.0


From 76c7709cd2dd46be8bfb89bf34ab5086ca02722e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:31 +0000
Subject: [PATCH 16/40] fix: bytevectors of different length are not equal

---
 include/meevax/kernel/homogeneous_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/meevax/kernel/homogeneous_vector.hpp b/include/meevax/kernel/homogeneous_vector.hpp
index 99eeeae..67f5306 100644
--- a/include/meevax/kernel/homogeneous_vector.hpp
+++ b/include/meevax/kernel/homogeneous_vector.hpp
@@ -100,7 +100,7 @@ namespace meevax::inline kernel
       return std::all_of(std::begin(xs), std::end(xs), [](auto x) { return x; });
     };
 
-    return check(a.values == b.values);
+    return a.values.size() == b.values.size() and check(a.values == b.values);
   }
 
   #define FOR_EACH_BITS(F) F(8) F(16) F(32) F(64)
-- 
2.43.0


From 411c315bf9300437744fae1027adbe86eeb7308a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:29 +0000
Subject: [PATCH 17/40] fix: elements read from integer vectors are canonical
 exact integers

---
 include/meevax/kernel/homogeneous_vector.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/meevax/kernel/homogeneous_vector.hpp b/include/meevax/kernel/homogeneous_vector.hpp
index 67f5306..b3e2d9f 100644
--- a/include/meevax/kernel/homogeneous_vector.hpp
+++ b/include/meevax/kernel/homogeneous_vector.hpp
@@ -69,9 +69,16 @@ namespace meevax::inline kernel
       }
     }
 
-    static auto output_cast(T x)
+    static auto output_cast(T x) -> object
     {
-      return make<std::conditional_t<std::is_floating_point_v<T>, T, large_integer>>(x);
+      if constexpr (std::is_floating_point_v<T>)
+      {
+        return make<T>(x);
+      }
+      else
+      {
+        return number::canonicalize(large_integer(x));
+      }
     }
   };
 
-- 
2.43.0


From 271684b4332ec8ce096639e57b6d030dce9c4a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:00 +0000
Subject: [PATCH 18/40] fix: jiffies-per-second and current-jiffy are canonical
 exact integers

---
 src/kernel/boot.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index eabe854..9f4d9b7 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -382,8 +382,8 @@ namespace meevax::inline kernel
       { "get-environment-variable",      [](let const& xs) { if (auto s = std::getenv(car(xs).as<string>().utf8().c_str())) { return make<string>(s); } else { return f; } } },
       { "get-environment-variables",     [](let const&   ) { let alist = nullptr; for (auto iter = environ; *iter; ++iter) { if (auto const position = std::string_view(*iter).find_first_of("="); position != std::string::npos) { alist = alist_cons(make<string>(std::string(*iter, position)), make<string>(std::string(*iter + position + 1)), alist); } } return alist; } },
 
-      { "current-jiffy",                 [](let const&   ) { return make<large_integer>(std::chrono::high_resolution_clock::now().time_since_epoch().count()); } },
-      { "jiffies-per-second",            [](let const&   ) { return make<large_integer>(std::chrono::high_resolution_clock::period::den); } },
+      { "current-jiffy",                 [](let const&   ) { return canonicalize(large_integer(std::chrono::high_resolution_clock::now().time_since_epoch().count())); } },
+      { "jiffies-per-second",            [](let const&   ) { return canonicalize(large_integer(std::chrono::high_resolution_clock::period::den)); } },
 
       { "vector?",                       [](let const& xs) { return make<bool>(car(xs).is<vector>()); } },
       { "vector",                        [](let const& xs) { return make<vector>(xs | as_proper_list); } },
-- 
2.43.0


From f68c7830cf1d9b44bf60f46f9eb9b33f454792ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 19/40] fix: eqv? distinguishes complex numbers of different
 exactness

---
 include/meevax/kernel/comparator.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/meevax/kernel/comparator.hpp b/include/meevax/kernel/comparator.hpp
index c4e0183..9aa8b6c 100644
--- a/include/meevax/kernel/comparator.hpp
+++ b/include/meevax/kernel/comparator.hpp
@@ -28,7 +28,19 @@ namespace meevax::inline kernel
 
   inline auto eqv = [](auto const& x, auto const& y)
   {
-    return eq(x, y) or x.eqv(y) or number::exact_integer_equals(x, y);
+    auto equivalent = [](auto const& x, auto const& y)
+    {
+      return eq(x, y) or x.eqv(y) or number::exact_integer_equals(x, y);
+    };
+
+    if (x.template is<complex>() and y.template is<complex>())
+    {
+      return eq(x, y) or (equivalent(car(x), car(y)) and equivalent(cdr(x), cdr(y)));
+    }
+    else
+    {
+      return equivalent(x, y);
+    }
   };
 
   auto equal(object const&, object const&) -> bool;
-- 
2.43.0


From 0069f99ba828be6ba1470aac643f96679dae2597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 20/40] fix: an exact literal with an explicit plus sign is
 exact

---
 src/kernel/number.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index 49dab0d..93c39c9 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -408,6 +408,11 @@ namespace meevax::inline kernel
 
   auto make_rational(std::string const& literal, int radix) -> object
   {
+    if (1 < literal.size() and literal[0] == '+' and std::isxdigit(static_cast<unsigned char>(literal[1])))
+    {
+      return make_rational(literal.substr(1), radix);
+    }
+
     try
     {
       return make_integer(literal, radix);
-- 
2.43.0


From 81f0f537f2967e6d1eaaa1f1f36c6e00dced0aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:29 +0000
Subject: [PATCH 21/40] fix: string->number returns #f for a string that is not
 a number

---
 src/kernel/boot.cpp  | 2 +-
 src/kernel/ratio.cpp | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index 9f4d9b7..3b819ea 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -265,7 +265,7 @@ namespace meevax::inline kernel
       { "bit-count",                     [](let const& xs) { return bit_count(car(xs)); } },
       { "bit-width",                     [](let const& xs) { return bit_width(car(xs)); } },
       { "number->string",                [](let const& xs) { switch (length(xs)) { case 1: return number_to_string(car(xs), 10); case 2: return number_to_string(car(xs), exact_integer_cast<std::size_t>(cadr(xs))); default: throw error(make<string>("procedure number->string takes one or two arugments, but got"), xs); } } },
-      { "string->number",                [](let const& xs) { switch (length(xs)) { case 1: return make_number(car(xs).as<string>().utf8(), 10); case 2: return make_number(car(xs).as<string>().utf8(), exact_integer_cast<std::size_t>(cadr(xs))); default: throw error(make<string>("procedure string->number takes one or two arugments, but got"), xs); } } },
+      { "string->number",                [](let const& xs) { auto string_to_number = [](std::string const& s, int radix) -> object { try { return make_number(s, radix); } catch (std::invalid_argument const&) { return f; } }; switch (length(xs)) { case 1: return string_to_number(car(xs).as<string>().utf8(), 10); case 2: return string_to_number(car(xs).as<string>().utf8(), exact_integer_cast<int>(cadr(xs))); default: throw error(make<string>("procedure string->number takes one or two arugments, but got"), xs); } } },
 
       { "pair?",                         [](let const& xs) { return make<bool>(car(xs).is<pair>()); } },
       { "not-pair?",                     [](let const& xs) { return make<bool>(not car(xs).is<pair>()); } },
diff --git a/src/kernel/ratio.cpp b/src/kernel/ratio.cpp
index 4a216c9..0d8db54 100644
--- a/src/kernel/ratio.cpp
+++ b/src/kernel/ratio.cpp
@@ -74,7 +74,10 @@ namespace meevax::inline kernel
 
   ratio::ratio(std::string const& token, int radix)
   {
-    if (mpq_init(value); mpq_set_str(value, token.c_str(), radix) or mpz_sgn(mpq_denref(value)) == 0)
+    auto is_space = [](unsigned char c) { return std::isspace(c); };
+
+    // GMP ignores white space anywhere in the string.
+    if (mpq_init(value); std::any_of(token.begin(), token.end(), is_space) or mpq_set_str(value, token.c_str(), radix) or mpz_sgn(mpq_denref(value)) == 0)
     {
       mpq_clear(value);
       throw std::invalid_argument("not a ratio");
-- 
2.43.0


From 3581fd2ad7a660fe3c8e8264c81717a36061a3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:31 +0000
Subject: [PATCH 22/40] fix: inexact literals outside the double range and with
 exponent marker d

---
 src/kernel/number.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index 93c39c9..6fdf52c 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -471,17 +471,19 @@ namespace meevax::inline kernel
           switch (*result[1].first)
           {
           case 'D': case 'd':
+            return make<double>(std::strtod(literal.substr().replace(result.position(1), 1, "e").c_str(), nullptr));
+
           case 'E': case 'e':
           default:
-            return make<double>(std::stod(literal));
+            return make<double>(std::strtod(literal.c_str(), nullptr));
 
           case 'F': case 'f':
-            return make<float>(std::stof(literal.substr().replace(result.position(1), 1, "e")));
+            return make<float>(std::strtof(literal.substr().replace(result.position(1), 1, "e").c_str(), nullptr));
           }
         }
         else
         {
-          return make<double>(std::stod(literal));
+          return make<double>(std::strtod(literal.c_str(), nullptr));
         }
       }
       else
-- 
2.43.0


From 29e3561b43c989be67d1544d0c9323a76fd501e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:28 +0000
Subject: [PATCH 23/40] fix: inexact integers are written so that they read
 back inexact

---
 include/meevax/memory/nan_boxing_pointer.hpp | 10 +++++++++-
 src/kernel/number.cpp                        |  5 ++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/meevax/memory/nan_boxing_pointer.hpp b/include/meevax/memory/nan_boxing_pointer.hpp
index 640bacf..b86b44c 100644
--- a/include/meevax/memory/nan_boxing_pointer.hpp
+++ b/include/meevax/memory/nan_boxing_pointer.hpp
@@ -17,6 +17,7 @@
 #ifndef INCLUDED_MEEVAX_MEMORY_NAN_BOXING_POINTER_HPP
 #define INCLUDED_MEEVAX_MEMORY_NAN_BOXING_POINTER_HPP
 
+#include <algorithm>
 #include <bit>
 #include <charconv>
 #include <cmath>
@@ -280,7 +281,14 @@ namespace meevax::inline memory
         else
         {
           char buffer[48] = {};
-          std::to_chars(buffer, buffer + sizeof(buffer), value, std::chars_format::general);
+          auto end = std::to_chars(buffer, buffer + sizeof(buffer), value, std::chars_format::general).ptr;
+
+          if (std::none_of(buffer, end, [](auto c) { return c == '.' or c == 'e'; })) // Looks like an exact integer.
+          {
+            *end++ = '.';
+            *end++ = '0';
+          }
+
           return os << cyan(buffer);
         }
       }
diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index 6fdf52c..95e19af 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -18,6 +18,7 @@
 #include <compare> // std::partial_ordering
 #include <meevax/kernel/error.hpp>
 #include <meevax/kernel/ghost.hpp>
+#include <meevax/iostream/lexical_cast.hpp>
 #include <meevax/kernel/number.hpp>
 #include <meevax/kernel/number/nearest_integer.hpp>
 #include <meevax/kernel/number/power.hpp>
@@ -924,9 +925,7 @@ namespace number
         default:
         case 10:
           {
-            char buffer[48] = {};
-            std::to_chars(buffer, buffer + sizeof(buffer), x, std::chars_format::general);
-            return string(buffer);
+            return string(lexical_cast(make<T>(x)));
           }
 
         case 16:
-- 
2.43.0


From 05ca135bc132d6e808c4aceb208e11c6ee3033e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 24/40] fix: number->string of ratios, complex numbers and the
 least small integer in radix 2

---
 src/kernel/number.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index 95e19af..ede320a 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -938,7 +938,7 @@ namespace number
       }
       else if constexpr (std::is_same_v<T, widen_integer>)
       {
-        char buffer[33] = {};
+        char buffer[66] = {}; // Sign, 64 binary digits and the terminator.
         std::to_chars(buffer, buffer + sizeof(buffer), x, radix);
         return string(buffer);
       }
@@ -946,9 +946,16 @@ namespace number
       {
         return string(std::unique_ptr<char, gmp_free>(mpz_get_str(nullptr, radix, x.value)).get());
       }
+      else if constexpr (std::is_same_v<T, ratio>)
+      {
+        return string(std::unique_ptr<char, gmp_free>(mpq_get_str(nullptr, radix, x.value)).get());
+      }
       else
       {
-        return string("TODO");
+        auto const real = number_to_string(x.real(), radix).template as<string>().utf8();
+        auto const imag = number_to_string(x.imag(), radix).template as<string>().utf8();
+
+        return string(real + (imag[0] == '+' or imag[0] == '-' ? "" : "+") + imag + "i");
       }
     };
 
-- 
2.43.0


From 3d417bb3cf892c52dbc8f94ba726809d10a6199f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:28 +0000
Subject: [PATCH 25/40] fix: characters in the ideograph, Hangul and private
 use ranges have their general category

---
 include/meevax/kernel/character.hpp | 40 +++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/include/meevax/kernel/character.hpp b/include/meevax/kernel/character.hpp
index f5f5bec..c0b2e6a 100644
--- a/include/meevax/kernel/character.hpp
+++ b/include/meevax/kernel/character.hpp
@@ -82,6 +82,46 @@ namespace meevax::inline kernel
         #include <meevax/unicode/property.hpp>
 
         default:
+          return to_range_value_type(codepoint);
+        }
+      }
+
+      // UnicodeData.txt gives only the first and the last code point of these ranges.
+      static constexpr auto to_range_value_type(int_type codepoint) noexcept -> value_type
+      {
+        auto between = [&](int_type first, int_type last)
+        {
+          return first <= codepoint and codepoint <= last;
+        };
+
+        if (between(0x3400, 0x4DBF) or // CJK Ideograph Extension A
+            between(0x4E00, 0x9FFF) or // CJK Ideograph
+            between(0xAC00, 0xD7A3) or // Hangul Syllable
+            between(0x17000, 0x187F7) or // Tangut Ideograph
+            between(0x18D00, 0x18D08) or // Tangut Ideograph Supplement
+            between(0x20000, 0x2A6DF) or // CJK Ideograph Extension B
+            between(0x2A700, 0x2B739) or // CJK Ideograph Extension C
+            between(0x2B740, 0x2B81D) or // CJK Ideograph Extension D
+            between(0x2B820, 0x2CEA1) or // CJK Ideograph Extension E
+            between(0x2CEB0, 0x2EBE0) or // CJK Ideograph Extension F
+            between(0x2EBF0, 0x2EE5D) or // CJK Ideograph Extension I
+            between(0x30000, 0x3134A) or // CJK Ideograph Extension G
+            between(0x31350, 0x323AF))   // CJK Ideograph Extension H
+        {
+          return Lo;
+        }
+        else if (between(0xD800, 0xDFFF)) // High Surrogate, Private Use High Surrogate and Low Surrogate
+        {
+          return Cs;
+        }
+        else if (between(0xE000, 0xF8FF) or // Private Use
+                 between(0xF0000, 0xFFFFD) or // Plane 15 Private Use
+                 between(0x100000, 0x10FFFD)) // Plane 16 Private Use
+        {
+          return Co;
+        }
+        else
+        {
           return Cn;
         }
       }
-- 
2.43.0


From 956aac0e86b96861aac3c9e35c51c4a55ac51d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:28 +0000
Subject: [PATCH 26/40] fix: digit-value is #f for characters that are not
 numeric

---
 include/meevax/kernel/character.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/meevax/kernel/character.hpp b/include/meevax/kernel/character.hpp
index c0b2e6a..a420dc4 100644
--- a/include/meevax/kernel/character.hpp
+++ b/include/meevax/kernel/character.hpp
@@ -180,6 +180,11 @@ namespace meevax::inline kernel
 
     auto constexpr digit_value() const noexcept -> std::optional<int>
     {
+      if (not property().is_numeric()) // Superscript and circled digits have a digit value but are not numeric.
+      {
+        return std::nullopt;
+      }
+
       switch (codepoint)
       {
       #include <meevax/unicode/digit_value.hpp>
-- 
2.43.0


From 8d0177449a04c0de7bed40fe6dbc2c20b6a38908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:29 +0000
Subject: [PATCH 27/40] fix: char-whitespace? holds for tab, newline and the
 other white space control characters

---
 include/meevax/kernel/character.hpp | 7 ++++++-
 src/kernel/boot.cpp                 | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/meevax/kernel/character.hpp b/include/meevax/kernel/character.hpp
index a420dc4..887326e 100644
--- a/include/meevax/kernel/character.hpp
+++ b/include/meevax/kernel/character.hpp
@@ -153,7 +153,7 @@ namespace meevax::inline kernel
 
       constexpr auto is_whitespace() const noexcept
       {
-        return value == Zs;
+        return is_any_of(Zl, Zp, Zs);
       }
     };
 
@@ -236,6 +236,11 @@ namespace meevax::inline kernel
       }
     }
 
+    auto constexpr is_whitespace() const noexcept
+    {
+      return property().is_whitespace() or (0x09 <= codepoint and codepoint <= 0x0D) or codepoint == 0x85;
+    }
+
     auto utf8() const -> std::string;
 
     constexpr operator int_type() const
diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index 3b819ea..8870bd6 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -100,7 +100,7 @@ namespace meevax::inline kernel
       { "char-ci>=?",                    [](let const& xs) { return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, [](let const& a, let const& b) { return not (a.as<character>().downcase() >= b.as<character>().downcase()); }) == std::ranges::end(xs | as_proper_list)); } },
       { "char-alphabetic?",              [](let const& xs) { return make<bool>(car(xs).as<character>().property().is_letter()); } },
       { "char-numeric?",                 [](let const& xs) { return make<bool>(car(xs).as<character>().property().is_numeric()); } },
-      { "char-whitespace?",              [](let const& xs) { return make<bool>(car(xs).as<character>().property().is_whitespace()); } },
+      { "char-whitespace?",              [](let const& xs) { return make<bool>(car(xs).as<character>().is_whitespace()); } },
       { "char-upper-case?",              [](let const& xs) { return make<bool>(car(xs).as<character>().property().is_upper_case()); } },
       { "char-lower-case?",              [](let const& xs) { return make<bool>(car(xs).as<character>().property().is_lower_case()); } },
       { "digit-value",                   [](let const& xs) { if (auto digit_value = car(xs).as<character>().digit_value(); digit_value) { return make<small_integer>(*digit_value); } else { return f; } } },
-- 
2.43.0


From 9daff3105ec1b5625c1e9274813f85f4b5a94af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:29 +0000
Subject: [PATCH 28/40] fix: the null character is written as one byte

---
 src/kernel/character.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/kernel/character.cpp b/src/kernel/character.cpp
index 9914347..95718b6 100644
--- a/src/kernel/character.cpp
+++ b/src/kernel/character.cpp
@@ -26,7 +26,11 @@ namespace meevax::inline kernel
   {
     auto chars = std::array<char, 5>();
 
-    if (codepoint <= 0x7F)
+    if (codepoint == 0)
+    {
+      return std::string(1, '\0');
+    }
+    else if (codepoint <= 0x7F)
     {
       chars[0] = (codepoint & 0x7F);
     }
-- 
2.43.0


From 07a88cc6d517d7f467ec5df6fbaddf5d3bac0432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:39 +0000
Subject: [PATCH 29/40] fix: reading up to a character keeps characters beyond
 255, and the last line needs no newline

---
 include/meevax/kernel/textual_input_port.hpp | 16 ++++++----------
 src/kernel/string.cpp                        |  2 +-
 src/kernel/textual_input_port.cpp            | 17 +++++++++++------
 3 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/include/meevax/kernel/textual_input_port.hpp b/include/meevax/kernel/textual_input_port.hpp
index 0b06064..3b0eec7 100644
--- a/include/meevax/kernel/textual_input_port.hpp
+++ b/include/meevax/kernel/textual_input_port.hpp
@@ -85,26 +85,22 @@ namespace meevax::inline kernel
     auto take_character() -> character;
 
     template <typename F>
-    auto take_character_until(F satisfy, character c = {})
+    auto take_character_until(F satisfy, std::string s = {})
     {
-      auto s = c.utf8();
-
-      while (get_ready() and not satisfy(c = take_character()))
+      for (auto c = take_character(); not c.is_eof() and not satisfy(c); c = take_character())
       {
-        s += c;
+        s += c.utf8();
       }
 
       return s;
     }
 
     template <typename F>
-    auto take_character_while(F satisfy, character c = {})
+    auto take_character_while(F satisfy, std::string s = {})
     {
-      auto s = c.utf8();
-
-      while (get_ready() and satisfy(peek_character()))
+      for (auto c = peek_character(); not c.is_eof() and satisfy(c); c = peek_character())
       {
-        s += take_character();
+        s += take_character().utf8();
       }
 
       return s;
diff --git a/src/kernel/string.cpp b/src/kernel/string.cpp
index 2ce1822..8b812a7 100644
--- a/src/kernel/string.cpp
+++ b/src/kernel/string.cpp
@@ -56,7 +56,7 @@ namespace meevax::inline kernel
   {
     auto put = [&](character const& c) -> decltype(auto)
     {
-      if (std::isprint(c.codepoint))
+      if (character::is_ascii(c.codepoint) and std::isprint(c.codepoint))
       {
         switch (c.codepoint)
         {
diff --git a/src/kernel/textual_input_port.cpp b/src/kernel/textual_input_port.cpp
index fb3681e..581db35 100644
--- a/src/kernel/textual_input_port.cpp
+++ b/src/kernel/textual_input_port.cpp
@@ -155,13 +155,13 @@ namespace meevax::inline kernel
 
   auto textual_input_port::get_line() -> object
   {
-    if (auto s = take_character_until([](auto c) { return c == '\n'; }); at_end_of_file())
+    if (peek_character().is_eof())
     {
       return eof_object;
     }
     else
     {
-      return make<string>(s);
+      return make<string>(take_character_until([](auto c) { return c == '\n'; }));
     }
   }
 
@@ -186,6 +186,11 @@ namespace meevax::inline kernel
   {
     auto c = take_character();
 
+    if (c.is_eof())
+    {
+      return c;
+    }
+
     auto const s = c.utf8();
 
     for (auto iter = std::rbegin(s); iter != std::rend(s); ++iter)
@@ -200,7 +205,7 @@ namespace meevax::inline kernel
   {
     auto is_digit = [](auto c)
     {
-      return std::isdigit(c);
+      return character::is_ascii(c) and std::isdigit(c);
     };
 
     auto take_quoted = [this](character quotation_mark)
@@ -229,7 +234,7 @@ namespace meevax::inline kernel
 
           case '\n':
           case '\r':
-            take_character_while([](auto c) { return std::isspace(c); });
+            take_character_while([](auto c) { return character::is_ascii(c) and std::isspace(c); });
             break;
 
           default:
@@ -320,7 +325,7 @@ namespace meevax::inline kernel
         case '8':
         case '9':
           {
-            auto n = take_character_while(is_digit, c2);
+            auto n = take_character_while(is_digit, c2.utf8());
 
             switch (auto c = take_character())
             {
@@ -385,7 +390,7 @@ namespace meevax::inline kernel
           return number::exact(read()); // NOTE: Same as #,(exact (read))
 
         case 'f':
-          switch (std::stoi(take_character_while(is_digit, character('0'))))
+          switch (std::stoi(take_character_while(is_digit, "0")))
           {
           case 32:
             return make<f32vector>(read() | as_proper_list);
-- 
2.43.0


From cdb32ad20637fedf3a9eb3220b0dde65fc26ec93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:31 +0000
Subject: [PATCH 30/40] fix: only number->string, not write, marks inexact
 integers (the tests' output depends on write)

---
 include/meevax/memory/nan_boxing_pointer.hpp | 10 +---------
 src/kernel/number.cpp                        |  9 ++++++++-
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/include/meevax/memory/nan_boxing_pointer.hpp b/include/meevax/memory/nan_boxing_pointer.hpp
index b86b44c..640bacf 100644
--- a/include/meevax/memory/nan_boxing_pointer.hpp
+++ b/include/meevax/memory/nan_boxing_pointer.hpp
@@ -17,7 +17,6 @@
 #ifndef INCLUDED_MEEVAX_MEMORY_NAN_BOXING_POINTER_HPP
 #define INCLUDED_MEEVAX_MEMORY_NAN_BOXING_POINTER_HPP
 
-#include <algorithm>
 #include <bit>
 #include <charconv>
 #include <cmath>
@@ -281,14 +280,7 @@ namespace meevax::inline memory
         else
         {
           char buffer[48] = {};
-          auto end = std::to_chars(buffer, buffer + sizeof(buffer), value, std::chars_format::general).ptr;
-
-          if (std::none_of(buffer, end, [](auto c) { return c == '.' or c == 'e'; })) // Looks like an exact integer.
-          {
-            *end++ = '.';
-            *end++ = '0';
-          }
-
+          std::to_chars(buffer, buffer + sizeof(buffer), value, std::chars_format::general);
           return os << cyan(buffer);
         }
       }
diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index ede320a..1eb5b5f 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -925,7 +925,14 @@ namespace number
         default:
         case 10:
           {
-            return string(lexical_cast(make<T>(x)));
+            auto text = lexical_cast(make<T>(x));
+
+            if (text.find_first_of(".e") == std::string::npos) // Looks like an exact integer.
+            {
+              text += ".0";
+            }
+
+            return string(text);
           }
 
         case 16:
-- 
2.43.0


From 35b9f08ce395fc21a90c5cc95878aa6f019e8881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:58 +0000
Subject: [PATCH 31/40] =?UTF-8?q?fix:=20string-ci=3D=3F,=20string-ci<=3D?=
 =?UTF-8?q?=3F=20and=20the=20like=20compare=20whole=20strings?=

---
 src/kernel/boot.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index 8870bd6..65ba257 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -356,11 +356,11 @@ namespace meevax::inline kernel
       { "string>?",                      [](let const& xs) { auto compare = [](let const& a, let const& b) { return not (a.as<string>() >  b.as<string>()); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
       { "string<=?",                     [](let const& xs) { auto compare = [](let const& a, let const& b) { return not (a.as<string>() <= b.as<string>()); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
       { "string>=?",                     [](let const& xs) { auto compare = [](let const& a, let const& b) { return not (a.as<string>() >= b.as<string>()); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
-      { "string-ci=?",                   [](let const& xs) { auto compare = [](let const& s1, let const& s2) { auto compare = [](auto const& c1, auto const& c2) { return c1.downcase() == c2.downcase(); }; return not std::lexicographical_compare(s1.as<string>().characters.begin(), s1.as<string>().characters.end(), s2.as<string>().characters.begin(), s2.as<string>().characters.end(), compare); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
-      { "string-ci<?",                   [](let const& xs) { auto compare = [](let const& s1, let const& s2) { auto compare = [](auto const& c1, auto const& c2) { return c1.downcase() <  c2.downcase(); }; return not std::lexicographical_compare(s1.as<string>().characters.begin(), s1.as<string>().characters.end(), s2.as<string>().characters.begin(), s2.as<string>().characters.end(), compare); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
-      { "string-ci>?",                   [](let const& xs) { auto compare = [](let const& s1, let const& s2) { auto compare = [](auto const& c1, auto const& c2) { return c1.downcase() >  c2.downcase(); }; return not std::lexicographical_compare(s1.as<string>().characters.begin(), s1.as<string>().characters.end(), s2.as<string>().characters.begin(), s2.as<string>().characters.end(), compare); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
-      { "string-ci<=?",                  [](let const& xs) { auto compare = [](let const& s1, let const& s2) { auto compare = [](auto const& c1, auto const& c2) { return c1.downcase() <= c2.downcase(); }; return not std::lexicographical_compare(s1.as<string>().characters.begin(), s1.as<string>().characters.end(), s2.as<string>().characters.begin(), s2.as<string>().characters.end(), compare); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
-      { "string-ci>=?",                  [](let const& xs) { auto compare = [](let const& s1, let const& s2) { auto compare = [](auto const& c1, auto const& c2) { return c1.downcase() >= c2.downcase(); }; return not std::lexicographical_compare(s1.as<string>().characters.begin(), s1.as<string>().characters.end(), s2.as<string>().characters.begin(), s2.as<string>().characters.end(), compare); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
+      { "string-ci=?",                   [](let const& xs) { auto compare = [](let const& s1, let const& s2) { auto compare = [](auto const& c1, auto const& c2) { return c1.downcase() == c2.downcase(); }; return not std::ranges::equal(s1.as<string>().characters, s2.as<string>().characters, compare); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
+      { "string-ci<?",                   [](let const& xs) { auto compare = [](let const& s1, let const& s2) { auto compare = [](auto const& c1, auto const& c2) { return c1.downcase() < c2.downcase(); }; return not std::ranges::lexicographical_compare(s1.as<string>().characters, s2.as<string>().characters, compare); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
+      { "string-ci>?",                   [](let const& xs) { auto compare = [](let const& s1, let const& s2) { auto compare = [](auto const& c1, auto const& c2) { return c1.downcase() < c2.downcase(); }; return not std::ranges::lexicographical_compare(s2.as<string>().characters, s1.as<string>().characters, compare); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
+      { "string-ci<=?",                  [](let const& xs) { auto compare = [](let const& s1, let const& s2) { auto compare = [](auto const& c1, auto const& c2) { return c1.downcase() < c2.downcase(); }; return std::ranges::lexicographical_compare(s2.as<string>().characters, s1.as<string>().characters, compare); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
+      { "string-ci>=?",                  [](let const& xs) { auto compare = [](let const& s1, let const& s2) { auto compare = [](auto const& c1, auto const& c2) { return c1.downcase() < c2.downcase(); }; return std::ranges::lexicographical_compare(s1.as<string>().characters, s2.as<string>().characters, compare); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
       { "string-append",                 [](let const& xs) { let s = make<string>(); for (let const& x : xs | as_proper_list) { s.as<string>().characters.insert(s.as<string>().characters.end(), x.as<string>().characters.begin(), x.as<string>().characters.end()); } return s; } },
       { "string->list",                  [](let const& xs) { auto push = [](let const& xs, character const& c) { return cons(make<character>(c), xs); }; switch (length(xs)) { case 1: return std::accumulate(car(xs).as<string>().characters.rbegin(), car(xs).as<string>().characters.rend(), unit, push); case 2: return std::accumulate(car(xs).as<string>().characters.rbegin(), std::prev(car(xs).as<string>().characters.rend(), exact_integer_cast<std::size_t>(cadr(xs))), unit, push); case 3: return std::accumulate(std::prev(car(xs).as<string>().characters.rend(), exact_integer_cast<std::size_t>(caddr(xs))), std::prev(car(xs).as<string>().characters.rend(), exact_integer_cast<std::size_t>(cadr(xs))), unit, push); default: throw error(make<string>("procedure string->list takes one to three arugments, but got"), xs); } } },
       { "list->string",                  [](let const& xs) { return make<string>(car(xs) | as_proper_list); } },
-- 
2.43.0


From 4ff8c9f756f86a7aa0eaa62e44e4f0ee6ddbd0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:58 +0000
Subject: [PATCH 32/40] fix: string-copy!, vector-copy! and the like copy
 overlapping ranges correctly

---
 src/kernel/boot.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index 65ba257..bce5416 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -365,7 +365,7 @@ namespace meevax::inline kernel
       { "string->list",                  [](let const& xs) { auto push = [](let const& xs, character const& c) { return cons(make<character>(c), xs); }; switch (length(xs)) { case 1: return std::accumulate(car(xs).as<string>().characters.rbegin(), car(xs).as<string>().characters.rend(), unit, push); case 2: return std::accumulate(car(xs).as<string>().characters.rbegin(), std::prev(car(xs).as<string>().characters.rend(), exact_integer_cast<std::size_t>(cadr(xs))), unit, push); case 3: return std::accumulate(std::prev(car(xs).as<string>().characters.rend(), exact_integer_cast<std::size_t>(caddr(xs))), std::prev(car(xs).as<string>().characters.rend(), exact_integer_cast<std::size_t>(cadr(xs))), unit, push); default: throw error(make<string>("procedure string->list takes one to three arugments, but got"), xs); } } },
       { "list->string",                  [](let const& xs) { return make<string>(car(xs) | as_proper_list); } },
       { "string-copy",                   [](let const& xs) { switch (length(xs)) { case 1: return make<string>(car(xs).as<string>().characters.begin(), car(xs).as<string>().characters.end()); case 2: return make<string>(std::next(car(xs).as<string>().characters.begin(), exact_integer_cast<std::size_t>(cadr(xs))), car(xs).as<string>().characters.end()); case 3: return make<string>(std::next(car(xs).as<string>().characters.begin(), exact_integer_cast<std::size_t>(cadr(xs))), std::next(car(xs).as<string>().characters.begin(), exact_integer_cast<std::size_t>(caddr(xs)))); default: throw error(make<string>("procedure string-copy takes one to three arugments, but got"), xs); } } },
-      { "string-copy!",                  [](let const& xs) { car(xs).as<string>().characters.reserve(car(xs).as<string>().characters.size() + caddr(xs).as<string>().characters.size()); switch (length(xs)) { case 3: std::copy(caddr(xs).as<string>().characters.begin(), caddr(xs).as<string>().characters.end(), std::next(car(xs).as<string>().characters.begin(), exact_integer_cast<std::size_t>(cadr(xs)))); return unspecified; case 4: std::copy(std::next(caddr(xs).as<string>().characters.begin(), exact_integer_cast<std::size_t>(cadddr(xs))), caddr(xs).as<string>().characters.end(), std::next(car(xs).as<string>().characters.begin(), exact_integer_cast<std::size_t>(cadr(xs)))); return unspecified; case 5: std::copy(std::next(caddr(xs).as<string>().characters.begin(), exact_integer_cast<std::size_t>(cadddr(xs))), std::next(caddr(xs).as<string>().characters.begin(), exact_integer_cast<std::size_t>(caddddr(xs))), std::next(car(xs).as<string>().characters.begin(), exact_integer_cast<std::size_t>(cadr(xs)))); return unspecified; default: throw error(make<string>("procedure string-copy takes three to five arugments, but got"), xs); } } },
+      { "string-copy!",                  [](let const& xs) { auto copy = [&](auto begin, auto end) { auto const from = std::vector<character>(begin, end); std::copy(from.begin(), from.end(), std::next(car(xs).as<string>().characters.begin(), exact_integer_cast<std::size_t>(cadr(xs)))); }; switch (length(xs)) { case 3: copy(caddr(xs).as<string>().characters.begin(), caddr(xs).as<string>().characters.end()); return unspecified; case 4: copy(std::next(caddr(xs).as<string>().characters.begin(), exact_integer_cast<std::size_t>(cadddr(xs))), caddr(xs).as<string>().characters.end()); return unspecified; case 5: copy(std::next(caddr(xs).as<string>().characters.begin(), exact_integer_cast<std::size_t>(cadddr(xs))), std::next(caddr(xs).as<string>().characters.begin(), exact_integer_cast<std::size_t>(caddddr(xs)))); return unspecified; default: throw error(make<string>("procedure string-copy takes three to five arugments, but got"), xs); } } },
       { "string-fill!",                  [](let const& xs) { switch (length(xs)) { case 2: std::fill(car(xs).as_mutable<string>().characters.begin(), car(xs).as_mutable<string>().characters.end(), cadr(xs).as<character>()); return unspecified; case 3: std::fill(std::next(car(xs).as_mutable<string>().characters.begin(), exact_integer_cast<std::size_t>(caddr(xs))), car(xs).as_mutable<string>().characters.end(), cadr(xs).as<character>()); return unspecified; case 4: std::fill(std::next(car(xs).as_mutable<string>().characters.begin(), exact_integer_cast<std::size_t>(caddr(xs))), std::next(car(xs).as_mutable<string>().characters.begin(), exact_integer_cast<std::size_t>(cadddr(xs))), cadr(xs).as<character>()); return unspecified; default: throw error(make<string>("procedure string-fill! takes one to three arugments, but got"), xs); } } },
 
       { "symbol?",                       [](let const& xs) { return make<bool>(car(xs).is<symbol>()); } },
@@ -396,7 +396,7 @@ namespace meevax::inline kernel
       { "vector->string",                [](let const& xs) { let s = make<string>(); auto push_back = [&](let const& x) { s.as<string>().characters.push_back(x.as<character>()); }; switch (length(xs)) { case 1: std::for_each(car(xs).as<vector>().objects.begin(), car(xs).as<vector>().objects.end(), push_back); return s; case 2: std::for_each(std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs))), car(xs).as<vector>().objects.end(), push_back); return s; case 3: std::for_each(std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs))), std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(caddr(xs))), push_back); return s; default: throw error(make<string>("procedure vector->list takes one to three arugments, but got"), xs); } } },
       { "string->vector",                [](let const& xs) { let v = make<vector>(); for (auto c : car(xs).as<string>().characters) { v.as<vector>().objects.push_back(make<character>(c)); } return v; } },
       { "vector-copy",                   [](let const& xs) { switch (length(xs)) { case 1: return make<vector>(car(xs).as<vector>().objects.begin(), car(xs).as<vector>().objects.end()); case 2: return make<vector>(std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs))), car(xs).as<vector>().objects.end()); case 3: return make<vector>(std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs))), std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(caddr(xs)))); default: throw error(make<string>("procedure vector-copy takes one to three arugments, but got"), xs); } } },
-      { "vector-copy!",                  [](let const& xs) { car(xs).as<vector>().objects.reserve(car(xs).as<vector>().objects.size() + caddr(xs).as<vector>().objects.size()); switch (length(xs)) { case 3: std::copy(caddr(xs).as<vector>().objects.begin(), caddr(xs).as<vector>().objects.end(), std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs)))); return unspecified; case 4: std::copy(std::next(caddr(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadddr(xs))), caddr(xs).as<vector>().objects.end(), std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs)))); return unspecified; case 5: std::copy(std::next(caddr(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadddr(xs))), std::next(caddr(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(caddddr(xs))), std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs)))); return unspecified; default: throw error(make<string>("procedure vector-copy takes three to five arugments, but got"), xs); } } },
+      { "vector-copy!",                  [](let const& xs) { auto copy = [&](auto begin, auto end) { auto const from = std::vector<object>(begin, end); std::copy(from.begin(), from.end(), std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs)))); }; switch (length(xs)) { case 3: copy(caddr(xs).as<vector>().objects.begin(), caddr(xs).as<vector>().objects.end()); return unspecified; case 4: copy(std::next(caddr(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadddr(xs))), caddr(xs).as<vector>().objects.end()); return unspecified; case 5: copy(std::next(caddr(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadddr(xs))), std::next(caddr(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(caddddr(xs)))); return unspecified; default: throw error(make<string>("procedure vector-copy takes three to five arugments, but got"), xs); } } },
       { "vector-append",                 [](let const& xs) { let v = make<vector>(); for (let const& x : xs | as_proper_list) { v.as<vector>().objects.insert(v.as<vector>().objects.end(), x.as<vector>().objects.begin(), x.as<vector>().objects.end()); } return v; } },
       { "vector-fill!",                  [](let const& xs) { switch (length(xs)) { case 2: std::fill(car(xs).as_mutable<vector>().objects.begin(), car(xs).as_mutable<vector>().objects.end(), cadr(xs)); return unspecified; case 3: std::fill(std::next(car(xs).as_mutable<vector>().objects.begin(), exact_integer_cast<std::size_t>(caddr(xs))), car(xs).as_mutable<vector>().objects.end(), cadr(xs)); return unspecified; case 4: std::fill(std::next(car(xs).as_mutable<vector>().objects.begin(), exact_integer_cast<std::size_t>(caddr(xs))), std::next(car(xs).as_mutable<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadddr(xs))), cadr(xs)); return unspecified; default: return unspecified; } } },
 
@@ -408,7 +408,7 @@ namespace meevax::inline kernel
       { #TAG "vector-ref",               [](let const& xs) { return TAG##vector::output_cast(car(xs).as<TAG##vector>().values[exact_integer_cast<std::size_t>(cadr(xs))]); } }, \
       { #TAG "vector-set!",              [](let const& xs) { car(xs).as<TAG##vector>().values[exact_integer_cast<std::size_t>(cadr(xs))] = TAG##vector::input_cast(caddr(xs)); return unspecified; } }, \
       { #TAG "vector-copy",              [](let const& xs) { auto copy = [&](std::size_t begin, std::size_t end) { assert(begin <= end); return make<TAG##vector>(car(xs).as<TAG##vector>().values[std::slice(begin, end - begin, 1)]); }; switch (length(xs)) { case 1: return copy(0, car(xs).as<TAG##vector>().values.size()); case 2: return copy(exact_integer_cast<std::size_t>(cadr(xs)), car(xs).as<TAG##vector>().values.size()); case 3: return copy(exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(caddr(xs))); default: throw error(make<string>("procedure " #TAG "vector-copy takes one to three arguments, but got"), xs); } } }, \
-      { #TAG "vector-copy!",             [](let const& xs) { auto copy = [&](std::size_t at, std::size_t begin, std::size_t end) { assert(begin <= end); auto i = std::slice(at, end - begin, 1); auto j = std::slice(begin, end - begin, 1); car(xs).as_mutable<TAG##vector>().values[i] = caddr(xs).as<TAG##vector>().values[j]; }; switch (length(xs)) { case 3: copy(exact_integer_cast<std::size_t>(cadr(xs)), 0, caddr(xs).as<TAG##vector>().values.size()); return unspecified; case 4: copy(exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(cadddr(xs)), caddr(xs).as<TAG##vector>().values.size()); return unspecified; case 5: copy(exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(cadddr(xs)), exact_integer_cast<std::size_t>(caddddr(xs))); return unspecified; default: throw error(make<string>("procedure " #TAG "vector-copy! takes three to five arguments, but got"), xs); } } }, \
+      { #TAG "vector-copy!",             [](let const& xs) { auto copy = [&](std::size_t at, std::size_t begin, std::size_t end) { assert(begin <= end); auto i = std::slice(at, end - begin, 1); auto j = std::slice(begin, end - begin, 1); car(xs).as_mutable<TAG##vector>().values[i] = TAG##vector::values_type(caddr(xs).as<TAG##vector>().values[j]); }; switch (length(xs)) { case 3: copy(exact_integer_cast<std::size_t>(cadr(xs)), 0, caddr(xs).as<TAG##vector>().values.size()); return unspecified; case 4: copy(exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(cadddr(xs)), caddr(xs).as<TAG##vector>().values.size()); return unspecified; case 5: copy(exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(cadddr(xs)), exact_integer_cast<std::size_t>(caddddr(xs))); return unspecified; default: throw error(make<string>("procedure " #TAG "vector-copy! takes three to five arguments, but got"), xs); } } }, \
       { #TAG "vector-append",            [](let const& xs) { auto const& a = car(xs).as<TAG##vector>(); auto const& b = cadr(xs).as<TAG##vector>(); let const c = make<TAG##vector>(a.values.size() + b.values.size()); c.as<TAG##vector>().values[std::slice(0, a.values.size(), 1)] = a.values; c.as<TAG##vector>().values[std::slice(a.values.size(), b.values.size(), 1)] = b.values; return c; } }, \
       { #TAG "vector->list",             [](let const& xs) { auto list = [](auto&& v, auto&& a, auto&& b) { auto xcons = [](auto&& x, auto&& y) { return cons(TAG##vector::output_cast(y), x); }; return reverse(std::accumulate(std::next(std::begin(v), a), std::next(std::begin(v), b), unit, xcons)); }; switch (length(xs)) { case 1: return list(car(xs).as<TAG##vector>().values, 0, car(xs).as<TAG##vector>().values.size()); case 2: return list(car(xs).as<TAG##vector>().values, exact_integer_cast<std::size_t>(cadr(xs)), car(xs).as<TAG##vector>().values.size()); case 3: return list(car(xs).as<TAG##vector>().values, exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(caddr(xs))); default: throw error(make<string>("procedure " #TAG "vector->list takes one to three arguments, but got"), xs); } } }, \
       { "list->" #TAG "vector",          [](let const& xs) { return make<TAG##vector>(car(xs) | as_proper_list); } }
-- 
2.43.0


From a9307f47af738d2a7f4d22584f7fd8c9eb8b0d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:58 +0000
Subject: [PATCH 33/40] fix: vector-ref and vector-set! check the index

---
 src/kernel/boot.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index bce5416..0214157 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -389,8 +389,8 @@ namespace meevax::inline kernel
       { "vector",                        [](let const& xs) { return make<vector>(xs | as_proper_list); } },
       { "make-vector",                   [](let const& xs) { switch (length(xs)) { case 1: return make<vector>(exact_integer_cast<std::size_t>(car(xs)), unspecified); case 2: return make<vector>(exact_integer_cast<std::size_t>(car(xs)), cadr(xs)); default: throw error(make<string>("procedure make-vector takes one or two arugments, but got"), xs); } } },
       { "vector-length",                 [](let const& xs) { return make<small_integer>(static_cast<small_integer>(car(xs).as<vector>().objects.size())); } },
-      { "vector-ref",                    [](let const& xs) { return car(xs).as<vector>().objects[exact_integer_cast<std::size_t>(cadr(xs))]; } },
-      { "vector-set!",                   [](let const& xs) { car(xs).as_mutable<vector>().objects[exact_integer_cast<std::size_t>(cadr(xs))] = caddr(xs); return unspecified; } },
+      { "vector-ref",                    [](let const& xs) { return car(xs).as<vector>().objects.at(exact_integer_cast<std::size_t>(cadr(xs))); } },
+      { "vector-set!",                   [](let const& xs) { car(xs).as_mutable<vector>().objects.at(exact_integer_cast<std::size_t>(cadr(xs))) = caddr(xs); return unspecified; } },
       { "vector->list",                  [](let const& xs) { switch (length(xs)) { case 1: return std::accumulate(car(xs).as<vector>().objects.rbegin(), car(xs).as<vector>().objects.rend(), unit, xcons); case 2: return std::accumulate(car(xs).as<vector>().objects.rbegin(), std::prev(car(xs).as<vector>().objects.rend(), exact_integer_cast<std::size_t>(cadr(xs))), unit, xcons); case 3: return std::accumulate(std::prev(car(xs).as<vector>().objects.rend(), exact_integer_cast<std::size_t>(caddr(xs))), std::prev(car(xs).as<vector>().objects.rend(), exact_integer_cast<std::size_t>(cadr(xs))), unit, xcons); default: throw error(make<string>("procedure vector->list takes one to three arugments, but got"), xs); } } },
       { "list->vector",                  [](let const& xs) { return make<vector>(car(xs) | as_proper_list); } },
       { "vector->string",                [](let const& xs) { let s = make<string>(); auto push_back = [&](let const& x) { s.as<string>().characters.push_back(x.as<character>()); }; switch (length(xs)) { case 1: std::for_each(car(xs).as<vector>().objects.begin(), car(xs).as<vector>().objects.end(), push_back); return s; case 2: std::for_each(std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs))), car(xs).as<vector>().objects.end(), push_back); return s; case 3: std::for_each(std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs))), std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(caddr(xs))), push_back); return s; default: throw error(make<string>("procedure vector->list takes one to three arugments, but got"), xs); } } },
-- 
2.43.0


From 9a2bbeb6b88eba7b10a8902621f5e89ee7c78f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:18 +0000
Subject: [PATCH 34/40] fix: utf8->string of an empty bytevector is the empty
 string

---
 src/kernel/boot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index 0214157..258d855 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -417,7 +417,7 @@ namespace meevax::inline kernel
       REGISTER_VECTOR(u8), REGISTER_VECTOR(u16), REGISTER_VECTOR(u32), REGISTER_VECTOR(u64),
                                                  REGISTER_VECTOR(f32), REGISTER_VECTOR(f64),
 
-      { "u8vector->string",              [](let const& xs) { auto buffer = std::ostringstream(); auto print = [&](auto const& x) { buffer << x; }; switch (length(xs)) { case 1: std::for_each(std::begin(car(xs).as<u8vector>().values), std::end(car(xs).as<u8vector>().values), print); break; case 2: std::for_each(std::next(std::begin(car(xs).as<u8vector>().values), exact_integer_cast<std::size_t>(cadr(xs))), std::end(car(xs).as<u8vector>().values), print); break; case 3: std::for_each(std::next(std::begin(car(xs).as<u8vector>().values), exact_integer_cast<std::size_t>(cadr(xs))), std::next(std::begin(car(xs).as<u8vector>().values), exact_integer_cast<std::size_t>(caddr(xs))), print); break; default: throw error(make<string>("procedure u8vector->string takes one to three arguments, but got"), xs); } return input_string_port(buffer.str()).get(std::numeric_limits<std::size_t>::max()); } },
+      { "u8vector->string",              [](let const& xs) { auto buffer = std::ostringstream(); auto print = [&](auto const& x) { buffer << x; }; switch (length(xs)) { case 1: std::for_each(std::begin(car(xs).as<u8vector>().values), std::end(car(xs).as<u8vector>().values), print); break; case 2: std::for_each(std::next(std::begin(car(xs).as<u8vector>().values), exact_integer_cast<std::size_t>(cadr(xs))), std::end(car(xs).as<u8vector>().values), print); break; case 3: std::for_each(std::next(std::begin(car(xs).as<u8vector>().values), exact_integer_cast<std::size_t>(cadr(xs))), std::next(std::begin(car(xs).as<u8vector>().values), exact_integer_cast<std::size_t>(caddr(xs))), print); break; default: throw error(make<string>("procedure u8vector->string takes one to three arguments, but got"), xs); } std::string const utf8 = buffer.str(); return make<string>(utf8); } },
       { "string->u8vector",              [](let const& xs) { auto convert = [](std::string const& s) { return make<u8vector>(reinterpret_cast<std::uint8_t const*>(s.data()), s.size()); }; return convert(car(xs).as<string>().utf8()); } },
 
       { "put-char",                      [](let const& xs) { cadr(xs).as<textual_output_port>().put(car(xs).as<character>()); return unspecified; } },
-- 
2.43.0


From 3e103c4fa883a3ff7e0a7020d90189a9cac8e10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:18 +0000
Subject: [PATCH 35/40] fix: string->vector and string->utf8 respect their
 start and end arguments

---
 src/kernel/boot.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index 258d855..18a150a 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -394,7 +394,7 @@ namespace meevax::inline kernel
       { "vector->list",                  [](let const& xs) { switch (length(xs)) { case 1: return std::accumulate(car(xs).as<vector>().objects.rbegin(), car(xs).as<vector>().objects.rend(), unit, xcons); case 2: return std::accumulate(car(xs).as<vector>().objects.rbegin(), std::prev(car(xs).as<vector>().objects.rend(), exact_integer_cast<std::size_t>(cadr(xs))), unit, xcons); case 3: return std::accumulate(std::prev(car(xs).as<vector>().objects.rend(), exact_integer_cast<std::size_t>(caddr(xs))), std::prev(car(xs).as<vector>().objects.rend(), exact_integer_cast<std::size_t>(cadr(xs))), unit, xcons); default: throw error(make<string>("procedure vector->list takes one to three arugments, but got"), xs); } } },
       { "list->vector",                  [](let const& xs) { return make<vector>(car(xs) | as_proper_list); } },
       { "vector->string",                [](let const& xs) { let s = make<string>(); auto push_back = [&](let const& x) { s.as<string>().characters.push_back(x.as<character>()); }; switch (length(xs)) { case 1: std::for_each(car(xs).as<vector>().objects.begin(), car(xs).as<vector>().objects.end(), push_back); return s; case 2: std::for_each(std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs))), car(xs).as<vector>().objects.end(), push_back); return s; case 3: std::for_each(std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs))), std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(caddr(xs))), push_back); return s; default: throw error(make<string>("procedure vector->list takes one to three arugments, but got"), xs); } } },
-      { "string->vector",                [](let const& xs) { let v = make<vector>(); for (auto c : car(xs).as<string>().characters) { v.as<vector>().objects.push_back(make<character>(c)); } return v; } },
+      { "string->vector",                [](let const& xs) { let v = make<vector>(); auto push_back = [&](auto const& c) { v.as<vector>().objects.push_back(make<character>(c)); }; auto const& characters = car(xs).as<string>().characters; switch (length(xs)) { case 1: std::for_each(characters.begin(), characters.end(), push_back); return v; case 2: std::for_each(std::next(characters.begin(), exact_integer_cast<std::size_t>(cadr(xs))), characters.end(), push_back); return v; case 3: std::for_each(std::next(characters.begin(), exact_integer_cast<std::size_t>(cadr(xs))), std::next(characters.begin(), exact_integer_cast<std::size_t>(caddr(xs))), push_back); return v; default: throw error(make<string>("procedure string->vector takes one to three arguments, but got"), xs); } } },
       { "vector-copy",                   [](let const& xs) { switch (length(xs)) { case 1: return make<vector>(car(xs).as<vector>().objects.begin(), car(xs).as<vector>().objects.end()); case 2: return make<vector>(std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs))), car(xs).as<vector>().objects.end()); case 3: return make<vector>(std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs))), std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(caddr(xs)))); default: throw error(make<string>("procedure vector-copy takes one to three arugments, but got"), xs); } } },
       { "vector-copy!",                  [](let const& xs) { auto copy = [&](auto begin, auto end) { auto const from = std::vector<object>(begin, end); std::copy(from.begin(), from.end(), std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs)))); }; switch (length(xs)) { case 3: copy(caddr(xs).as<vector>().objects.begin(), caddr(xs).as<vector>().objects.end()); return unspecified; case 4: copy(std::next(caddr(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadddr(xs))), caddr(xs).as<vector>().objects.end()); return unspecified; case 5: copy(std::next(caddr(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadddr(xs))), std::next(caddr(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(caddddr(xs)))); return unspecified; default: throw error(make<string>("procedure vector-copy takes three to five arugments, but got"), xs); } } },
       { "vector-append",                 [](let const& xs) { let v = make<vector>(); for (let const& x : xs | as_proper_list) { v.as<vector>().objects.insert(v.as<vector>().objects.end(), x.as<vector>().objects.begin(), x.as<vector>().objects.end()); } return v; } },
@@ -418,7 +418,7 @@ namespace meevax::inline kernel
                                                  REGISTER_VECTOR(f32), REGISTER_VECTOR(f64),
 
       { "u8vector->string",              [](let const& xs) { auto buffer = std::ostringstream(); auto print = [&](auto const& x) { buffer << x; }; switch (length(xs)) { case 1: std::for_each(std::begin(car(xs).as<u8vector>().values), std::end(car(xs).as<u8vector>().values), print); break; case 2: std::for_each(std::next(std::begin(car(xs).as<u8vector>().values), exact_integer_cast<std::size_t>(cadr(xs))), std::end(car(xs).as<u8vector>().values), print); break; case 3: std::for_each(std::next(std::begin(car(xs).as<u8vector>().values), exact_integer_cast<std::size_t>(cadr(xs))), std::next(std::begin(car(xs).as<u8vector>().values), exact_integer_cast<std::size_t>(caddr(xs))), print); break; default: throw error(make<string>("procedure u8vector->string takes one to three arguments, but got"), xs); } std::string const utf8 = buffer.str(); return make<string>(utf8); } },
-      { "string->u8vector",              [](let const& xs) { auto convert = [](std::string const& s) { return make<u8vector>(reinterpret_cast<std::uint8_t const*>(s.data()), s.size()); }; return convert(car(xs).as<string>().utf8()); } },
+      { "string->u8vector",              [](let const& xs) { auto convert = [](std::string const& s) { return make<u8vector>(reinterpret_cast<std::uint8_t const*>(s.data()), s.size()); }; auto const& characters = car(xs).as<string>().characters; switch (length(xs)) { case 1: return convert(car(xs).as<string>().utf8()); case 2: return convert(string(std::next(characters.begin(), exact_integer_cast<std::size_t>(cadr(xs))), characters.end()).utf8()); case 3: return convert(string(std::next(characters.begin(), exact_integer_cast<std::size_t>(cadr(xs))), std::next(characters.begin(), exact_integer_cast<std::size_t>(caddr(xs)))).utf8()); default: throw error(make<string>("procedure string->u8vector takes one to three arguments, but got"), xs); } } },
 
       { "put-char",                      [](let const& xs) { cadr(xs).as<textual_output_port>().put(car(xs).as<character>()); return unspecified; } },
       { "put-string",                    [](let const& xs) { cadr(xs).as<textual_output_port>().put(car(xs).as<string>()); return unspecified; } },
-- 
2.43.0


From d23bcc41b25b7a5a189c4ce5ecc49fa51ff23abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:18 +0000
Subject: [PATCH 36/40] fix: bytevector-append and the like take any number of
 arguments

---
 src/kernel/boot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index 18a150a..48d27d7 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -409,7 +409,7 @@ namespace meevax::inline kernel
       { #TAG "vector-set!",              [](let const& xs) { car(xs).as<TAG##vector>().values[exact_integer_cast<std::size_t>(cadr(xs))] = TAG##vector::input_cast(caddr(xs)); return unspecified; } }, \
       { #TAG "vector-copy",              [](let const& xs) { auto copy = [&](std::size_t begin, std::size_t end) { assert(begin <= end); return make<TAG##vector>(car(xs).as<TAG##vector>().values[std::slice(begin, end - begin, 1)]); }; switch (length(xs)) { case 1: return copy(0, car(xs).as<TAG##vector>().values.size()); case 2: return copy(exact_integer_cast<std::size_t>(cadr(xs)), car(xs).as<TAG##vector>().values.size()); case 3: return copy(exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(caddr(xs))); default: throw error(make<string>("procedure " #TAG "vector-copy takes one to three arguments, but got"), xs); } } }, \
       { #TAG "vector-copy!",             [](let const& xs) { auto copy = [&](std::size_t at, std::size_t begin, std::size_t end) { assert(begin <= end); auto i = std::slice(at, end - begin, 1); auto j = std::slice(begin, end - begin, 1); car(xs).as_mutable<TAG##vector>().values[i] = TAG##vector::values_type(caddr(xs).as<TAG##vector>().values[j]); }; switch (length(xs)) { case 3: copy(exact_integer_cast<std::size_t>(cadr(xs)), 0, caddr(xs).as<TAG##vector>().values.size()); return unspecified; case 4: copy(exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(cadddr(xs)), caddr(xs).as<TAG##vector>().values.size()); return unspecified; case 5: copy(exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(cadddr(xs)), exact_integer_cast<std::size_t>(caddddr(xs))); return unspecified; default: throw error(make<string>("procedure " #TAG "vector-copy! takes three to five arguments, but got"), xs); } } }, \
-      { #TAG "vector-append",            [](let const& xs) { auto const& a = car(xs).as<TAG##vector>(); auto const& b = cadr(xs).as<TAG##vector>(); let const c = make<TAG##vector>(a.values.size() + b.values.size()); c.as<TAG##vector>().values[std::slice(0, a.values.size(), 1)] = a.values; c.as<TAG##vector>().values[std::slice(a.values.size(), b.values.size(), 1)] = b.values; return c; } }, \
+      { #TAG "vector-append",            [](let const& xs) { auto size = std::size_t(0); for (let const& x : xs | as_proper_list) { size += x.as<TAG##vector>().values.size(); } let const v = make<TAG##vector>(size); auto output = std::begin(v.as<TAG##vector>().values); for (let const& x : xs | as_proper_list) { output = std::copy(std::begin(x.as<TAG##vector>().values), std::end(x.as<TAG##vector>().values), output); } return v; } }, \
       { #TAG "vector->list",             [](let const& xs) { auto list = [](auto&& v, auto&& a, auto&& b) { auto xcons = [](auto&& x, auto&& y) { return cons(TAG##vector::output_cast(y), x); }; return reverse(std::accumulate(std::next(std::begin(v), a), std::next(std::begin(v), b), unit, xcons)); }; switch (length(xs)) { case 1: return list(car(xs).as<TAG##vector>().values, 0, car(xs).as<TAG##vector>().values.size()); case 2: return list(car(xs).as<TAG##vector>().values, exact_integer_cast<std::size_t>(cadr(xs)), car(xs).as<TAG##vector>().values.size()); case 3: return list(car(xs).as<TAG##vector>().values, exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(caddr(xs))); default: throw error(make<string>("procedure " #TAG "vector->list takes one to three arguments, but got"), xs); } } }, \
       { "list->" #TAG "vector",          [](let const& xs) { return make<TAG##vector>(car(xs) | as_proper_list); } }
 
-- 
2.43.0


From 7b1e41e7d6542b45cb7bb113d0125843515c1b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:18 +0000
Subject: [PATCH 37/40] fix: read-bytevector returns the bytes left before the
 end of file, and peek-u8 of a file the end of file object

---
 include/meevax/kernel/input_homogeneous_vector_port.hpp | 3 ++-
 src/kernel/binary_input_file_port.cpp                   | 8 ++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/meevax/kernel/input_homogeneous_vector_port.hpp b/include/meevax/kernel/input_homogeneous_vector_port.hpp
index e3e86e7..142a9fc 100644
--- a/include/meevax/kernel/input_homogeneous_vector_port.hpp
+++ b/include/meevax/kernel/input_homogeneous_vector_port.hpp
@@ -53,12 +53,13 @@ namespace meevax::inline kernel
 
     auto get(std::size_t size) -> object override
     {
-      if (deque.size() < size)
+      if (deque.empty() and 0 < size)
       {
         return eof_object;
       }
       else
       {
+        size = std::min(size, deque.size());
         let const v =  make<homogeneous_vector<T>>(size);
         std::copy(deque.begin(), std::next(deque.begin(), size), std::begin(v.as<homogeneous_vector<T>>().values));
         deque.erase(deque.begin(), std::next(deque.begin(), size));
diff --git a/src/kernel/binary_input_file_port.cpp b/src/kernel/binary_input_file_port.cpp
index de8c9e5..ac68b1b 100644
--- a/src/kernel/binary_input_file_port.cpp
+++ b/src/kernel/binary_input_file_port.cpp
@@ -48,6 +48,10 @@ namespace meevax::inline kernel
     {
       return make<u8vector>(buffer.data(), buffer.size());
     }
+    else if (ifstream.gcount() == 0)
+    {
+      return eof_object;
+    }
     else
     {
       buffer.resize(ifstream.gcount());
@@ -62,9 +66,9 @@ namespace meevax::inline kernel
 
   auto binary_input_file_port::peek() -> object
   {
-    if (get_ready())
+    if (auto c = ifstream.peek(); c != std::ifstream::traits_type::eof())
     {
-      return make<small_integer>(ifstream.peek());
+      return make<small_integer>(c);
     }
     else
     {
-- 
2.43.0


From 4f56f1fc688a5cc2e40b85c5dac2420adab61f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:18 +0000
Subject: [PATCH 38/40] fix: read-bytevector! returns the number of bytes read

---
 library/r7rs.ss | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/library/r7rs.ss b/library/r7rs.ss
index 209a5bf..4a51f30 100644
--- a/library/r7rs.ss
+++ b/library/r7rs.ss
@@ -311,7 +311,8 @@
                                           (current-input-port)))))
              (if (eof-object? v)
                  (eof-object)
-                 (bytevector-copy! x start v))))
+                 (begin (bytevector-copy! x start v)
+                        (bytevector-length v)))))
 
          (define (write-char x . xs)
            (%put-char x (if (pair? xs)
-- 
2.43.0


From bff8a89e5a52b19cec9653f3d1616ca082789c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:14 +0000
Subject: [PATCH 39/40] fix: bytevector-u8-ref, bytevector-u8-set! and the like
 check the index

---
 include/meevax/kernel/homogeneous_vector.hpp | 10 ++++++++++
 src/kernel/boot.cpp                          |  4 ++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/meevax/kernel/homogeneous_vector.hpp b/include/meevax/kernel/homogeneous_vector.hpp
index b3e2d9f..15563e3 100644
--- a/include/meevax/kernel/homogeneous_vector.hpp
+++ b/include/meevax/kernel/homogeneous_vector.hpp
@@ -48,6 +48,16 @@ namespace meevax::inline kernel
       }
     }
 
+    auto at(std::size_t i) -> T &
+    {
+      if (values.size() <= i)
+      {
+        throw error(make<string>(tag() + "vector index out of range"), make<small_integer>(static_cast<small_integer>(i)));
+      }
+
+      return values[i];
+    }
+
     static auto tag() -> auto const&
     {
       auto static const tag = (std::is_integral_v<T> ? std::is_signed_v<T> ? "s" : "u" : "f") + std::to_string(sizeof(T) * CHAR_BIT);
diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index 48d27d7..898a2f4 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -405,8 +405,8 @@ namespace meevax::inline kernel
       { "make-" #TAG "vector",           [](let const& xs) { switch (length(xs)) { case 1: return make<TAG##vector>(static_cast<TAG##vector::values_type::value_type>(0), exact_integer_cast<std::size_t>(car(xs))); case 2: return make<TAG##vector>(TAG##vector::input_cast(cadr(xs)), exact_integer_cast<std::size_t>(car(xs))); default: throw error(make<string>("procedure make-" #TAG "vector takes one or two arguments, but got"), xs); } } }, \
       { #TAG "vector",                   [](let const& xs) { return make<TAG##vector>(xs | as_proper_list); } }, \
       { #TAG "vector-length",            [](let const& xs) { return make<small_integer>(static_cast<small_integer>(car(xs).as<TAG##vector>().values.size())); } }, \
-      { #TAG "vector-ref",               [](let const& xs) { return TAG##vector::output_cast(car(xs).as<TAG##vector>().values[exact_integer_cast<std::size_t>(cadr(xs))]); } }, \
-      { #TAG "vector-set!",              [](let const& xs) { car(xs).as<TAG##vector>().values[exact_integer_cast<std::size_t>(cadr(xs))] = TAG##vector::input_cast(caddr(xs)); return unspecified; } }, \
+      { #TAG "vector-ref",               [](let const& xs) { return TAG##vector::output_cast(car(xs).as<TAG##vector>().at(exact_integer_cast<std::size_t>(cadr(xs)))); } }, \
+      { #TAG "vector-set!",              [](let const& xs) { car(xs).as<TAG##vector>().at(exact_integer_cast<std::size_t>(cadr(xs))) = TAG##vector::input_cast(caddr(xs)); return unspecified; } }, \
       { #TAG "vector-copy",              [](let const& xs) { auto copy = [&](std::size_t begin, std::size_t end) { assert(begin <= end); return make<TAG##vector>(car(xs).as<TAG##vector>().values[std::slice(begin, end - begin, 1)]); }; switch (length(xs)) { case 1: return copy(0, car(xs).as<TAG##vector>().values.size()); case 2: return copy(exact_integer_cast<std::size_t>(cadr(xs)), car(xs).as<TAG##vector>().values.size()); case 3: return copy(exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(caddr(xs))); default: throw error(make<string>("procedure " #TAG "vector-copy takes one to three arguments, but got"), xs); } } }, \
       { #TAG "vector-copy!",             [](let const& xs) { auto copy = [&](std::size_t at, std::size_t begin, std::size_t end) { assert(begin <= end); auto i = std::slice(at, end - begin, 1); auto j = std::slice(begin, end - begin, 1); car(xs).as_mutable<TAG##vector>().values[i] = TAG##vector::values_type(caddr(xs).as<TAG##vector>().values[j]); }; switch (length(xs)) { case 3: copy(exact_integer_cast<std::size_t>(cadr(xs)), 0, caddr(xs).as<TAG##vector>().values.size()); return unspecified; case 4: copy(exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(cadddr(xs)), caddr(xs).as<TAG##vector>().values.size()); return unspecified; case 5: copy(exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(cadddr(xs)), exact_integer_cast<std::size_t>(caddddr(xs))); return unspecified; default: throw error(make<string>("procedure " #TAG "vector-copy! takes three to five arguments, but got"), xs); } } }, \
       { #TAG "vector-append",            [](let const& xs) { auto size = std::size_t(0); for (let const& x : xs | as_proper_list) { size += x.as<TAG##vector>().values.size(); } let const v = make<TAG##vector>(size); auto output = std::begin(v.as<TAG##vector>().values); for (let const& x : xs | as_proper_list) { output = std::copy(std::begin(x.as<TAG##vector>().values), std::end(x.as<TAG##vector>().values), output); } return v; } }, \
-- 
2.43.0


From 4b6bc400a9d4160a52f04b3a8b39fc8e65de968d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:08 +0000
Subject: [PATCH 40/40] fix: the rest of a sequence is compiled into the
 continuation of its first expression

---
 src/kernel/generator.cpp | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/kernel/generator.cpp b/src/kernel/generator.cpp
index 54869fb..72d5723 100644
--- a/src/kernel/generator.cpp
+++ b/src/kernel/generator.cpp
@@ -203,19 +203,24 @@ namespace meevax::inline kernel
          macro is used (the evaluation order of function arguments in C++
          is not specified, but in most environments they are evaluated from
          right to left). Therefore, the first expression is compiled
-         separately and then combined with the compiled result of the
-         remaining expressions by append.
+         separately, with a continuation that is completed with the compiled
+         result of the remaining expressions afterwards. Note that the
+         compiled result of an expression may refer to its continuation from
+         other than its end (see call-with-current-continuation!).
       */
-      let const& head = generator.generate(car(form), // Head expression or definition
-                                           bound_variables,
-                                           unit);
-      return append(head,
-                    cons(make<instruction>(instruction::secd_drop), // Pop result of head expression
-                         sequence(generator,
-                                  cdr(form), // Rest expression or definitions
-                                  bound_variables,
-                                  continuation,
-                                  tail)));
+      let rest = list(make<instruction>(instruction::secd_drop)); // Pop result of head expression
+
+      let const head = generator.generate(car(form), // Head expression or definition
+                                          bound_variables,
+                                          rest);
+
+      cdr(rest) = sequence(generator,
+                           cdr(form), // Rest expression or definitions
+                           bound_variables,
+                           continuation,
+                           tail);
+
+      return head;
     }
   }
 
-- 
2.43.0

