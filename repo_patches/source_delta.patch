From 715c70d5094095151303e3c21b8c41973487cbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:06 +0000
Subject: [PATCH 01/12] fix: safe addition and subtraction of undefined
 fractions divide by zero

---
 include/ieme/ops.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/ieme/ops.hpp b/include/ieme/ops.hpp
index 6feaece..f4b8a1b 100644
--- a/include/ieme/ops.hpp
+++ b/include/ieme/ops.hpp
@@ -550,6 +550,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep> safe::plus(raw_fraction<Rep> const& left,
                                        raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(left) || is_undefined(right))
+    return {_0<Rep>, _0<Rep>};
+
   auto const lcm = std::lcm(left.denominator, right.denominator);
 
   return {lcm / left.denominator * left.numerator
@@ -575,6 +578,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep> safe::minus(raw_fraction<Rep> const& left,
                                         raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(left) || is_undefined(right))
+    return {_0<Rep>, _0<Rep>};
+
   auto const lcm = std::lcm(left.denominator, right.denominator);
 
   return {lcm / left.denominator * left.numerator
-- 
2.43.0


From dde05b3fd781e6fc6d74d903dc84e3f2d69c3b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:06 +0000
Subject: [PATCH 02/12] fix: modulus by zero or with an undefined operand
 divides by zero

---
 include/ieme/ops.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/ieme/ops.hpp b/include/ieme/ops.hpp
index f4b8a1b..05b087d 100644
--- a/include/ieme/ops.hpp
+++ b/include/ieme/ops.hpp
@@ -653,6 +653,9 @@ constexpr raw_fraction<Rep>
 safe::modulus(raw_fraction<Rep> const& left,
               raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(left) || is_undefined(right) || is_zero(right))
+    return {_0<Rep>, _0<Rep>};
+
   auto const lcm = std::lcm(left.denominator, right.denominator);
 
   return {(lcm / left.denominator * left.numerator)
@@ -664,6 +667,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep> safe::modulus(raw_fraction<Rep> const& left,
                                           Rep const& right) noexcept
 {
+  if (is_undefined(left) || right == _0<Rep>)
+    return {_0<Rep>, _0<Rep>};
+
   return {left.numerator % (left.denominator * right), left.denominator};
 }
 
@@ -671,6 +677,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep>
 safe::modulus(Rep const& left, raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(right) || is_zero(right))
+    return {_0<Rep>, _0<Rep>};
+
   return {(right.denominator * left) % right.numerator, right.denominator};
 }
 
@@ -923,6 +932,9 @@ constexpr raw_fraction<Rep>
 fast::modulus(raw_fraction<Rep> const& left,
               raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(left) || is_undefined(right) || is_zero(right))
+    return {_0<Rep>, _0<Rep>};
+
   return {(left.numerator * right.denominator)
             % (right.numerator * left.denominator),
           left.denominator * right.denominator};
@@ -932,6 +944,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep> fast::modulus(raw_fraction<Rep> const& left,
                                           Rep const& right) noexcept
 {
+  if (is_undefined(left) || right == _0<Rep>)
+    return {_0<Rep>, _0<Rep>};
+
   return {left.numerator % (right * left.denominator), left.denominator};
 }
 
@@ -939,6 +954,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep>
 fast::modulus(Rep const& left, raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(right) || is_zero(right))
+    return {_0<Rep>, _0<Rep>};
+
   return {(left * right.denominator) % right.numerator, right.denominator};
 }
 
-- 
2.43.0


From 67569bca5186f12cda10fdff290011784a5426a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:06 +0000
Subject: [PATCH 03/12] fix: ordering comparisons ignore the sign of negative
 denominators

---
 include/ieme/ops.hpp | 87 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 74 insertions(+), 13 deletions(-)

diff --git a/include/ieme/ops.hpp b/include/ieme/ops.hpp
index 05b087d..b4ed36d 100644
--- a/include/ieme/ops.hpp
+++ b/include/ieme/ops.hpp
@@ -748,14 +748,26 @@ template <typename Rep>
 constexpr bool safe::less(raw_fraction<Rep> const& left,
                           Rep const& right) noexcept
 {
-  return left.numerator < right * left.denominator && is_defined(left);
+  if (is_undefined(left))
+    return false;
+
+  auto const scaled = right * left.denominator;
+
+  return (left.denominator > _0<Rep>) ? left.numerator < scaled
+                                      : left.numerator > scaled;
 }
 
 template <typename Rep>
 constexpr bool safe::less(Rep const& left,
                           raw_fraction<Rep> const& right) noexcept
 {
-  return left * right.denominator < right.numerator && is_defined(right);
+  if (is_undefined(right))
+    return false;
+
+  auto const scaled = left * right.denominator;
+
+  return (right.denominator > _0<Rep>) ? scaled < right.numerator
+                                       : scaled > right.numerator;
 }
 
 template <typename Rep>
@@ -775,14 +787,26 @@ template <typename Rep>
 constexpr bool safe::less_equal(raw_fraction<Rep> const& left,
                                 Rep const& right) noexcept
 {
-  return left.numerator <= right * left.denominator && is_defined(left);
+  if (is_undefined(left))
+    return false;
+
+  auto const scaled = right * left.denominator;
+
+  return (left.denominator > _0<Rep>) ? left.numerator <= scaled
+                                      : left.numerator >= scaled;
 }
 
 template <typename Rep>
 constexpr bool safe::less_equal(Rep const& left,
                                 raw_fraction<Rep> const& right) noexcept
 {
-  return left * right.denominator <= right.numerator && is_defined(right);
+  if (is_undefined(right))
+    return false;
+
+  auto const scaled = left * right.denominator;
+
+  return (right.denominator > _0<Rep>) ? scaled <= right.numerator
+                                       : scaled >= right.numerator;
 }
 
 template <typename Rep>
@@ -1008,45 +1032,82 @@ template <typename Rep>
 constexpr bool fast::less(raw_fraction<Rep> const& left,
                           raw_fraction<Rep> const& right) noexcept
 {
-  return left.numerator * right.denominator < right.numerator * left.denominator
-         && is_defined(left) && is_defined(right);
+  if (is_undefined(left) || is_undefined(right))
+    return false;
+
+  auto const scaled_left = left.numerator * right.denominator;
+  auto const scaled_right = right.numerator * left.denominator;
+
+  return ((left.denominator > _0<Rep>) == (right.denominator > _0<Rep>))
+           ? scaled_left < scaled_right
+           : scaled_left > scaled_right;
 }
 
 template <typename Rep>
 constexpr bool fast::less(raw_fraction<Rep> const& left,
                           Rep const& right) noexcept
 {
-  return left.numerator < right * left.denominator && is_defined(left);
+  if (is_undefined(left))
+    return false;
+
+  auto const scaled = right * left.denominator;
+
+  return (left.denominator > _0<Rep>) ? left.numerator < scaled
+                                      : left.numerator > scaled;
 }
 
 template <typename Rep>
 constexpr bool fast::less(Rep const& left,
                           raw_fraction<Rep> const& right) noexcept
 {
-  return left * right.denominator < right.numerator && is_defined(right);
+  if (is_undefined(right))
+    return false;
+
+  auto const scaled = left * right.denominator;
+
+  return (right.denominator > _0<Rep>) ? scaled < right.numerator
+                                       : scaled > right.numerator;
 }
 
 template <typename Rep>
 constexpr bool fast::less_equal(raw_fraction<Rep> const& left,
                                 raw_fraction<Rep> const& right) noexcept
 {
-  return left.numerator * right.denominator
-           <= right.numerator * left.denominator
-         && is_defined(left) && is_defined(right);
+  if (is_undefined(left) || is_undefined(right))
+    return false;
+
+  auto const scaled_left = left.numerator * right.denominator;
+  auto const scaled_right = right.numerator * left.denominator;
+
+  return ((left.denominator > _0<Rep>) == (right.denominator > _0<Rep>))
+           ? scaled_left <= scaled_right
+           : scaled_left >= scaled_right;
 }
 
 template <typename Rep>
 constexpr bool fast::less_equal(raw_fraction<Rep> const& left,
                                 Rep const& right) noexcept
 {
-  return left.numerator <= right * left.denominator && is_defined(left);
+  if (is_undefined(left))
+    return false;
+
+  auto const scaled = right * left.denominator;
+
+  return (left.denominator > _0<Rep>) ? left.numerator <= scaled
+                                      : left.numerator >= scaled;
 }
 
 template <typename Rep>
 constexpr bool fast::less_equal(Rep const& left,
                                 raw_fraction<Rep> const& right) noexcept
 {
-  return left * right.denominator <= right.numerator && is_defined(right);
+  if (is_undefined(right))
+    return false;
+
+  auto const scaled = left * right.denominator;
+
+  return (right.denominator > _0<Rep>) ? scaled <= right.numerator
+                                       : scaled >= right.numerator;
 }
 
 template <typename Rep>
-- 
2.43.0


From 0975e5af6b6326cfb6a20cdf22851596e6724853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:06 +0000
Subject: [PATCH 04/12] fix: ceil and floor are wrong for values between -1 and
 0

---
 include/ieme/fraction_math.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/ieme/fraction_math.hpp b/include/ieme/fraction_math.hpp
index 0e58a5d..0b790d3 100644
--- a/include/ieme/fraction_math.hpp
+++ b/include/ieme/fraction_math.hpp
@@ -162,8 +162,8 @@ constexpr Rep ceil(fraction<Rep, Ops> const& value) noexcept
 {
   auto const truncated = trunc(value);
 
-  return (is_integer(value) || truncated < _0<Rep>) ? truncated
-                                                    : truncated + _1<Rep>;
+  return (is_integer(value) || is_negative(value)) ? truncated
+                                                   : truncated + _1<Rep>;
 }
 
 template <typename Rep, typename Ops>
@@ -171,8 +171,8 @@ constexpr Rep floor(fraction<Rep, Ops> const& value) noexcept
 {
   auto const truncated = trunc(value);
 
-  return (is_integer(value) || truncated >= _0<Rep>) ? truncated
-                                                     : truncated - _1<Rep>;
+  return (is_integer(value) || is_positive(value)) ? truncated
+                                                   : truncated - _1<Rep>;
 }
 
 template <typename Rep, typename Ops>
-- 
2.43.0


From 22b4d6d7591101fd8e5f1490f1d1ac491d249230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:06 +0000
Subject: [PATCH 05/12] fix: is_reduced accepts fractions with a negative
 denominator

---
 include/ieme/raw_fraction_queries.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/ieme/raw_fraction_queries.hpp b/include/ieme/raw_fraction_queries.hpp
index 4e84b7e..65dab3a 100644
--- a/include/ieme/raw_fraction_queries.hpp
+++ b/include/ieme/raw_fraction_queries.hpp
@@ -132,8 +132,7 @@ constexpr bool is_reduced_ignore_signs(raw_fraction<Rep> const& value) noexcept
 template <typename Rep>
 constexpr bool is_reduced(raw_fraction<Rep> const& value) noexcept
 {
-  auto const signs_are_normalized
-    = value.numerator > _0<Rep> || value.denominator > _0<Rep>;
+  auto const signs_are_normalized = value.denominator > _0<Rep>;
 
   return signs_are_normalized && is_reduced_ignore_signs(value);
 }
-- 
2.43.0


From 838b81be8d84ec2723874c2f5acd6f960c191806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:44 +0000
Subject: [PATCH 06/12] fix: dividing by an undefined fraction gives a defined
 zero

---
 include/ieme/ops.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/ieme/ops.hpp b/include/ieme/ops.hpp
index b4ed36d..ae7f4e5 100644
--- a/include/ieme/ops.hpp
+++ b/include/ieme/ops.hpp
@@ -630,6 +630,9 @@ constexpr raw_fraction<Rep>
 safe::divides(raw_fraction<Rep> const& left,
               raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(right))
+    return {_0<Rep>, _0<Rep>};
+
   return {left.numerator * right.denominator,
           left.denominator * right.numerator};
 }
@@ -645,6 +648,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep>
 safe::divides(Rep const& left, raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(right))
+    return {_0<Rep>, _0<Rep>};
+
   return {left * right.denominator, right.numerator};
 }
 
@@ -933,6 +939,9 @@ constexpr raw_fraction<Rep>
 fast::divides(raw_fraction<Rep> const& left,
               raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(right))
+    return {_0<Rep>, _0<Rep>};
+
   return {left.numerator * right.denominator,
           left.denominator * right.numerator};
 }
@@ -948,6 +957,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep>
 fast::divides(Rep const& left, raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(right))
+    return {_0<Rep>, _0<Rep>};
+
   return {left * right.denominator, right.numerator};
 }
 
-- 
2.43.0


From 7e094eeb30001b77dcd5ab4559b02c8ab55cf5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:24 +0000
Subject: [PATCH 07/12] fix: digit_sequence_to_int overflows one power past the
 leading digit

---
 include/ieme/parse_utilities.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/ieme/parse_utilities.hpp b/include/ieme/parse_utilities.hpp
index 1ae63f8..b3b8b34 100644
--- a/include/ieme/parse_utilities.hpp
+++ b/include/ieme/parse_utilities.hpp
@@ -185,9 +185,8 @@ constexpr Int digit_sequence_to_int(std::string_view const sequence,
                                     Int const base) noexcept
 {
   auto result = _0<Int>;
-  auto base_power = _1<Int>;
 
-  for (auto it = sequence.rbegin(); it != sequence.rend(); ++it)
+  for (auto it = sequence.begin(); it != sequence.end(); ++it)
   {
     if (*it == '\'')
       continue;
@@ -202,8 +201,7 @@ constexpr Int digit_sequence_to_int(std::string_view const sequence,
       return static_cast<Int>(*it - '0');
     }();
 
-    result += digit_as_int * base_power;
-    base_power *= base;
+    result = result * base + digit_as_int;
   }
 
   return result;
-- 
2.43.0


From ace1eda00b641124331a7c1e26586b209c7764a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:24 +0000
Subject: [PATCH 08/12] fix: floating-point strings with an exponent but no
 radix point are rejected

---
 include/ieme/parse_utilities.hpp | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/include/ieme/parse_utilities.hpp b/include/ieme/parse_utilities.hpp
index b3b8b34..f0a116b 100644
--- a/include/ieme/parse_utilities.hpp
+++ b/include/ieme/parse_utilities.hpp
@@ -62,9 +62,23 @@ scan_floating_point_string(std::string_view const string) noexcept
     }
   }
 
+  auto const find_exponent_separator = [&]() {
+    auto const [lower, upper] = (results.base == 10) ? std::make_pair('e', 'E')
+                                                     : std::make_pair('p', 'P');
+
+    if (auto const lower_pos = remaining_string.find(lower);
+        lower_pos != std::string_view::npos)
+      return lower_pos;
+
+    return remaining_string.find(upper);
+  };
+
   auto const radix_separator_pos = remaining_string.find('.');
 
-  results.whole = remaining_string.substr(0, radix_separator_pos);
+  auto const no_radix_separator = radix_separator_pos == std::string_view::npos;
+
+  results.whole = remaining_string.substr(
+    0, no_radix_separator ? find_exponent_separator() : radix_separator_pos);
 
   auto const no_whole = results.whole.empty();
 
@@ -79,21 +93,10 @@ scan_floating_point_string(std::string_view const string) noexcept
     return std::nullopt;
   }
 
-  auto const no_radix_separator = radix_separator_pos == std::string_view::npos;
-
   if (!no_radix_separator)
     remaining_string.remove_prefix(radix_separator_pos + 1);
 
-  auto const exponent_separator_pos = [&]() {
-    auto const [lower, upper] = (results.base == 10) ? std::make_pair('e', 'E')
-                                                     : std::make_pair('p', 'P');
-
-    if (auto const lower_pos = remaining_string.find(lower);
-        lower_pos != std::string_view::npos)
-      return lower_pos;
-
-    return remaining_string.find(upper);
-  }();
+  auto const exponent_separator_pos = find_exponent_separator();
 
   if (exponent_separator_pos == last_pos())
     return std::nullopt;
@@ -107,7 +110,8 @@ scan_floating_point_string(std::string_view const string) noexcept
   if (results.base == 16 && no_exponent_separator)
     return std::nullopt;
 
-  results.fractional = remaining_string.substr(0, exponent_separator_pos);
+  if (!no_radix_separator)
+    results.fractional = remaining_string.substr(0, exponent_separator_pos);
 
   auto const no_fractional = results.fractional.empty();
 
-- 
2.43.0


From df04980df1eab181dac66030b015e9373b9dba58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:50 +0000
Subject: [PATCH 09/12] fix: zero, subnormal, infinite and large floating-point
 numbers convert wrongly

---
 include/ieme/floating_point.hpp | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/include/ieme/floating_point.hpp b/include/ieme/floating_point.hpp
index d481bc3..308121d 100644
--- a/include/ieme/floating_point.hpp
+++ b/include/ieme/floating_point.hpp
@@ -184,29 +184,36 @@ fraction<Rep, Ops> floating_point_to_fraction(Float const value) noexcept
       extract_bit_field(offsets.mantissa_bits, num_mantissa_bits));
   }();
 
-  if (auto const is_NaN = exponent_part == make_repeating_1s(NumExponentBits)
-                          && mantissa_part != _0<UintRep>;
-      is_NaN)
+  if (auto const is_NaN_or_infinity
+      = exponent_part == make_repeating_1s(NumExponentBits);
+      is_NaN_or_infinity)
     return limits<fraction<Rep, Ops>>::undefined();
 
+  auto const is_subnormal = exponent_part == _0<UintRep>;
+
+  auto const significand
+    = is_subnormal ? mantissa_part
+                   : mantissa_part + (_1<UintRep> << NumMantissaBits);
+
+  if (significand == _0<UintRep>)
+    return fraction<Rep, Ops>(_0<Rep>);
+
   auto const sign = (sign_part == _0<UintRep>) ? _1<Rep> : -_1<Rep>;
 
   static constexpr auto exponent_bias
     = math_utilities::pow2(number<NumExponentBits, int> - 1) - 1;
 
-  auto const exponent = static_cast<int>(exponent_part) - exponent_bias;
-
-  static constexpr auto mantissa_fraction_denominator
-    = math_utilities::pow2(number<NumMantissaBits, Rep>);
-
-  auto const mantissa_fraction_numerator = static_cast<Rep>(mantissa_part);
+  auto const num_trailing_zeros = std::countr_zero(significand);
 
-  auto const mantissa_fraction = fraction<Rep, Ops>(
-    mantissa_fraction_numerator, mantissa_fraction_denominator);
+  // The value is significand * 2^exponent with an odd significand
+  auto const exponent = (is_subnormal ? 1 : static_cast<int>(exponent_part))
+                        - exponent_bias - number<NumMantissaBits, int>
+                        + num_trailing_zeros;
 
-  auto const mantissa = _1<Rep> + mantissa_fraction;
+  auto const odd_significand
+    = static_cast<Rep>(significand >> num_trailing_zeros);
 
-  return sign * mantissa * pow2<Rep, Ops>(exponent);
+  return sign * fraction<Rep, Ops>(odd_significand) * pow2<Rep, Ops>(exponent);
 }
 
 template <typename Float, typename Rep, typename Ops>
-- 
2.43.0


From 79989184825553d89b97449057d359b651ca3964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:05 +0000
Subject: [PATCH 10/12] fix: equal fractions in different forms hash
 differently

---
 include/ieme/hash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieme/hash.hpp b/include/ieme/hash.hpp
index b033e8b..e936674 100644
--- a/include/ieme/hash.hpp
+++ b/include/ieme/hash.hpp
@@ -67,7 +67,7 @@ std::size_t hash(raw_fraction<Rep> const& value) noexcept
 template <typename Rep, typename Ops>
 std::size_t hash(fraction<Rep, Ops> const& value) noexcept
 {
-  return hash(value.raw());
+  return hash(reduce(value.raw()));
 }
 
 template <typename WRep, typename FRep, typename Ops>
-- 
2.43.0


From 51b3bd63a82aa823b9e86f87c9a22882607cb915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:05 +0000
Subject: [PATCH 11/12] fix: pow overflows for the most negative exponent

---
 include/ieme/fraction_math.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ieme/fraction_math.hpp b/include/ieme/fraction_math.hpp
index 0b790d3..ece144b 100644
--- a/include/ieme/fraction_math.hpp
+++ b/include/ieme/fraction_math.hpp
@@ -254,7 +254,8 @@ constexpr fraction<Rep, Ops> pow(Rep const& base, int const exponent) noexcept
            ? fraction<Rep, Ops>(
              math_utilities::pow(base, static_cast<Rep>(exponent)))
            : fraction<Rep, Ops>(
-             _1<Rep>, math_utilities::pow(base, static_cast<Rep>(-exponent)));
+             _1<Rep>,
+             base * math_utilities::pow(base, static_cast<Rep>(-(exponent + 1))));
 }
 
 
-- 
2.43.0


From 2336f38f116fe9c8e0ca47e6babb11a07352b99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:20 +0000
Subject: [PATCH 12/12] fix: compound assignment truncates a wider right
 operand before computing

---
 include/ieme/fraction.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/ieme/fraction.hpp b/include/ieme/fraction.hpp
index 33b1062..153eaa2 100644
--- a/include/ieme/fraction.hpp
+++ b/include/ieme/fraction.hpp
@@ -5,6 +5,7 @@
 #include <ieme/raw_fraction.hpp>
 
 #include <istream>
+#include <limits>
 #include <ostream>
 #include <ratio>
 
@@ -659,6 +660,15 @@ IEME_DEFINE_FRACTION_ARITHMETIC_OPS(*, multiplies)
 IEME_DEFINE_FRACTION_ARITHMETIC_OPS(/, divides)
 IEME_DEFINE_FRACTION_ARITHMETIC_OPS(%, modulus)
 
+// Whether Rep is an integer type with the signedness of OtherRep and more digits
+template <typename Rep, typename OtherRep>
+inline constexpr bool is_wider_v
+  = std::numeric_limits<Rep>::is_integer
+    && std::numeric_limits<Rep>::is_signed
+         == std::numeric_limits<OtherRep>::is_signed
+    && (std::numeric_limits<Rep>::digits
+        > std::numeric_limits<OtherRep>::digits);
+
 #define IEME_DEFINE_FRACTION_COMPOUND_ASSIGNMENT_OPS(symbol)                   \
   template <typename LeftRep, typename RightRep, typename Ops, typename>       \
   constexpr fraction<LeftRep, Ops>& operator symbol##=(                        \
@@ -667,6 +677,8 @@ IEME_DEFINE_FRACTION_ARITHMETIC_OPS(%, modulus)
   {                                                                            \
     if constexpr (std::is_same_v<LeftRep, RightRep>)                           \
       return left = left symbol right;                                         \
+    else if constexpr (is_wider_v<RightRep, LeftRep>)                          \
+      return left = fraction<LeftRep, Ops>(left symbol right);                 \
     else                                                                       \
       return left = left symbol fraction<LeftRep, Ops>(right);                 \
   }                                                                            \
@@ -677,6 +689,8 @@ IEME_DEFINE_FRACTION_ARITHMETIC_OPS(%, modulus)
   {                                                                            \
     if constexpr (std::is_same_v<LeftRep, RightRep>)                           \
       return left = left symbol right;                                         \
+    else if constexpr (is_wider_v<RightRep, LeftRep>)                          \
+      return left = fraction<LeftRep, Ops>(left symbol right);                 \
     else                                                                       \
       return left = left symbol static_cast<LeftRep>(right);                   \
   }
-- 
2.43.0

