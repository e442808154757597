From f7a34eef4c5b2af004258dc34869a4bad428f98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:38 +0000
Subject: [PATCH 01/50] fix: keep the fractional part when casting to a
 floating point type

---
 include/eirin/fixed.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 5e03f7d..e14b188 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -295,7 +295,7 @@ public:
     {
         // MSVC might warn about precision loss here, but it's expected.
         // SO I JUST FUCK IT BEFORE.
-        return static_cast<T>(static_cast<value_type>(m_value / fraction_multiplier));
+        return static_cast<T>(m_value) / static_cast<T>(std::uint64_t(1) << fraction);
     }
 
     constexpr inline fixed_num operator+(const fixed_num& other) const noexcept
-- 
2.43.0


From c3ac54f69e90fb13e63a5eb6f7bd96b3abbe7b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:38 +0000
Subject: [PATCH 02/50] fix: rounding fixed_num no longer halves or doubles
 values when constructing, multiplying and dividing

---
 include/eirin/fixed.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index e14b188..9094118 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -163,7 +163,7 @@ public:
             {
                 m_value = static_cast<Type>(
                     val >= 0.0 ?
-                        (val * T{0.5} * fraction_multiplier) :
+                        (val * fraction_multiplier + T{0.5}) :
                         (val * fraction_multiplier - T{0.5})
                 );
             }
@@ -177,7 +177,7 @@ public:
         else
         {
             m_value = static_cast<Type>(
-                rounding ? (val >= 0.0) ? (val * fraction_multiplier * T{0.5}) : (val * fraction_multiplier - T{0.5}) : (val * fraction_multiplier)
+                rounding ? (val >= 0.0) ? (val * fraction_multiplier + T{0.5}) : (val * fraction_multiplier - T{0.5}) : (val * fraction_multiplier)
             );
         }
     };
@@ -337,7 +337,7 @@ public:
         if constexpr(rounding)
         {
             auto _value = (static_cast<IntermediateType>(m_value) * other.m_value) / (fraction_multiplier / 2);
-            return fixed_num(static_cast<Type>(_value + (_value % 2)), raw_value_construct_tag{});
+            return fixed_num(static_cast<Type>(_value / 2 + (_value % 2)), raw_value_construct_tag{});
         }
         else
         {
@@ -350,7 +350,7 @@ public:
         if constexpr(rounding)
         {
             auto _value = (static_cast<IntermediateType>(m_value) * other.m_value) / (fraction_multiplier / 2);
-            m_value = static_cast<Type>(_value + (_value % 2));
+            m_value = static_cast<Type>(_value / 2 + (_value % 2));
         }
         else
         {
@@ -371,7 +371,7 @@ public:
         if constexpr(rounding)
         {
             auto _value = ((static_cast<IntermediateType>(m_value) << fraction) * 2) / other.m_value;
-            return fixed_num(static_cast<Type>(_value + (_value % 2)), raw_value_construct_tag{});
+            return fixed_num(static_cast<Type>(_value / 2 + (_value % 2)), raw_value_construct_tag{});
         }
         else
         {
@@ -384,7 +384,7 @@ public:
         if constexpr(rounding)
         {
             auto _value = ((static_cast<IntermediateType>(m_value) << fraction) * 2) / other.m_value;
-            m_value = static_cast<Type>(_value + (_value % 2));
+            m_value = static_cast<Type>(_value / 2 + (_value % 2));
         }
         else
         {
@@ -617,7 +617,7 @@ public:
         if constexpr(rounding)
         {
             auto _value = ((static_cast<IntermediateType>(m_value) << fraction) * 2) / other.m_value;
-            return fixed_num(static_cast<Type>(_value + (_value % 2)), raw_value_construct_tag{});
+            return fixed_num(static_cast<Type>(_value / 2 + (_value % 2)), raw_value_construct_tag{});
         }
         else
         {
@@ -642,7 +642,7 @@ public:
         if constexpr(rounding)
         {
             auto _value = ((static_cast<IntermediateType>(m_value) << fraction) * 2) / other.m_value;
-            m_value = static_cast<Type>(_value + (_value % 2));
+            m_value = static_cast<Type>(_value / 2 + (_value % 2));
         }
         else
         {
-- 
2.43.0


From 010d7e4022d8addce49b8994c7e179aa340e1661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:38 +0000
Subject: [PATCH 03/50] fix: do not overflow when converting to a fixed point
 type with more fraction bits

---
 include/eirin/fixed.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 9094118..d027f3e 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -497,7 +497,7 @@ public:
     template <unsigned int _fraction, typename T, typename std::enable_if_t<(_fraction <= fraction), T*> = nullptr>
     EIRIN_ALWAYS_INLINE static constexpr fixed_num from_fixed_num_value(T inner_value) noexcept
     {
-        return fixed_num(static_cast<Type>(inner_value * (T(1) << (fraction - _fraction))), raw_value_construct_tag{});
+        return fixed_num(static_cast<Type>(static_cast<IntermediateType>(inner_value) * (IntermediateType(1) << (fraction - _fraction))), raw_value_construct_tag{});
     }
 
     static constexpr fixed_num from_internal_value(Type internal_value) noexcept
-- 
2.43.0


From b61bbd02af671ebbac27a3c82a05a0929a6466b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:38 +0000
Subject: [PATCH 04/50] fix: ceil of negative values and floor of values next
 to the minimum

---
 include/eirin/math.hpp | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index ec12281..875962e 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -32,29 +32,26 @@ template <typename T, typename I, unsigned int f, bool r>
 EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> ceil(fixed_num<T, I, f, r> fp) noexcept
 {
     using fixed = fixed_num<T, I, f, r>;
-    constexpr auto frac_mult = T(1) << f;
-    auto value = fp.internal_value();
+    constexpr auto frac_mult = I(1) << f;
+    auto value = static_cast<I>(fp.internal_value());
     if(value > 0)
         value += frac_mult - 1;
+    value = value / frac_mult * frac_mult;
     // overflow check.
-    if(value < 0)
-        return fixed::from_internal_value(fp.internal_value() / frac_mult * frac_mult + frac_mult - 1);
-    return fixed::from_internal_value(value / frac_mult * frac_mult);
+    if(value > static_cast<I>(std::numeric_limits<T>::max()))
+        return std::numeric_limits<fixed>::max();
+    return fixed::from_internal_value(static_cast<T>(value));
 }
 
 template <typename T, typename I, unsigned int f, bool r>
 EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> floor(fixed_num<T, I, f, r> fp) noexcept
 {
     using fixed = fixed_num<T, I, f, r>;
-    constexpr auto frac_mult = T(1) << f;
-    auto value = fp.internal_value();
-    auto neg = value < 0;
+    constexpr auto frac_mult = I(1) << f;
+    auto value = static_cast<I>(fp.internal_value());
     if(value < 0)
         value -= frac_mult - 1;
-    // underflow check.
-    if(neg && value > 0)
-        return fixed::from_internal_value(fp.internal_value() / frac_mult * frac_mult - frac_mult + 1);
-    return fixed::from_internal_value(value / frac_mult * frac_mult);
+    return fixed::from_internal_value(static_cast<T>(value / frac_mult * frac_mult));
 }
 
 template <typename T, typename I, unsigned int f, bool r>
-- 
2.43.0


From 5b75614b01b6cc1aa5eefd718628cc84ccdf37d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:38 +0000
Subject: [PATCH 05/50] fix: integral_part of negative numbers with a fraction

---
 include/eirin/fixed.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index d027f3e..ed20f6e 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -264,15 +264,14 @@ public:
 
     EIRIN_ALWAYS_INLINE constexpr Type integral_part() const noexcept
     {
-        Type result = m_value;
+        // use the unsigned type, because the absolute value of the minimum is not representable in Type.
+        using unsigned_type = std::make_unsigned_t<Type>;
+        auto result = static_cast<unsigned_type>(m_value);
         if(signbit(*this))
-        {
-            result = ~result;
-            result += static_cast<Type>(1) << fraction;
-        }
+            result = static_cast<unsigned_type>(0u - result);
         result >>= fraction; // Drop fractional part
 
-        return result;
+        return static_cast<Type>(result);
     }
 
     EIRIN_ALWAYS_INLINE constexpr Type fractional_part() const noexcept
-- 
2.43.0


From 23ddcef78f47f82001831175cb08e1e7c1df0c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:07 +0000
Subject: [PATCH 06/50] fix: sqrt of 32-bit fixed point types whose fraction is
 not 16 bits

---
 include/eirin/math.hpp | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 875962e..895d66f 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -99,21 +99,11 @@ template <typename T, typename I, unsigned int f, bool r>
 EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> sqrt(fixed_num<T, I, f, r> fp) noexcept
 {
     using fixed = fixed_num<T, I, f, r>;
-    // test if T is int32_t, if so, we can use the fast sqrt algorithm.
+    // test if T is int32_t with 16 fraction bits, if so, we can use the fast sqrt algorithm.
     // if not, using newton method.
-    if constexpr(std::is_same_v<T, int32_t>)
+    if constexpr(std::is_same_v<T, int32_t> && f == 16)
     {
-        uint64_t t, q = 0, b = 0x40000000UL, v;
-        if constexpr(f > 16)
-        {
-            constexpr auto move = f - 16;
-            v = fp.internal_value() >> move;
-        }
-        else
-        {
-            constexpr auto move = 16 - f;
-            v = fp.internal_value() << move;
-        }
+        uint64_t t, q = 0, b = 0x40000000UL, v = fp.internal_value();
 
         // fix number sqrt using bit hack.
         if(v < 0x40000200)
-- 
2.43.0


From c530192a72572f07f4ddfec450e082bc0d3e728b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:07 +0000
Subject: [PATCH 07/50] fix: sin of tiny negative numbers and of the minimum
 value

---
 include/eirin/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 895d66f..a97f750 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -209,8 +209,8 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> sin(fixed_num<T, I, f, r> fp
     // we reconginzed the sin(x) = x when x is small enough.
     // sin(0.00015) = 0.000149999999437, so we use 0.0001 as the threshold.
     // TODO: replace it with fixed::template from_fixed_num_value<61>(0x13A92A0000000)
-    if(abs(fp) < fixed(0.00015))
-        return negative ? -fp : fp;
+    if(fp < fixed(0.00015) && -fixed(0.00015) < fp)
+        return fp;
 
     // reduce the range to [0, 1] due to sin is
     // symmetrical around PI / 2 in the domain [0, PI].
-- 
2.43.0


From 7c23df16563d00bfe71a908b165fd2e825013644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:07 +0000
Subject: [PATCH 08/50] fix: the linear coefficient of the exp polynomial was
 halved

---
 include/eirin/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index a97f750..cc0dd63 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -513,7 +513,7 @@ namespace detail
         constexpr auto b = fixed::template from_fixed_num_value<63>(0x04745859810836DAll); // 3.4800571158543038e-2
         constexpr auto c = fixed::template from_fixed_num_value<63>(0x15CFBB5C306F85F3ll); // 1.7040197373796334e-1
         constexpr auto d = fixed::template from_fixed_num_value<63>(0x3FE26186C531F98Ell); // 4.9909609871464493e-1
-        constexpr auto e = fixed::template from_fixed_num_value<63>(0x40014D4407008BB0ll); // 1.0000794567422495
+        constexpr auto e = fixed::template from_fixed_num_value<62>(0x40014D4407008BB0ll); // 1.0000794567422495
         constexpr auto _f = fixed::template from_fixed_num_value<63>(0x7FFFF686446F1B43ll); // 9.9999887043019773e-1
         return pow(numbers::e_v<fixed>(), x_int) * (_f + fp * (e + fp * (d + fp * (c + fp * (b + fp * a)))));
     }
-- 
2.43.0


From 38edfbe10dbd347647c4df666add7bff937d4b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:41 +0000
Subject: [PATCH 09/50] fix: exp of negative numbers whose reciprocal is not
 representable

---
 include/eirin/math.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index cc0dd63..22cb5e3 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -505,9 +505,11 @@ namespace detail
     EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> exp_expand(fixed_num<T, I, f, r> fp) noexcept
     {
         using fixed = fixed_num<T, I, f, r>;
-        // the integer part of the input fixed point number.
-        const T x_int = fp.integral_part();
+        // the integer part of the input fixed point number, rounded down.
+        const T x_int = static_cast<T>(fp);
         fp -= x_int;
+        // e^-n might be not representable, so use the powers of 1/e for negative numbers.
+        const auto exp_int = x_int < 0 ? pow(fixed(1) / numbers::e_v<fixed>(), -x_int) : pow(numbers::e_v<fixed>(), x_int);
 
         constexpr auto a = fixed::template from_fixed_num_value<63>(0x01C798ECC0CBC856ll); // 1.3903728105644451e-2
         constexpr auto b = fixed::template from_fixed_num_value<63>(0x04745859810836DAll); // 3.4800571158543038e-2
@@ -515,7 +517,7 @@ namespace detail
         constexpr auto d = fixed::template from_fixed_num_value<63>(0x3FE26186C531F98Ell); // 4.9909609871464493e-1
         constexpr auto e = fixed::template from_fixed_num_value<62>(0x40014D4407008BB0ll); // 1.0000794567422495
         constexpr auto _f = fixed::template from_fixed_num_value<63>(0x7FFFF686446F1B43ll); // 9.9999887043019773e-1
-        return pow(numbers::e_v<fixed>(), x_int) * (_f + fp * (e + fp * (d + fp * (c + fp * (b + fp * a)))));
+        return exp_int * (_f + fp * (e + fp * (d + fp * (c + fp * (b + fp * a)))));
     }
 } // namespace detail
 
@@ -526,8 +528,6 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> exp(fixed_num<T, I, f, r> fp
 
     if(fp == fixed(0))
         return fixed(1);
-    if(fp < fixed(0))
-        return fixed(1) / detail::exp_expand(-fp);
     return detail::exp_expand(fp);
 }
 
-- 
2.43.0


From 94396adcb5dc8fe9069c23fbc1710c617be5bcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:41 +0000
Subject: [PATCH 10/50] fix: pow with negative integral exponents divided by an
 overflowed or zero power

---
 include/eirin/math.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 22cb5e3..c8f9bf0 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -482,10 +482,20 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> pow(fixed_num<T, I, f, r> b,
     auto res = fixed(1);
     if(e < 0)
     {
-        for(auto i = b; e != 0; e /= 2, i *= i)
+        for(auto i = b; e != 0; e /= 2)
         {
             if(e % 2 != 0)
                 res /= i;
+            if(e / 2 == 0)
+                break;
+            const auto square = (static_cast<I>(i.internal_value()) * i.internal_value()) >> f;
+            // overflow check, the result is too small in this case.
+            if(square > static_cast<I>(std::numeric_limits<T>::max()))
+                return fixed(0);
+            // underflow check, the result is too large to be represented in this case.
+            if(square == 0)
+                return std::numeric_limits<fixed>::max();
+            i = fixed::from_internal_value(static_cast<T>(square));
         }
     }
     else
-- 
2.43.0


From d60e4a6d19869ca7b1b8d4b3d240e054c19bbba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:41 +0000
Subject: [PATCH 11/50] fix: pow of negative bases terminated the program

---
 include/eirin/math.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index c8f9bf0..e4010ca 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -544,7 +544,7 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> exp(fixed_num<T, I, f, r> fp
 // TODO: This function has performance issue on MSVC,
 // which is about 5x slower than the result of clang-cl.
 template <typename T, typename I, unsigned int f, bool r>
-EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> pow(fixed_num<T, I, f, r> b, fixed_num<T, I, f, r> e) noexcept
+EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> pow(fixed_num<T, I, f, r> b, fixed_num<T, I, f, r> e)
 {
     using fixed = fixed_num<T, I, f, r>;
     if(b == fixed(0))
@@ -557,6 +557,9 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> pow(fixed_num<T, I, f, r> b,
     // the integer part of the input exponent.
     const T e_int = static_cast<T>(e.internal_value() / (I(1) << f));
     e -= e_int;
+    // the logarithm of negative numbers does not exist, and is not needed for integral exponents.
+    if(e == fixed(0))
+        return pow(b, e_int);
 
     return pow(b, e_int) * exp(e * log(b));
 }
-- 
2.43.0


From 2962f47da6f54383a694ec4881fab21e109a61b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:41 +0000
Subject: [PATCH 12/50] fix: cbrt divided by zero or overflowed for many
 negative and large numbers

---
 include/eirin/math.hpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index e4010ca..776be4b 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -352,18 +352,26 @@ template <typename T, typename I, unsigned int f, bool r, int iter_max = 200>
 EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> cbrt(fixed_num<T, I, f, r> fp) noexcept
 {
     using fixed = fixed_num<T, I, f, r>;
-    if(abs(fp) < fixed::epsilon())
+    // calculate with the absolute value in the intermediate type, so that neither
+    // x * x nor the absolute value of the minimum will overflow.
+    const bool negative = fp.internal_value() < 0;
+    const I value = negative ? -static_cast<I>(fp.internal_value()) : static_cast<I>(fp.internal_value());
+    if(value == 0)
         return fixed(0);
-    auto x = (fixed(fp) + 2) / 3;
-    auto iter_count = 0;
-    constexpr auto precision = fixed::nearly_compare_epsilon() * 2;
 
-    while(abs(fp - (x * x * x)) >= precision && iter_count <= iter_max)
+    // start from a power of 2 which is not less than the cbrt, so the iteration is decreasing.
+    int exponent = 0;
+    for(I i = value; i != 0; i >>= 1)
+        ++exponent;
+    I x = I(1) << ((exponent + 2 * static_cast<int>(f) + 2) / 3);
+    for(int iter_count = 0; iter_count <= iter_max; ++iter_count)
     {
-        x = (fp / (x * x) + x * 2) / 3;
-        ++iter_count;
+        const I next = (((value << f) / x << f) / x + x * 2) / 3;
+        if(next >= x)
+            break;
+        x = next;
     }
-    return x;
+    return fixed::from_internal_value(static_cast<T>(negative ? -x : x));
 }
 
 /**
-- 
2.43.0


From a311d8d8093f58c5e46a2b4ae2dc53fc5566adef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:41 +0000
Subject: [PATCH 13/50] fix: atan, asin and acos outside the interval fitted by
 the polynomial

---
 include/eirin/math.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 776be4b..cae7f19 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -278,11 +278,13 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> atan(fixed_num<T, I, f, r> f
     constexpr auto a = -1 * fixed::template from_fixed_num_value<61>(0X17CE62CE264A340); // 0.0464964749
     constexpr auto b = fixed::template from_fixed_num_value<61>(0X5191A2296020A80); // 0.15931422
     constexpr auto c = fixed::template from_fixed_num_value<61>(0XA7BE2BC19C39800); // 0.327622764
-    // TODO: because fixed point cannot represent infinity, so we need to handle the case when fp is very large.
-    auto abs_fp = abs(fp);
-    auto x = abs_fp;
+    // the polynomial only fits [0, 1], so use atan(x) = pi/2 - atan(1/x) outside.
+    const bool reciprocal = fp > fixed(1) || fp < fixed(-1);
+    auto x = abs(reciprocal ? fixed(1) / fp : fp);
     auto x2 = x * x;
     fixed result = ((a * x2 + b) * x2 - c) * x2 * x + x;
+    if(reciprocal)
+        result = pi / 2 - result;
     // if the input is negative, return negative result.
     if(fp.signbit_mask() & fp.internal_value())
         result = -result;
@@ -311,7 +313,7 @@ template <typename T, typename I, unsigned int f, bool r, fixed_num<T, I, f, r>
 EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> asin(fixed_num<T, I, f, r> fp)
 {
     using fixed = fixed_num<T, I, f, r>;
-    if(abs(fp) > fixed(1))
+    if(fp > fixed(1) || fp < fixed(-1))
         EIRIN_THROW_EXCEPTION(std::domain_error, "asin() domain error");
     if(fp == fixed(1))
         return pi / fixed(2);
@@ -324,7 +326,7 @@ template <typename T, typename I, unsigned int f, bool r, fixed_num<T, I, f, r>
 EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> acos(fixed_num<T, I, f, r> fp)
 {
     using fixed = fixed_num<T, I, f, r>;
-    if(abs(fp) > fixed(1))
+    if(fp > fixed(1) || fp < fixed(-1))
         EIRIN_THROW_EXCEPTION(std::domain_error, "acos() domain error");
     if(fp == fixed(1))
         return fixed(0);
-- 
2.43.0


From d4904043c860b5af9382d3ac979c8f2a1752e071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:41 +0000
Subject: [PATCH 14/50] fix: log2 of fixed point types with more than 32 or
 nearly all fraction bits

---
 include/eirin/math.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index cae7f19..8c6a422 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -413,27 +413,27 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> log2(fixed_num<T, I, f, r> f
     // The assembly code of '-O3' optimization is to expand the for loop code into tons of code segments,
     // which makes the performance of the code much slower than '-O2' optimization.
     // I prefer this situation is abnormal, but I don't know why.
-    T b = 1u << (f - 1), y = 0, x = fp.internal_value();
+    I b = I(1) << (f - 1), y = 0, x = fp.internal_value();
     if(fp <= fixed(0))
         EIRIN_THROW_EXCEPTION(std::domain_error, "log2() domain error");
 
-    while(x < (static_cast<T>(1u) << f))
+    while(x < (static_cast<I>(1u) << f))
     {
         x <<= 1;
-        y -= (static_cast<T>(1u) << f);
+        y -= (static_cast<I>(1u) << f);
     }
 
-    while(x >= (static_cast<T>(2u) << f))
+    while(x >= (static_cast<I>(2u) << f))
     {
         x >>= 1;
-        y += (static_cast<T>(1u) << f);
+        y += (static_cast<I>(1u) << f);
     }
 
     I z = x;
     for(size_t i = 0; i < f; ++i)
     {
         z = (z * z) >> f;
-        if(z >= (static_cast<T>(2u) << f))
+        if(z >= (static_cast<I>(2u) << f))
         {
             z >>= 1;
             y += b;
@@ -441,7 +441,7 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> log2(fixed_num<T, I, f, r> f
         b >>= 1;
     }
 
-    return fixed::from_internal_value(y);
+    return fixed::from_internal_value(static_cast<T>(y));
 }
 
 /**
-- 
2.43.0


From be99cc915787315fbd5104b53e31c953f35d34cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:26 +0000
Subject: [PATCH 15/50] fix: nearly compare overflowed for distant values and
 never matched for unsigned types

---
 include/eirin/fixed.hpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index ed20f6e..5107d11 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -451,26 +451,25 @@ public:
 
     constexpr inline bool nearly_eq(const fixed_num& other) const noexcept
     {
-        auto div = m_value - other.m_value;
-        return div >= -nearly_compare_epsilon().m_value && div <= nearly_compare_epsilon().m_value;
+        return !nearly_ne(other);
     }
 
     constexpr inline bool nearly_ne(const fixed_num& other) const noexcept
     {
-        auto div = m_value - other.m_value;
-        return div < -nearly_compare_epsilon().m_value || div > nearly_compare_epsilon().m_value;
+        // the difference might be not representable in Type.
+        const IntermediateType lhs = m_value, rhs = other.m_value;
+        const IntermediateType div = lhs < rhs ? rhs - lhs : lhs - rhs;
+        return div > static_cast<IntermediateType>(nearly_compare_epsilon().m_value);
     }
 
     constexpr inline bool nearly_gt(const fixed_num& other) const noexcept
     {
-        auto div = m_value - other.m_value;
-        return div > nearly_compare_epsilon().m_value;
+        return m_value > other.m_value && nearly_ne(other);
     }
 
     constexpr inline bool nearly_lt(const fixed_num& other) const noexcept
     {
-        auto div = m_value - other.m_value;
-        return div < -nearly_compare_epsilon().m_value;
+        return m_value < other.m_value && nearly_ne(other);
     }
 
     constexpr inline bool nearly_gt_eq(const fixed_num& other) const noexcept
-- 
2.43.0


From dc964ffc2714ecfb56560bea464198d422f949a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:26 +0000
Subject: [PATCH 16/50] fix: dividing negative fixed point numbers by unsigned
 integers

---
 include/eirin/fixed.hpp | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 5107d11..f0e277d 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -135,6 +135,26 @@ class fixed_num
     constexpr inline fixed_num(Type val, raw_value_construct_tag) noexcept
         : m_value(val) {};
 
+    // divide by an integer of any width and signness, without converting negative numbers to unsigned.
+    template <std::integral V>
+    static constexpr inline Type divide_raw_by(Type raw, V val) noexcept
+    {
+        if constexpr(sizeof(V) < sizeof(IntermediateType))
+        {
+            return static_cast<Type>(static_cast<IntermediateType>(raw) / static_cast<IntermediateType>(val));
+        }
+        else if constexpr(std::is_unsigned_v<V>)
+        {
+            if(raw < 0)
+                return static_cast<Type>(V(0) - static_cast<V>(V(0) - static_cast<V>(raw)) / val);
+            return static_cast<Type>(static_cast<V>(raw) / val);
+        }
+        else
+        {
+            return static_cast<Type>(static_cast<V>(raw) / val);
+        }
+    }
+
 public:
     typedef Type value_type;
     typedef IntermediateType intermediate_type;
@@ -394,7 +414,7 @@ public:
 
     constexpr inline fixed_num& operator/=(const std::integral auto& val) noexcept
     {
-        m_value /= val;
+        m_value = divide_raw_by(m_value, val);
         return *this;
     }
 
@@ -604,7 +624,7 @@ public:
         if(val == 0) [[unlikely]]
             EIRIN_THROW_EXCEPTION(divide_by_zero);
 
-        return fixed_num(m_value / val, raw_value_construct_tag{});
+        return fixed_num(divide_raw_by(m_value, val), raw_value_construct_tag{});
     }
 
     EIRIN_ALWAYS_INLINE constexpr fixed_num divide(const fixed_num& other) const
@@ -628,7 +648,7 @@ public:
         if(val == 0) [[unlikely]]
             EIRIN_THROW_EXCEPTION(divide_by_zero);
 
-        m_value /= val;
+        m_value = divide_raw_by(m_value, val);
         return *this;
     }
 
-- 
2.43.0


From e3906c6261633544ee823ca992acf67dc536aceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:26 +0000
Subject: [PATCH 17/50] fix: the module between fixed point and integral did
 not compile

---
 include/eirin/fixed.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index f0e277d..4352bca 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -429,6 +429,12 @@ public:
         return *this;
     }
 
+    constexpr inline fixed_num& operator%=(const std::integral auto& val) noexcept
+    {
+        m_value = static_cast<Type>(static_cast<IntermediateType>(m_value) % (static_cast<IntermediateType>(val) << fraction));
+        return *this;
+    }
+
     constexpr inline fixed_num operator-() const noexcept
     {
         return fixed_num(-m_value, raw_value_construct_tag{});
-- 
2.43.0


From 6d6e27979c50fadc636b547b5fee38289ec18a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:26 +0000
Subject: [PATCH 18/50] fix: stream output of unsigned types and of types with
 few integral bits

---
 include/eirin/fixed.hpp | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 4352bca..4d62ed5 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -548,30 +548,21 @@ public:
     )
     {
         const char* digits = uppercase ? "0123456789ABCDEF" : "0123456789abcdef";
-        Type divisor = static_cast<Type>(1) << fraction;
+        IntermediateType divisor = static_cast<IntermediateType>(1) << fraction;
         auto put_char = [&out](const char c)
         {
             *out = c;
             ++out;
         };
 
-        auto value = val.m_value;
-        Type int_part;
-        if(value == val.signbit_mask())
+        // the absolute value of the minimum is not representable in Type.
+        auto value = static_cast<IntermediateType>(val.m_value);
+        if(value < 0)
         {
             put_char('-');
-            int_part = ~(value >> fraction) + 1;
-            value = 0;
-        }
-        else
-        {
-            if(value < 0)
-            {
-                put_char('-');
-                value = -value;
-            }
-            int_part = value >> fraction;
+            value = -value;
         }
+        auto int_part = static_cast<Type>(value >> fraction);
         value %= divisor;
         std::array<char, 514> buffer;
         auto iter = buffer.begin();
@@ -616,7 +607,7 @@ public:
                     value *= base;
                 }
 
-                auto digit = (value / divisor) % base;
+                auto digit = static_cast<int>((value / divisor) % base);
                 put_char(digits[digit]);
                 value %= divisor;
             }
-- 
2.43.0


From 7c40a99fd41f112e58d5517af6aa8c5ee7f0768b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:26 +0000
Subject: [PATCH 19/50] fix: cordic sine of negative angles

---
 include/eirin/ext/cordic.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/eirin/ext/cordic.hpp b/include/eirin/ext/cordic.hpp
index 365e98a..b475859 100644
--- a/include/eirin/ext/cordic.hpp
+++ b/include/eirin/ext/cordic.hpp
@@ -81,13 +81,9 @@ namespace detail
 
         sin_sign = Q < const_0 ? -1 : 1;
 
-        // abs Q with signbit mask.
-        auto sign_mask = Q.signbit_mask();
-        auto abs_value = Q.m_value & ~sign_mask;
-        Q = FP::from_internal_value(abs_value);
-
-        // scale angel into [-2*pi, 2*pi].
+        // scale angel into [-2*pi, 2*pi], then the abs will never overflow.
         Q %= double_pi;
+        Q = abs(Q);
         
         const bool in_second_half = (Q > pi);
         Q = in_second_half ? (Q - pi) : Q;
-- 
2.43.0


From 18bd312f48db29cd4b40a99872921b0f0befdf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:35 +0000
Subject: [PATCH 20/50] fix: parsing strings lost digits, wrapped around,
 rejected the minimum or divided by zero

---
 include/eirin/fixed.hpp | 139 ++++++++++++++++------------------------
 1 file changed, 57 insertions(+), 82 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 4d62ed5..39204e1 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -694,14 +694,53 @@ namespace detail
     struct is_fixed_point<fixed_num<T, I, f, r>> : public std::true_type
     {};
 
+    /**
+     * @brief Append a digit to the integral part. It stops growing once it is not representable in
+     *        the fixed number, so the overflow check of parse_result will always notice it.
+     */
+    template <typename T, typename I, unsigned int f>
+    constexpr void parse_int_digit(I& int_part, int digit) noexcept
+    {
+        // the integral part of the minimum is one greater than the one of the maximum.
+        if(int_part <= (static_cast<I>(std::numeric_limits<T>::max()) >> f) + 1)
+            int_part = int_part * 10 + digit;
+    }
+
+    /**
+     * @brief Calculate the decimal part from its digits in [first, last), rounded down.
+     *        It is exact, since the k / 2^f has at most f decimal digits.
+     */
+    template <typename I, unsigned int f, typename CharT>
+    constexpr I parse_dec_part(const CharT* first, const CharT* last) noexcept
+    {
+        if(last - first > static_cast<std::ptrdiff_t>(f))
+            last = first + f;
+        I dec_part = I(0);
+        while(last != first)
+            dec_part = ((static_cast<I>(*--last - '0') << f) + dec_part) / 10;
+        return dec_part;
+    }
+
+    /**
+     * @brief Check overflow and assign the parsed value.
+     */
+    template <typename T, typename I, unsigned int f, bool r>
+    constexpr bool parse_result(std::type_identity_t<I> fixed_value, bool negative, fixed_num<T, I, f, r>& fp) noexcept
+    {
+        const I limit = negative ? -static_cast<I>(std::numeric_limits<T>::min()) : static_cast<I>(std::numeric_limits<T>::max());
+        if(fixed_value > limit)
+            return false;
+        fp = fixed_num<T, I, f, r>::from_internal_value(static_cast<T>(negative ? -fixed_value : fixed_value));
+        return true;
+    }
+
     template <typename CharT, typename T, typename I, unsigned int f, bool r>
     constexpr bool parse(const CharT* str, size_t len, fixed_num<T, I, f, r>& fp) noexcept
     {
-        using fixed = fixed_num<T, I, f, r>;
         size_t pos = 0;
         bool negative = false;
 
-        auto check_ch = [](char ch) -> bool
+        auto check_ch = [](CharT ch) -> bool
         {
             // This should be faster than isdigit
             return '0' <= ch && ch <= '9';
@@ -724,45 +763,24 @@ namespace detail
         {
             if(!check_ch(str[pos]))
                 return false;
-            int_part = int_part * 10 + (next() - '0');
+            parse_int_digit<T, I, f>(int_part, next() - '0');
         }
 
-        I fixed_value;
         // parse the decimal part.
         if(pos < len && str[pos] == '.')
         {
             ++pos;
-            constexpr auto max_fraction = ((std::int64_t)1 << fixed::precision) - 1;
-            I divisor = I(1);
+            const auto dec_pos = pos;
             while(pos < len)
             {
                 if(!check_ch(str[pos]))
                     return false;
-                if(dec_part > max_fraction / 10)
-                {
-                    break;
-                }
-                auto digit = next() - '0';
-                dec_part = dec_part * 10 + digit;
-                divisor *= 10;
+                next();
             }
-            fixed_value = (int_part << fixed::precision) + (dec_part << fixed::precision) / divisor;
-        }
-        else
-        {
-            fixed_value = int_part << fixed::precision;
+            dec_part = parse_dec_part<I, f>(str + dec_pos, str + pos);
         }
 
-        // check overflow
-        if(fixed_value > static_cast<I>(std::numeric_limits<T>::max()) || fixed_value < static_cast<I>(std::numeric_limits<T>::min()))
-        {
-            return false;
-        }
-
-        fp = fixed::from_internal_value(static_cast<T>(fixed_value));
-        if(negative)
-            fp = -fp;
-        return true;
+        return parse_result((int_part << f) + dec_part, negative, fp);
     }
 } // namespace detail
 
@@ -932,52 +950,30 @@ inline bool f32_from_cstring(const char* str, size_t len, fixed32& fp) noexcept
         {
             return false;
         }
-        int_part = int_part * 10 + (next() - '0');
+        detail::parse_int_digit<int32_t, int64_t, fixed32::precision>(int_part, next() - '0');
     }
-    int64_t fixed_value;
     // parse the decimal part.
     if(has_next() && peek() == '.')
     {
         ++pos;
-        constexpr auto max_fraction = (1 << fixed32::precision) - 1;
-        int64_t divisor = 1;
+        const auto dec_pos = pos;
         while(has_next())
         {
             if(!check_ch(peek()))
             {
                 return false;
             }
-            if(dec_part > max_fraction / 10)
-            {
-                break;
-            }
-            auto digit = next() - '0';
-            dec_part = dec_part * 10 + digit;
-            divisor *= 10;
+            next();
         }
-        fixed_value = (int_part << fixed32::precision) + (dec_part << fixed32::precision) / divisor;
-    }
-    else
-    {
-        fixed_value = int_part << fixed32::precision;
+        dec_part = detail::parse_dec_part<int64_t, fixed32::precision>(str + dec_pos, str + pos);
     }
 
-    // check overflow
-    if(fixed_value > static_cast<int64_t>(std::numeric_limits<int32_t>::max()) || fixed_value < static_cast<int64_t>(std::numeric_limits<int32_t>::min()))
-    {
-        return false;
-    }
-
-    fp = fixed32::from_internal_value(static_cast<int32_t>(fixed_value));
-    if(negative)
-        fp = -fp;
-    return true;
+    return detail::parse_result((int_part << fixed32::precision) + dec_part, negative, fp);
 }
 
 template <typename T, typename I, unsigned int f, bool r>
 constexpr bool fixed_from_cstring(const char* str, size_t len, fixed_num<T, I, f, r>& fp) noexcept
 {
-    using fixed = fixed_num<T, I, f, r>;
     size_t pos = 0;
     bool negative = false;
     auto peek = [&]() -> char
@@ -1010,40 +1006,19 @@ constexpr bool fixed_from_cstring(const char* str, size_t len, fixed_num<T, I, f
     {
         if(!check_ch(peek()))
             break;
-        int_part = int_part * 10 + (next() - '0');
+        detail::parse_int_digit<T, I, f>(int_part, next() - '0');
     }
-    I fixed_value = I(0);
     // parse the decimal part.
     if(has_next() && peek() == '.')
     {
         next();
-        constexpr auto max_fraction = (T(1) << f) - T(1);
-        I divisor = I(1);
-        while(has_next())
-        {
-            if(dec_part > max_fraction / 10 || !check_ch(peek()))
-                break;
-            auto digit = next() - '0';
-            dec_part = dec_part * 10 + digit;
-            divisor *= 10;
-        }
-        fixed_value = (int_part << f) + (dec_part << f) / divisor;
-    }
-    else
-    {
-        fixed_value = (int_part << f);
-    }
-
-    // check overflow
-    if(fixed_value > static_cast<I>(std::numeric_limits<T>::max()) || fixed_value < static_cast<I>(std::numeric_limits<T>::min()))
-    {
-        return false;
+        const auto dec_pos = pos;
+        while(has_next() && check_ch(peek()))
+            next();
+        dec_part = detail::parse_dec_part<I, f>(str + dec_pos, str + pos);
     }
 
-    fp = fixed::from_internal_value(static_cast<T>(fixed_value));
-    if(negative)
-        fp = -fp;
-    return true;
+    return detail::parse_result((int_part << f) + dec_part, negative, fp);
 }
 
 template <typename CharT, class Traits, typename T, typename I, unsigned int f, bool r>
-- 
2.43.0


From 302e472685d4c4a04912e3a9f68a09130b3ef652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:35 +0000
Subject: [PATCH 21/50] fix: stream input overflowed, did not skip whitespaces
 and never failed

---
 include/eirin/fixed.hpp | 50 +++++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 24 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 39204e1..4542950 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -1022,9 +1022,8 @@ constexpr bool fixed_from_cstring(const char* str, size_t len, fixed_num<T, I, f
 }
 
 template <typename CharT, class Traits, typename T, typename I, unsigned int f, bool r>
-std::basic_istream<CharT, Traits>& operator>>(std::basic_istream<CharT, Traits>& is, fixed_num<T, I, f, r>& fp) noexcept
+std::basic_istream<CharT, Traits>& operator>>(std::basic_istream<CharT, Traits>& is, fixed_num<T, I, f, r>& fp)
 {
-    using fixed = fixed_num<T, I, f, r>;
     bool negative = false;
     auto peek = [&]() -> CharT
     {
@@ -1036,49 +1035,52 @@ std::basic_istream<CharT, Traits>& operator>>(std::basic_istream<CharT, Traits>&
     };
     auto has_next = [&]() -> bool
     {
-        auto ch = is.peek();
-        return !is.eof();
+        // peeking again at the end of the stream would set the failbit.
+        return is.good() && !Traits::eq_int_type(is.peek(), Traits::eof());
     };
-    if(!has_next())
+    auto check_ch = [](CharT ch) -> bool
+    {
+        return '0' <= ch && ch <= '9';
+    };
+    // skip the leading whitespaces, and fail at the end of the stream.
+    typename std::basic_istream<CharT, Traits>::sentry sentry(is);
+    if(!sentry)
     {
         return is;
     }
-    else if(peek() == '-')
+    else if(has_next() && peek() == '-')
     {
         negative = true;
         next();
     }
 
-    T int_part = T(0), dec_part = T(0);
+    I int_part = I(0), dec_part = I(0);
+    bool has_digit = false;
     // parse the integer part.
     while(has_next() && peek() != '.')
     {
-        if(!isdigit(peek()))
+        if(!check_ch(peek()))
             break;
-        int_part = int_part * 10 + (next() - '0');
+        detail::parse_int_digit<T, I, f>(int_part, next() - '0');
+        has_digit = true;
     }
     // parse the decimal part.
     if(has_next() && peek() == '.')
     {
         next();
-        constexpr auto max_fraction = (T(1) << f) - T(1);
-        T scale = T(1), divisor = T(1);
-        while(has_next())
+        std::array<CharT, f> digits{};
+        size_t count = 0;
+        while(has_next() && check_ch(peek()))
         {
-            if(dec_part > max_fraction / 10 || !isdigit(peek()))
-                break;
-            auto digit = next() - '0';
-            dec_part = dec_part * 10 + digit;
-            divisor *= 10;
+            auto digit = next();
+            if(count < f)
+                digits[count++] = digit;
+            has_digit = true;
         }
-        fp = fixed::from_internal_value((int_part << f) + (dec_part << f) / divisor);
-    }
-    else
-    {
-        fp = fixed::from_internal_value(int_part << f);
+        dec_part = detail::parse_dec_part<I, f>(digits.data(), digits.data() + count);
     }
-    if(negative)
-        fp = -fp;
+    if(!has_digit || !detail::parse_result((int_part << f) + dec_part, negative, fp))
+        is.setstate(std::ios_base::failbit);
     return is;
 }
 
-- 
2.43.0


From 25da8116b42c03bbaa356a62e71789c923cd31a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:35 +0000
Subject: [PATCH 22/50] fix: io::parse overflowed, lost digits, and read past
 the end of a string_view

---
 include/eirin/io/parse.hpp | 67 ++++++++++++++++++++------------------
 1 file changed, 36 insertions(+), 31 deletions(-)

diff --git a/include/eirin/io/parse.hpp b/include/eirin/io/parse.hpp
index 78eca81..c5dc04b 100644
--- a/include/eirin/io/parse.hpp
+++ b/include/eirin/io/parse.hpp
@@ -8,15 +8,10 @@
 
 namespace eirin::io
 {
-/**
- * @brief Parse fixed point number from string
- *
- * @param start the beginning pos of the pointer.
- * @param stop the end pos of the pointer.
- * @param out tge output fixed point number
- * @return the pos of the pointer.
- */
-inline const char* parse(const char* start, const char* stop, fixed32& out)
+namespace detail
+{
+template <typename IsEnd>
+inline const char* parse_until(const char* start, IsEnd is_end, fixed32& out)
 {
     size_t pos = 0;
     bool negative = false;
@@ -31,7 +26,7 @@ inline const char* parse(const char* start, const char* stop, fixed32& out)
     };
     auto has_next = [&]() -> bool
     {
-        return *start != *stop;
+        return !is_end(start);
     };
 
     if(has_next() && peek() == '-')
@@ -45,7 +40,7 @@ inline const char* parse(const char* start, const char* stop, fixed32& out)
         return '0' <= ch && ch <= '9';
     };
 
-    int32_t int_part = 0, dec_part = 0;
+    int64_t int_part = 0, dec_part = 0;
     // parse the integer part.
     while(has_next() && peek() != '.')
     {
@@ -53,44 +48,54 @@ inline const char* parse(const char* start, const char* stop, fixed32& out)
         {
             return start -= pos;
         }
-        int_part = int_part * 10 + (next() - '0');
+        eirin::detail::parse_int_digit<int32_t, int64_t, fixed32::precision>(int_part, next() - '0');
     }
     // parse the decimal part.
     if(has_next() && peek() == '.')
     {
         next();
-        constexpr auto max_fraction = (1 << fixed32::precision) - 1;
-        int32_t divisor = 1;
+        const char* digits = start;
         while(has_next())
         {
             if(!is_digit(peek()))
             {
                 return start -= pos;
             }
-            if(dec_part > max_fraction / 10)
-            {
-                break;
-            }
-            auto digit = next() - '0';
-            dec_part = dec_part * 10 + digit;
-            divisor *= 10;
+            next();
         }
-        out = fixed32::from_internal_value((int_part << fixed32::precision) + (dec_part << fixed32::precision) / divisor);
-    }
-    else
-    {
-        out = fixed32::from_internal_value(int_part << fixed32::precision);
+        dec_part = eirin::detail::parse_dec_part<int64_t, fixed32::precision>(digits, start);
     }
-    if(negative)
-        out = -out;
+    if(!eirin::detail::parse_result((int_part << fixed32::precision) + dec_part, negative, out))
+        return start -= pos;
     return start;
 }
+} // namespace detail
+
+/**
+ * @brief Parse fixed point number from string
+ *
+ * @param start the beginning pos of the pointer.
+ * @param stop the end pos of the pointer.
+ * @param out tge output fixed point number
+ * @return the pos of the pointer.
+ */
+inline const char* parse(const char* start, const char* stop, fixed32& out)
+{
+    return detail::parse_until(
+        start,
+        [stop](const char* pos)
+        { return *pos == *stop; },
+        out
+    );
+}
 
 inline const char* parse(std::string_view str, fixed32& out)
 {
-    return parse(
-        std::to_address(str.begin()),
-        std::to_address(str.end()),
+    const char* stop = str.data() + str.size();
+    return detail::parse_until(
+        str.data(),
+        [stop](const char* pos)
+        { return pos == stop; },
         out
     );
 }
-- 
2.43.0


From 67fccc3d11320d8eeec3a2016012125270841a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:00 +0000
Subject: [PATCH 23/50] fix: format printed wrong digits for types with many
 fraction bits, and a dangling point for precision 0

---
 include/eirin/io/format.hpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/include/eirin/io/format.hpp b/include/eirin/io/format.hpp
index 1448dff..188ef3f 100644
--- a/include/eirin/io/format.hpp
+++ b/include/eirin/io/format.hpp
@@ -137,7 +137,8 @@ public:
                     frac_val = -frac_val;
             }
 
-            bool has_frac = (frac_val != 0);
+            int eff_prec = (m_state.precision < 0) ? 6 : m_state.precision;
+            bool has_frac = (frac_val != 0 && eff_prec > 0);
             int used_prec = 0;
 
             if(has_frac)
@@ -148,16 +149,15 @@ public:
                                          detail::digit_map_upper :
                                          detail::digit_map_lower;
 
-                int eff_prec = (m_state.precision < 0) ? 6 : m_state.precision;
-
-                T frac_bits = frac_val;
+                // the frac_bits * 10 might be not representable in T.
+                I frac_bits = frac_val;
                 for(unsigned int i = 0; i < F && used_prec < eff_prec; ++i)
                 {
                     if(frac_bits == 0) break;
 
-                    T shifted = frac_bits * static_cast<T>(10);
-                    T digit = shifted >> F;
-                    frac_bits = shifted & ((static_cast<T>(1) << F) - static_cast<T>(1));
+                    I shifted = frac_bits * static_cast<I>(10);
+                    I digit = shifted >> F;
+                    frac_bits = shifted & ((static_cast<I>(1) << F) - static_cast<I>(1));
 
                     body.push_back(static_cast<CharT>(digits[static_cast<size_t>(digit)]));
                     ++used_prec;
@@ -167,7 +167,6 @@ public:
             // trailing zeros for fixed-point types (f/F)
             if(m_state.type == 'f' || m_state.type == 'F')
             {
-                int eff_prec = (m_state.precision < 0) ? 6 : m_state.precision;
                 while(used_prec < eff_prec)
                 {
                     if(used_prec == 0)
-- 
2.43.0


From 8635d4cc86919531e2cd2a1df891a591a3dd3c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:00 +0000
Subject: [PATCH 24/50] fix: format put the zero padding in front of the sign
 or behind the digits

---
 include/eirin/io/format.hpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/eirin/io/format.hpp b/include/eirin/io/format.hpp
index 188ef3f..6d55f39 100644
--- a/include/eirin/io/format.hpp
+++ b/include/eirin/io/format.hpp
@@ -124,7 +124,7 @@ public:
             {
                 body = prefix + digit_str;
             }
-            return output_aligned(out, body);
+            return output_aligned(out, body, prefix.size());
         }
 
         body = prefix + digit_str;
@@ -177,7 +177,7 @@ public:
             }
         }
 
-        return output_aligned(out, body);
+        return output_aligned(out, body, prefix.size());
     }
 
 private:
@@ -217,6 +217,7 @@ private:
 
         if(m_state.alt_form)
             append_alt_prefix(body, 16, upper);
+        const auto prefix_size = body.size();
 
         const auto& digits = detail::digit_map_lower;
 
@@ -236,7 +237,7 @@ private:
             body += rev;
         }
 
-        return output_aligned(out, body);
+        return output_aligned(out, body, prefix_size);
     }
 
     // Convert an integer to a string in the given base
@@ -323,14 +324,22 @@ private:
     }
 
     template <typename OutputIt>
-    OutputIt output_aligned(OutputIt out, const std::basic_string<CharT>& body) const
+    OutputIt output_aligned(OutputIt out, const std::basic_string<CharT>& body, std::size_t prefix_size) const
     {
         auto sz = body.size();
         if(m_state.width_val <= 0 || static_cast<std::size_t>(m_state.width_val) <= sz)
             return std::copy(body.begin(), body.end(), out);
 
         std::size_t pad_cnt = static_cast<std::size_t>(m_state.width_val) - sz;
-        CharT pad_ch = m_state.zero_pad ? static_cast<CharT>('0') : m_state.fill_ch;
+        CharT pad_ch = m_state.fill_ch;
+
+        // zeros are inserted after the sign and the base prefix.
+        if(m_state.zero_pad)
+        {
+            out = std::copy(body.begin(), body.begin() + prefix_size, out);
+            out = std::fill_n(out, pad_cnt, static_cast<CharT>('0'));
+            return std::copy(body.begin() + prefix_size, body.end(), out);
+        }
 
         char eff_align = (m_state.align_mode == '\0') ? '>' : m_state.align_mode;
 
-- 
2.43.0


From dfc2d29803d29d4903c3549565ee593e0d2f0ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:00 +0000
Subject: [PATCH 25/50] fix: format took the text behind an empty replacement
 field for its fill and align

---
 include/eirin/io/format.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/eirin/io/format.hpp b/include/eirin/io/format.hpp
index 6d55f39..8c28dd2 100644
--- a/include/eirin/io/format.hpp
+++ b/include/eirin/io/format.hpp
@@ -415,7 +415,8 @@ public:
         {
             auto nxt = it;
             ++nxt;
-            if(nxt != end && (*nxt == '<' || *nxt == '>' || *nxt == '^'))
+            // '}' is the end of the replacement field, not a fill character.
+            if(*it != '}' && nxt != end && (*nxt == '<' || *nxt == '>' || *nxt == '^'))
             {
                 st.fill_ch = *it;
                 st.align_mode = *nxt;
-- 
2.43.0


From 79b269b4b202c9c3228631987bfd0a0974b0f3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:00 +0000
Subject: [PATCH 26/50] fix: format overflowed on too large width and precision

---
 include/eirin/io/format.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/eirin/io/format.hpp b/include/eirin/io/format.hpp
index 8c28dd2..4be078b 100644
--- a/include/eirin/io/format.hpp
+++ b/include/eirin/io/format.hpp
@@ -456,7 +456,7 @@ public:
             st.width_val = 0;
             while(it != end && *it >= '0' && *it <= '9')
             {
-                st.width_val = st.width_val * 10 + static_cast<int>(*it - '0');
+                append_number(st.width_val, static_cast<int>(*it - '0'));
                 ++it;
             }
         }
@@ -468,7 +468,7 @@ public:
             st.precision = 0;
             while(it != end && *it >= '0' && *it <= '9')
             {
-                st.precision = st.precision * 10 + static_cast<int>(*it - '0');
+                append_number(st.precision, static_cast<int>(*it - '0'));
                 ++it;
             }
         }
@@ -512,6 +512,13 @@ public:
 
 private:
     my_base_fmt m_fmt;
+
+    static constexpr void append_number(int& num, int digit)
+    {
+        if(num > (std::numeric_limits<int>::max() - digit) / 10)
+            EIRIN_THROW_EXCEPTION(std::format_error, "width or precision is too large");
+        num = num * 10 + digit;
+    }
 };
 
 #endif
-- 
2.43.0


From d1d4144925598b4de71e6d81103dcdcbf394087b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:00 +0000
Subject: [PATCH 27/50] fix: pcg shifted by more than the width of the type,
 which is undefined

---
 include/eirin/random.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/eirin/random.hpp b/include/eirin/random.hpp
index 8b74e59..7da6b5e 100644
--- a/include/eirin/random.hpp
+++ b/include/eirin/random.hpp
@@ -50,7 +50,7 @@ protected:
 
     EIRIN_ALWAYS_INLINE UIntType mix_first(UIntType x)
     {
-        x >>= 8 ^ x;
+        x ^= x >> 8;
         x += increment;
         return x;
     }
@@ -64,7 +64,7 @@ protected:
 
     EIRIN_ALWAYS_INLINE UIntType mix_second(UIntType x)
     {
-        x >>= 8 ^ x;
+        x ^= x >> 8;
         x *= mix_multiplier;
         return x;
     }
-- 
2.43.0


From f7f20f8b618e12d2d9e7a7a91b0eea9cc2d406bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:00 +0000
Subject: [PATCH 28/50] fix: pcg never generated numbers of the upper half of
 its range

---
 include/eirin/random.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/random.hpp b/include/eirin/random.hpp
index 7da6b5e..05b88d5 100644
--- a/include/eirin/random.hpp
+++ b/include/eirin/random.hpp
@@ -74,7 +74,7 @@ protected:
         result_type val = m_state * multiplier + m_seed;
         val = mix_second(_xor(mix_first(val)));
         ++m_state;
-        return (val & 0x7FFFFFFE) ^ (val >> 8);
+        return val ^ (val >> 8);
     }
 
 public:
-- 
2.43.0


From 502f222b67a2e3ce0befebba3eb0686960ab876d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:00 +0000
Subject: [PATCH 29/50] fix: seeding a used pcg did not restart its sequence

---
 include/eirin/random.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/eirin/random.hpp b/include/eirin/random.hpp
index 05b88d5..ba99cb5 100644
--- a/include/eirin/random.hpp
+++ b/include/eirin/random.hpp
@@ -101,6 +101,7 @@ public:
     void seed(result_type seed = default_seed)
     {
         m_seed = seed;
+        m_state = state;
     }
 
     void seed(std::seed_seq& seq)
-- 
2.43.0


From 4c07a51f444733e3d824746184496f9d6fca8291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:00 +0000
Subject: [PATCH 30/50] fix: distribution adapters ignored the param passed to
 the call

---
 include/eirin/detail/distribution.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/eirin/detail/distribution.hpp b/include/eirin/detail/distribution.hpp
index 376a9fa..81ca21f 100644
--- a/include/eirin/detail/distribution.hpp
+++ b/include/eirin/detail/distribution.hpp
@@ -101,8 +101,7 @@ public:
     template <typename _UniformRandomBitGenerator>
     FixedType operator()(_UniformRandomBitGenerator& g, const param_type& param)
     {
-        // the m_param and the underlying distribution should be consistent, so just call m_dist.operator(g)
-        auto raw_val = m_dist(g);
+        auto raw_val = m_dist(g, param.to_underlying());
         return FixedType::template from_fixed_num_value<result_type::precision>(static_cast<value_type>(raw_val));
     }
 
@@ -237,8 +236,7 @@ public:
     template <typename _UniformRandomBitGeneratorAdapter>
     FixedType operator()(_UniformRandomBitGeneratorAdapter& a, const param_type& param)
     {
-        // the m_param and the underlying distribution should be consistent, so just call m_dist.operator(g)
-        auto raw_val = m_dist(a.__underlying_engine());
+        auto raw_val = m_dist(a.__underlying_engine(), param.to_underlying());
         return FixedType::template from_fixed_num_value<result_type::precision>(static_cast<value_type>(raw_val));
     }
 
-- 
2.43.0


From 64ac4b0f095b7ed06e8fbb1622e987da43b9f105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:00 +0000
Subject: [PATCH 31/50] fix: reduce angle with AVX-512 lost the high bits of
 the products

---
 include/eirin/ext/simd_math.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/eirin/ext/simd_math.hpp b/include/eirin/ext/simd_math.hpp
index 49ff889..ba82705 100644
--- a/include/eirin/ext/simd_math.hpp
+++ b/include/eirin/ext/simd_math.hpp
@@ -112,11 +112,8 @@ namespace detail
 {
     EIRIN_ALWAYS_INLINE __m256i avx_mm256_mullo_epi64(__m256i __A, __m256i __B)
     {
-#ifdef __AVX512DQ__
-        // For machines with AVX-512, we just calc (a * b) >> 32.
-        return _mm256_srli_epi64(_mm256_mullo_epi64(__A, __B), 32);
-#else
-        // Fallback implementation for lane-wise 64-bit multiplication without AVX-512.
+        // Lane-wise (a * b) >> 32. The mullo of AVX-512 can not be used, since it drops
+        // the high 64 bits of the product.
         // Compute sign masks (0 or -1) from sign bit using shifts to avoid
         // relying on potentially unavailable 64-bit compare intrinsics.
         __m256i sign_bit_a = _mm256_srli_epi64(__A, 63);
@@ -147,7 +144,6 @@ namespace detail
         // restore sign
         __m256i sign = _mm256_xor_si256(sign_mask_a, sign_mask_b);
         return _mm256_sub_epi64(_mm256_xor_si256(result, sign), sign);
-#endif
     }
 
     EIRIN_ALWAYS_INLINE __m256i _mm256_fpint_epi64(__m256i __X)
-- 
2.43.0


From cb017a62f80dc185e44e09295b748a1ac558f0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:00 +0000
Subject: [PATCH 32/50] fix: the 2-lanes reduce angle only multiplied the low
 32 bits and swapped its lanes

---
 include/eirin/ext/simd_math.hpp | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/include/eirin/ext/simd_math.hpp b/include/eirin/ext/simd_math.hpp
index ba82705..ebc31a5 100644
--- a/include/eirin/ext/simd_math.hpp
+++ b/include/eirin/ext/simd_math.hpp
@@ -199,15 +199,8 @@ namespace detail
 
     EIRIN_ALWAYS_INLINE __m128i __sse_simd_reduce_angle(__m128i x)
     {
-        // these [2 * i64] vector stores the fixed point internal represent.
-        static constexpr int64_t two_pi_v[2] = {(numbers::pi_f64 * 2_f64).internal_value(), (numbers::pi_f64 * 2_f64).internal_value()};
-        static constexpr int64_t inv_two_pi_v[2] = {(1_f64 / (numbers::pi_f64 * 2_f64)).internal_value(), (1_f64 / (numbers::pi_f64 * 2_f64)).internal_value()};
-        static const __m128i two_pi = _mm_lddqu_si128((__m128i*)two_pi_v);
-        static const __m128i inv_two_pi = _mm_lddqu_si128((__m128i*)inv_two_pi_v);
-        // n = x / (2pi)
-        __m128i n = _mm_mul_epi32(x, inv_two_pi);
-        // x = x - n * (2pi)
-        return _mm_sub_epi64(x, _mm_mul_epi32(n, two_pi));
+        // use the low half of the 4-lanes version, since _mm_mul_epi32 only multiplies the low 32 bits.
+        return _mm256_castsi256_si128(__avx__simd_reduce_angle(_mm256_broadcastsi128_si256(x)));
     }
 } // namespace detail
 
@@ -225,7 +218,7 @@ EIRIN_ALWAYS_INLINE std::array<fixed64, 2> simd_reduce_angle_2(std::array<fixed6
 {
     __m128i xv = _mm_lddqu_si128((__m128i*)xs.data());
     __m128i rv = detail::__sse_simd_reduce_angle(xv);
-    int64_t r1 = _mm_extract_epi64(rv, 0b1), r2 = _mm_extract_epi64(rv, 0b0);
+    int64_t r1 = _mm_extract_epi64(rv, 0b0), r2 = _mm_extract_epi64(rv, 0b1);
     return {FIXED64(r1), FIXED64(r2)};
 }
 
-- 
2.43.0


From 6c4a711990e589747da6a23f1e9cdd1bbe4966c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:47 +0000
Subject: [PATCH 33/50] fix: lut sine used a table of different step, and was
 wrong for negative angles

---
 include/eirin/detail/util.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/eirin/detail/util.hpp b/include/eirin/detail/util.hpp
index f4da867..dc3929a 100644
--- a/include/eirin/detail/util.hpp
+++ b/include/eirin/detail/util.hpp
@@ -210,7 +210,8 @@ namespace lut
     std::array<fixed64, N> func_ptr_lut(fixed64 (*func)(fixed64))
     {
         std::array<fixed64, N> lut = {};
-        constexpr fixed64 step = eirin::numbers::pi_f64 / fixed64(N);
+        // the table covers the [0, pi], including both ends.
+        constexpr fixed64 step = eirin::numbers::pi_f64 / fixed64(N - 1);
         for(size_t i = 0; i < N; ++i)
         {
             lut[i] = func(step * fixed64(i));
@@ -230,12 +231,13 @@ namespace lut
         static auto lut = func_ptr_lut<N>(__sin);
         // linear interpolation
         constexpr auto two_pi = eirin::numbers::pi_f64 * 2_f64;
-        auto x_mod = x - two_pi * (x / two_pi).integral_part();
-        bool negate = false;
+        // sin(-x) = -sin(x), and the abs of the remainder never overflows.
+        bool negate = x < fixed64(0);
+        auto x_mod = abs(x % two_pi);
         if(x_mod >= eirin::numbers::pi_f64)
         {
             x_mod -= eirin::numbers::pi_f64;
-            negate = true;
+            negate = !negate;
         }
 
         // 3. Linear interpolation
-- 
2.43.0


From a829894e6eb81147fdcf7686ff6acf2cfb9b172c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:19 +0000
Subject: [PATCH 34/50] fix: rounding construct from floating points was off by
 one for large numbers and numbers next to a half

---
 include/eirin/fixed.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 4542950..2566061 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -196,9 +196,14 @@ public:
         }
         else
         {
-            m_value = static_cast<Type>(
-                rounding ? (val >= 0.0) ? (val * fraction_multiplier + T{0.5}) : (val * fraction_multiplier - T{0.5}) : (val * fraction_multiplier)
-            );
+            const T scaled = val * static_cast<T>(fraction_multiplier);
+            m_value = static_cast<Type>(scaled);
+            if constexpr(rounding)
+            {
+                // do not add 0.5 before the conversion, since the sum might be not representable in T.
+                const T rest = scaled - static_cast<T>(m_value);
+                m_value += static_cast<Type>(rest >= T{0.5}) - static_cast<Type>(rest <= T{-0.5});
+            }
         }
     };
 
-- 
2.43.0


From f4633efa6967b7a1ca9125522a7619d7ededba31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:00 +0000
Subject: [PATCH 35/50] fix: the remainder of the minimum and the smallest
 negative number crashed

---
 include/eirin/fixed.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 2566061..ef72492 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -155,6 +155,17 @@ class fixed_num
         }
     }
 
+    // min % -1 is undefined for integers, because the quotient is not representable.
+    static constexpr inline Type remainder_raw(Type lhs, Type rhs) noexcept
+    {
+        if constexpr(std::is_signed_v<Type>)
+        {
+            if(rhs == Type(-1))
+                return Type(0);
+        }
+        return static_cast<Type>(lhs % rhs);
+    }
+
 public:
     typedef Type value_type;
     typedef IntermediateType intermediate_type;
@@ -425,12 +436,12 @@ public:
 
     constexpr inline fixed_num operator%(const fixed_num& other) const noexcept
     {
-        return fixed_num(m_value % other.m_value, raw_value_construct_tag{});
+        return fixed_num(remainder_raw(m_value, other.m_value), raw_value_construct_tag{});
     }
 
     constexpr inline fixed_num& operator%=(const fixed_num& other) noexcept
     {
-        m_value %= other.m_value;
+        m_value = remainder_raw(m_value, other.m_value);
         return *this;
     }
 
-- 
2.43.0


From f0d5b29da584374d915c999e8419587197a3bf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:40 +0000
Subject: [PATCH 36/50] fix: format dropped a colon used as the fill character

The argument id and the colon behind it are never part of the context
passed to formatter::parse, so there is nothing to skip.
---
 include/eirin/io/format.hpp | 14 --------------
 1 file changed, 14 deletions(-)

diff --git a/include/eirin/io/format.hpp b/include/eirin/io/format.hpp
index 4be078b..2c6e1f4 100644
--- a/include/eirin/io/format.hpp
+++ b/include/eirin/io/format.hpp
@@ -397,20 +397,6 @@ public:
             return it;
         }
 
-        {
-            auto p = it;
-            while(p != end && *p >= '0' && *p <= '9')
-                ++p;
-            if(p != end && *p == ':')
-                it = p + 1;
-        }
-
-        if(it == end)
-        {
-            m_fmt.set_state(st);
-            return it;
-        }
-
         // [[fill]align]
         {
             auto nxt = it;
-- 
2.43.0


From a7ff884b7a1e5663b8cc93721d4c4c2ea1ce187f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:29 +0000
Subject: [PATCH 37/50] fix: sqrt no longer overflows when the square of an
 iteration is not representable

---
 include/eirin/math.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 8c6a422..b363f71 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -168,7 +168,9 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> sqrt(fixed_num<T, I, f, r> f
         for(int i = 0; i < 5; ++i)
         {
             x = (x + fp / x) / 2;
-            if(abs(fp - x * x) < eps)
+            // x * x might be not representable in T.
+            const I diff = static_cast<I>(val) - ((static_cast<I>(x.internal_value()) * x.internal_value()) >> f);
+            if((diff < 0 ? -diff : diff) < static_cast<I>(eps.internal_value()))
                 break;
         }
         return x;
-- 
2.43.0


From af09ece9a0d54dd8d1974b8451f54bab6bc42227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:39 +0000
Subject: [PATCH 38/50] fix: printing moved an iterator before the begin of its
 buffer, so was not usable in constant expressions

---
 include/eirin/fixed.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index ef72492..210cd63 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -596,14 +596,13 @@ public:
                 int_part /= base;
                 if(iter == buffer.end())
                 {
-                    while(iter-- != buffer.begin())
-                        put_char(*iter);
-                    iter = buffer.begin();
+                    while(iter != buffer.begin())
+                        put_char(*--iter);
                 }
             }
         }
-        while(iter-- != buffer.begin())
-            put_char(*iter);
+        while(iter != buffer.begin())
+            put_char(*--iter);
 
         if(value != 0)
         {
-- 
2.43.0


From eab012af868919433b4c7642db9f5d9a9975ba4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:03 +0000
Subject: [PATCH 39/50] fix: bbp_calc_pi used powers of 16^4 instead of 16

---
 include/eirin/detail/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/detail/util.hpp b/include/eirin/detail/util.hpp
index dc3929a..d79ef50 100644
--- a/include/eirin/detail/util.hpp
+++ b/include/eirin/detail/util.hpp
@@ -178,7 +178,7 @@ namespace pi_calc
         for(int k = 0; k < N; ++k)
         {
             intermediate_t factor = frac_mult;
-            for(int i = 0; i < 4 * k; ++i)
+            for(int i = 0; i < k; ++i)
                 factor /= 16;
 
             intermediate_t term1 = (4 * factor) / (8 * k + 1);
-- 
2.43.0


From db5a7c9aaa016926cbb21dd05cd448019daf7436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:03 +0000
Subject: [PATCH 40/50] fix: bbp_calc_pi did not compile for store types of 32
 bits and less

---
 include/eirin/detail/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/detail/util.hpp b/include/eirin/detail/util.hpp
index d79ef50..0a43658 100644
--- a/include/eirin/detail/util.hpp
+++ b/include/eirin/detail/util.hpp
@@ -163,7 +163,7 @@ namespace pi_calc
     {
 // BBP formula: pi = sum(k=0~inf){1/16^k * (4/(8k+1) - 2/(8k+4) - 1/(8k+5) - 1/(8k+6))}
 #ifdef EIRIN_MATH_HAS_INT128
-        using intermediate_t = typename std::conditional<sizeof(T) <= 4, std::conditional<sizeof(T) <= 2, int32_t, int64_t>, detail::int128_t>::type;
+        using intermediate_t = std::conditional_t<sizeof(T) <= 4, std::conditional_t<sizeof(T) <= 2, int32_t, int64_t>, detail::int128_t>;
 #else
         if constexpr(sizeof(T) <= 2)
             using intermediate_t = int32_t;
-- 
2.43.0


From 7ab2fe4a7ccc1cacc41c6a7680bac385cb9177e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:08 +0000
Subject: [PATCH 41/50] fix: platform_support reported no features to threads
 that query while another one detects them

features_detected was set before the flags were, and neither is atomic, so concurrent first
calls were a data race. Detect in the initializer of a local static variable instead.
---
 include/eirin/ext/simd_math.hpp | 40 +++++++++++++--------------------
 1 file changed, 16 insertions(+), 24 deletions(-)

diff --git a/include/eirin/ext/simd_math.hpp b/include/eirin/ext/simd_math.hpp
index ebc31a5..ea44844 100644
--- a/include/eirin/ext/simd_math.hpp
+++ b/include/eirin/ext/simd_math.hpp
@@ -27,17 +27,11 @@ namespace eirin::simd
 {
 class platform_support
 {
-    static inline bool features_detected = false;
-
     // we only consider to support x86 for now.
     // a bit set for storeage.
-    static inline std::bitset<8> features_flag = 0x00;
-
-    EIRIN_ALWAYS_INLINE static void detect_features()
+    static std::bitset<8> detect_features()
     {
-        if(features_detected) [[likely]]
-            return;
-        features_detected = true;
+        std::bitset<8> features_flag = 0x00;
 #ifdef EIRIN_ARCH_X86
 #    if defined(__GNUC__) || defined(__clang__)
         u_int32_t eax, ebx, ecx, edx;
@@ -62,49 +56,47 @@ class platform_support
         features_flag.set(3, (ebx & (1 << 5)) != 0);
         features_flag.set(4, (ebx & (1 << 16)) != 0);
         features_flag.set(5, (ebx & (1 << 17)) != 0);
-#    else
-        return;
 #    endif
-#else
-        return;
 #endif
+        return features_flag;
+    }
+
+    // the initialization of a local static variable is thread safe.
+    static const std::bitset<8>& features()
+    {
+        static const std::bitset<8> features_flag = detect_features();
+        return features_flag;
     }
 
 public:
     inline static bool supports_sse2()
     {
-        detect_features();
-        return features_flag.test(0);
+        return features().test(0);
     }
 
     inline static bool supports_sse4_2()
     {
-        detect_features();
-        return features_flag.test(1);
+        return features().test(1);
     }
 
     inline static bool supports_avx()
     {
-        detect_features();
-        return features_flag.test(2);
+        return features().test(2);
     }
 
     inline static bool supports_avx2()
     {
-        detect_features();
-        return features_flag.test(3);
+        return features().test(3);
     }
 
     inline static bool supports_avx512_f()
     {
-        detect_features();
-        return features_flag.test(4);
+        return features().test(4);
     }
 
     inline static bool supports_avx512_dq()
     {
-        detect_features();
-        return features_flag.test(5);
+        return features().test(5);
     }
 };
 
-- 
2.43.0


From 92a9d8124250a6922f14bfab15e66464c8fa016a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:10 +0000
Subject: [PATCH 42/50] fix: the headers did not compile with -fno-exceptions

EIRIN_NO_EXCEPTIONS was never defined, because __EXCEPTIONS is not defined at all (and never
different from 1) when exceptions are disabled; error.hpp did not include what it uses.
---
 include/eirin/error.hpp | 3 +++
 include/eirin/macro.hpp | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/eirin/error.hpp b/include/eirin/error.hpp
index e3d3bda..0d2d928 100644
--- a/include/eirin/error.hpp
+++ b/include/eirin/error.hpp
@@ -1,7 +1,10 @@
 #ifndef EIRIN_MATH_ERROR_HPP
 #define EIRIN_MATH_ERROR_HPP
 
+#include <exception>
 #include <stdexcept>
+#include <utility>
+#include "macro.hpp"
 
 namespace eirin
 {
diff --git a/include/eirin/macro.hpp b/include/eirin/macro.hpp
index b6e52ac..151671a 100644
--- a/include/eirin/macro.hpp
+++ b/include/eirin/macro.hpp
@@ -15,7 +15,8 @@
 #    define EIRIN_ALWAYS_INLINE inline
 #endif
 
-#if defined(__EXCEPTIONS) && __EXCEPTIONS != 1
+// __EXCEPTIONS is not defined at all with -fno-exceptions
+#if defined(__GNUC__) && !defined(__EXCEPTIONS)
 #    define EIRIN_NO_EXCEPTIONS
 #endif
 
-- 
2.43.0


From 9145cc31b8d26fbe718e555167f9d2a310f197db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:45 +0000
Subject: [PATCH 43/50] fix: cordic_sine is declared constexpr but was not
 usable in constant expressions

---
 include/eirin/ext/cordic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/ext/cordic.hpp b/include/eirin/ext/cordic.hpp
index b475859..1d26a1f 100644
--- a/include/eirin/ext/cordic.hpp
+++ b/include/eirin/ext/cordic.hpp
@@ -19,7 +19,7 @@ namespace detail
     }
 
     template <fixed_point T>
-    const T K = cordic_k<T>();
+    inline constexpr T K = cordic_k<T>();
 
     template <typename T, typename I, unsigned int f, bool r>
     struct cordic_angels
-- 
2.43.0


From 694251458dbb88b73a34dca956ab7314f9e5881e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:37 +0000
Subject: [PATCH 44/50] fix: printing a random engine keeps the format flags of
 the stream

operator<< set the base field and never restored it, so numbers printed after an
engine to a std::hex stream came out in decimal.
---
 include/eirin/random.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/eirin/random.hpp b/include/eirin/random.hpp
index ba99cb5..25cb1ec 100644
--- a/include/eirin/random.hpp
+++ b/include/eirin/random.hpp
@@ -141,9 +141,12 @@ public:
     inline friend std::basic_ostream<charT, charTraits>& operator<<(std::basic_ostream<charT, charTraits>& os, const permuted_congruential_engine& obj)
     {
         // set fmtflags to dec and left, padding with space.
-        os.setf(std::ios::fmtflags(os.flags() | std::ios::dec | std::ios_base::left), std::ios::basefield);
+        const std::ios::fmtflags flags = os.flags();
+        os.setf(std::ios::dec, std::ios::basefield);
+        os.setf(std::ios_base::left, std::ios::adjustfield);
         // write the current state into the stream.
         os << obj.m_seed << ' ' << obj.m_state;
+        os.flags(flags);
         return os;
     }
 };
-- 
2.43.0


From ba414ed2ea2d04ed2a8683988ece9ff9847a074b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:23 +0000
Subject: [PATCH 45/50] fix: numeric_limits reports unsigned fixed point types
 as unsigned

---
 include/eirin/fixed.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 210cd63..f4f983a 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -1123,7 +1123,7 @@ struct numeric_limits<eirin::fixed_num<T, I, f, r>>
     using fixed_type = eirin::fixed_num<T, I, f, r>;
 
     static constexpr bool is_specialized = true;
-    static constexpr bool is_signed = true;
+    static constexpr bool is_signed = eirin::detail::is_signed<T>::value;
     static constexpr bool is_integer = false;
     static constexpr bool is_exact = true;
     static constexpr bool has_infinity = false;
@@ -1131,13 +1131,13 @@ struct numeric_limits<eirin::fixed_num<T, I, f, r>>
     static constexpr bool has_signaling_NaN = false;
 
     static constexpr fixed_type radix = fixed_type(2);
-    // 1 bit sign + fractions bits + integer bits
-    static constexpr fixed_type digits = fixed_type(sizeof(T) * 8 - 1);
-    // integer bits = sizeof(T) * 8 - 1 - f
+    // 1 bit sign (signed types only) + fractions bits + integer bits
+    static constexpr fixed_type digits = fixed_type(sizeof(T) * 8 - is_signed);
+    // integer bits = sizeof(T) * 8 - is_signed - f
     // fraction bits = f
     // digits10 = integer bits * log10(2) + fraction bits * log10(2)
     // we can use log10(2) = 643 / 2136
-    static constexpr fixed_type digits10 = fixed_type(static_cast<T>((sizeof(T) * 8 - 1) * 643L / 2136));
+    static constexpr fixed_type digits10 = fixed_type(static_cast<T>((sizeof(T) * 8 - is_signed) * 643L / 2136));
     static constexpr fixed_type min_exponent = fixed_type(0);
     static constexpr fixed_type min_exponent10 = fixed_type(10);
 
-- 
2.43.0


From a873ac87a9a394ac8433ad5310d696931149aa23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:22 +0000
Subject: [PATCH 46/50] fix: the field width applies to the whole printed
 number

operator<< wrote character by character, so the width was used up by the first
one: std::left << std::setw(8) << fixed32(3.5) printed "3       .5".
---
 include/eirin/fixed.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index f4f983a..f53eb93 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -20,6 +20,7 @@
 #include <ios>
 #include <limits>
 #include <istream>
+#include <string>
 #include <type_traits>
 #include <concepts>
 #include <iostream>
@@ -683,11 +684,13 @@ public:
 
     friend std::ostream& operator<<(std::ostream& os, const fixed_num& fp)
     {
-        auto iter = std::ostream_iterator<char>(os);
+        // print the number at once, so that the field width applies to the whole text.
+        std::string text;
         auto flags = os.flags();
         int base = (flags & std::ios_base::hex) ? 16 : ((flags & std::ios_base::dec) ? 10 : ((flags & std::ios_base::oct) ? 8 : 2));
         bool uppercase = (flags & std::ios_base::uppercase) != 0;
-        fixed_num::copy_as_chars_to(fp, iter, base, uppercase);
+        fixed_num::copy_as_chars_to(fp, std::back_inserter(text), base, uppercase);
+        os << text;
         os.flush();
         return os;
     }
-- 
2.43.0


From 09d727e9a7097ea4e978889dc876b3715514d9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:24 +0000
Subject: [PATCH 47/50] fix: sqrt of types with few integral bits does not
 overflow in its iteration

---
 include/eirin/math.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index b363f71..64b98c1 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -167,7 +167,8 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> sqrt(fixed_num<T, I, f, r> f
         auto eps = fixed::epsilon();
         for(int i = 0; i < 5; ++i)
         {
-            x = (x + fp / x) / 2;
+            // the sum of x and fp / x might be not representable in T.
+            x = fixed::from_internal_value(static_cast<T>((x.internal_value() + (static_cast<I>(val) << f) / x.internal_value()) / 2));
             // x * x might be not representable in T.
             const I diff = static_cast<I>(val) - ((static_cast<I>(x.internal_value()) * x.internal_value()) >> f);
             if((diff < 0 ? -diff : diff) < static_cast<I>(eps.internal_value()))
-- 
2.43.0


From 0405af843c232d22562b34fb90beca4677d32d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:08 +0000
Subject: [PATCH 48/50] fix: digit separators are skipped in numeric literals
 of fixed64

---
 include/eirin/fixed.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index f53eb93..1796016 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -863,8 +863,10 @@ inline namespace literals
     template <char... chars>
     constexpr inline fixed64 operator""_f64()
     {
-        auto len = sizeof...(chars);
-        const char str[] = {chars...};
+        char str[sizeof...(chars)] = {};
+        size_t len = 0;
+        // digit separators are not part of the value.
+        ((chars != '\'' ? static_cast<void>(str[len++] = chars) : static_cast<void>(0)), ...);
         fixed64 fp;
         detail::parse(str, len, fp);
         return fp;
-- 
2.43.0


From 0321351bdbda3d183e35f8fdca5d607fc79b7aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:10 +0000
Subject: [PATCH 49/50] fix: carries of the 128 bit integer extension

---
 include/eirin/ext/builtin_ints.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/eirin/ext/builtin_ints.hpp b/include/eirin/ext/builtin_ints.hpp
index d259d4a..0870fa5 100644
--- a/include/eirin/ext/builtin_ints.hpp
+++ b/include/eirin/ext/builtin_ints.hpp
@@ -21,7 +21,7 @@ public:
     template <std::integral T>
     requires(sizeof(T) <= 8)
     EIRIN_ALWAYS_INLINE explicit int128(T val) noexcept
-        : high(0), low(val){};
+        : high(val > T(0) && static_cast<int64_t>(val) < 0), low(static_cast<int64_t>(val)){};
 
     template <std::floating_point T>
     requires(sizeof(T) <= 8)
@@ -56,8 +56,10 @@ public:
 
     EIRIN_ALWAYS_INLINE constexpr int128 operator+(const int128& rhs) const noexcept
     {
-        auto h = high + rhs.high;
-        auto l = low + rhs.low;
+        // the low part is signed, so the sum of the low parts carries 1 or -1 if it is not representable.
+        const auto l = static_cast<int64_t>(static_cast<uint64_t>(low) + static_cast<uint64_t>(rhs.low));
+        const int64_t carry = (low < 0) == (rhs.low < 0) && (low < 0) != (l < 0) ? (low < 0 ? -1 : 1) : 0;
+        const auto h = static_cast<int64_t>(static_cast<uint64_t>(high) + static_cast<uint64_t>(rhs.high) + static_cast<uint64_t>(carry));
         return int128(h, l);
     }
 
-- 
2.43.0


From c5c285551ebc8093b4d2f6ab322b6dff7425a0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:39 +0000
Subject: [PATCH 50/50] fix: a number is not changed when its input stream
 breaks in the middle

---
 include/eirin/fixed.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 1796016..867e069 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -1099,6 +1099,9 @@ std::basic_istream<CharT, Traits>& operator>>(std::basic_istream<CharT, Traits>&
         }
         dec_part = detail::parse_dec_part<I, f>(digits.data(), digits.data() + count);
     }
+    // the source failed, so digits may be missing.
+    if(is.bad())
+        return is;
     if(!has_digit || !detail::parse_result((int_part << f) + dec_part, negative, fp))
         is.setstate(std::ios_base::failbit);
     return is;
-- 
2.43.0

