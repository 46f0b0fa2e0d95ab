From b62859643a4685de49f9fc04a10fcdecb2c761bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:08 +0000
Subject: [PATCH 01/24] fix: line * line swapped the e23 and e12 coefficients
 of the product

gpLL wrote the rotational part in the order (e12, e31, e23), while the
partition layout is (e23, e31, e12).
---
 public/klein/detail/x86/x86_geometric_product.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/public/klein/detail/x86/x86_geometric_product.hpp b/public/klein/detail/x86/x86_geometric_product.hpp
index e7de92e..6e6e891 100644
--- a/public/klein/detail/x86/x86_geometric_product.hpp
+++ b/public/klein/detail/x86/x86_geometric_product.hpp
@@ -263,9 +263,9 @@ namespace detail
                                       __m128* KLN_RESTRICT out) noexcept
     {
         // (-a1 b1 - a3 b3 - a2 b2) +
-        // (a2 b1 - a1 b2) e12 +
-        // (a1 b3 - a3 b1) e31 +
         // (a3 b2 - a2 b3) e23 +
+        // (a1 b3 - a3 b1) e31 +
+        // (a2 b1 - a1 b2) e12 +
         // (a1 c1 + a3 c3 + a2 c2 + b1 d1 + b3 d3 + b2 d2) e0123
         // (a3 c2 - a2 c3         + b2 d3 - b3 d2) e01 +
         // (a1 c3 - a3 c1         + b3 d1 - b1 d3) e02 +
@@ -280,11 +280,11 @@ namespace detail
         __m128& p1 = *out;
         __m128& p2 = *(out + 1);
 
-        p1 = _mm_mul_ps(KLN_SWIZZLE(a, 3, 1, 2, 1), KLN_SWIZZLE(b, 2, 3, 1, 1));
+        p1 = _mm_mul_ps(KLN_SWIZZLE(a, 2, 1, 3, 1), KLN_SWIZZLE(b, 1, 3, 2, 1));
         p1 = _mm_xor_ps(p1, flip);
         p1 = _mm_sub_ps(
             p1,
-            _mm_mul_ps(KLN_SWIZZLE(a, 2, 3, 1, 3), KLN_SWIZZLE(b, 3, 1, 2, 3)));
+            _mm_mul_ps(KLN_SWIZZLE(a, 1, 3, 2, 3), KLN_SWIZZLE(b, 2, 1, 3, 3)));
         __m128 a2 = _mm_unpackhi_ps(a, a);
         __m128 b2 = _mm_unpackhi_ps(b, b);
         p1        = _mm_sub_ss(p1, _mm_mul_ss(a2, b2));
-- 
2.43.0


From 0b55e4d0d20c55339af9c10e049f13278e60d4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:37 +0000
Subject: [PATCH 02/24] fix: rotor::invert ignored the scalar part of the rotor

The inverse divided by the squared norm of the bivector part only, so
r * r.inverse() was not 1 (and was NaN for a rotor that is a scalar).
---
 public/klein/rotor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public/klein/rotor.hpp b/public/klein/rotor.hpp
index 1ec3559..c8abf84 100644
--- a/public/klein/rotor.hpp
+++ b/public/klein/rotor.hpp
@@ -139,7 +139,7 @@ public:
 
     void invert() noexcept
     {
-        __m128 inv_norm = detail::rsqrt_nr1(detail::hi_dp_bc(p1_, p1_));
+        __m128 inv_norm = detail::rsqrt_nr1(detail::dp_bc(p1_, p1_));
         p1_             = _mm_mul_ps(p1_, inv_norm);
         p1_             = _mm_mul_ps(p1_, inv_norm);
         p1_             = _mm_xor_ps(_mm_set_ps(-0.f, -0.f, -0.f, 0.f), p1_);
-- 
2.43.0


From 2bf1d5bf71b51d2d317e9d74551ece618dd68d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 03/24] fix: assigning a translator to a motor lost the scalar
 part

The motor constructed from a translator has scalar 1; the assigned one had
scalar 0 and mapped every object to zero.
---
 public/klein/motor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public/klein/motor.hpp b/public/klein/motor.hpp
index e4a60f4..4d9c4fb 100644
--- a/public/klein/motor.hpp
+++ b/public/klein/motor.hpp
@@ -127,7 +127,7 @@ public:
 
     motor& KLN_VEC_CALL operator=(translator t) noexcept
     {
-        p1_ = _mm_setzero_ps();
+        p1_ = _mm_set_ss(1.f);
         p2_ = t.p2_;
         return *this;
     }
-- 
2.43.0


From 663a72c6522c8eb299c069d0e78988ac8f38edb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 04/24] fix: plane::normalize moved the plane

The e0 coefficient was multiplied by 1 + 1/norm (SSE3) or left alone
(SSE4.1) instead of being divided by the norm like the other coefficients,
so the normalized plane was a different plane.
---
 public/klein/plane.hpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/public/klein/plane.hpp b/public/klein/plane.hpp
index 83271e2..2576875 100644
--- a/public/klein/plane.hpp
+++ b/public/klein/plane.hpp
@@ -65,12 +65,7 @@ public:
     void normalize() noexcept
     {
         __m128 inv_norm = detail::rsqrt_nr1(detail::hi_dp_bc(p0_, p0_));
-#ifdef KLEIN_SSE_4_1
-        inv_norm = _mm_blend_ps(inv_norm, _mm_set_ss(1.f), 1);
-#else
-        inv_norm = _mm_add_ps(inv_norm, _mm_set_ss(1.f));
-#endif
-        p0_ = _mm_mul_ps(inv_norm, p0_);
+        p0_             = _mm_mul_ps(inv_norm, p0_);
     }
 
     /// Return a normalized copy of this plane.
-- 
2.43.0


From 3fd0e7f7ecca943cc8ed2f1ea404e1119e4844a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:08 +0000
Subject: [PATCH 05/24] fix: plane::norm was NaN for a plane without a normal

sqrt_nr1(0) multiplied zero by the infinity rsqrtps returns, so the distance
between a line and a point on it came out as NaN.
---
 public/klein/detail/x86/x86_sse.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/public/klein/detail/x86/x86_sse.hpp b/public/klein/detail/x86/x86_sse.hpp
index ea29a13..d9cd581 100644
--- a/public/klein/detail/x86/x86_sse.hpp
+++ b/public/klein/detail/x86/x86_sse.hpp
@@ -113,7 +113,10 @@ namespace detail
     // Sqrt Newton-Raphson is evaluated in terms of rsqrt_nr1
     KLN_INLINE __m128 KLN_VEC_CALL sqrt_nr1(__m128 a) noexcept
     {
-        return _mm_mul_ps(a, rsqrt_nr1(a));
+        // rsqrtps produces infinity for zero and denormal arguments, whose
+        // square root is flushed to zero
+        __m128 mask = _mm_cmpnlt_ps(a, _mm_set1_ps(1.17549435e-38f));
+        return _mm_and_ps(mask, _mm_mul_ps(a, rsqrt_nr1(a)));
     }
 
 #ifdef KLEIN_SSE_4_1
-- 
2.43.0


From 7cb0a2ba70317ad1321b5852b03d73113dc59920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 06/24] fix: store() of points, branches and rotors crashed on
 unaligned buffers

They take a plain float array, with no alignment requirement documented, and
their load() counterparts are unaligned.
---
 public/klein/line.hpp  | 2 +-
 public/klein/point.hpp | 2 +-
 public/klein/rotor.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/public/klein/line.hpp b/public/klein/line.hpp
index 55f24f1..6dc9ee9 100644
--- a/public/klein/line.hpp
+++ b/public/klein/line.hpp
@@ -342,7 +342,7 @@ public:
     /// Store m128 contents into an array of 4 floats
     void store(float* buf) const noexcept
     {
-        _mm_store_ps(buf, p1_);
+        _mm_storeu_ps(buf, p1_);
     }
 
     [[nodiscard]] float e12() const noexcept
diff --git a/public/klein/point.hpp b/public/klein/point.hpp
index 4542a98..5b93630 100644
--- a/public/klein/point.hpp
+++ b/public/klein/point.hpp
@@ -51,7 +51,7 @@ public:
     /// Store m128 contents into an array of 4 floats
     void store(float* data) const noexcept
     {
-        _mm_store_ps(data, p3_);
+        _mm_storeu_ps(data, p3_);
     }
 
     /// Normalize this point (division is done via rcpps with an additional
diff --git a/public/klein/rotor.hpp b/public/klein/rotor.hpp
index c8abf84..e15a09a 100644
--- a/public/klein/rotor.hpp
+++ b/public/klein/rotor.hpp
@@ -393,7 +393,7 @@ public:
     /// Store m128 contents into an array of 4 floats
     void store(float* buf) const noexcept
     {
-        _mm_store_ps(buf, p1_);
+        _mm_storeu_ps(buf, p1_);
     }
 
     [[nodiscard]] float scalar() const noexcept
-- 
2.43.0


From cb2defb984db3fc1536f7d626cd57d4b2aaafced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:37 +0000
Subject: [PATCH 07/24] fix: the last column of a rotor's matrices was not
 initialized

as_mat3x4 and as_mat4x4 of a rotor read the column before writing it, so the
translation part of the matrix was whatever the memory held.
---
 public/klein/detail/x86/x86_matrix.hpp       | 4 ++++
 public/klein/detail/x86/x86_matrix_cxx11.inl | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/public/klein/detail/x86/x86_matrix.hpp b/public/klein/detail/x86/x86_matrix.hpp
index d68fdd5..9c0c4e5 100644
--- a/public/klein/detail/x86/x86_matrix.hpp
+++ b/public/klein/detail/x86/x86_matrix.hpp
@@ -118,6 +118,10 @@ KLN_INLINE void KLN_VEC_CALL mat4x4_12(__m128 b,
         tmp = _mm_mul_ps(KLN_SWIZZLE(b, 0, 1, 3, 2), KLN_SWIZZLE(*c, 0, 2, 1, 3));
         c3 = _mm_mul_ps(_mm_set_ps(0.f, 2.f, 2.f, 2.f), _mm_sub_ps(tmp, c3));
     }
+    else
+    {
+        c3 = _mm_setzero_ps();
+    }
     if constexpr (Normalized)
     {
 #    ifdef KLEIN_SSE_4_1
diff --git a/public/klein/detail/x86/x86_matrix_cxx11.inl b/public/klein/detail/x86/x86_matrix_cxx11.inl
index 0f1e1f8..173e259 100644
--- a/public/klein/detail/x86/x86_matrix_cxx11.inl
+++ b/public/klein/detail/x86/x86_matrix_cxx11.inl
@@ -144,6 +144,7 @@ KLN_INLINE void KLN_VEC_CALL mat4x4_12<false, true>(__m128 b,
     c2 = _mm_add_ps(c2, _mm_set_ps(0.f, b3_2 - b1_2, 0.f, 0.f));
 
     __m128& c3 = out[3];
+    c3         = _mm_setzero_ps();
 #ifdef KLEIN_SSE_4_1
     c3 = _mm_blend_ps(c3, _mm_set_ps(1.f, 0.f, 0.f, 0.f), 0b1000);
 #else
@@ -187,6 +188,7 @@ KLN_INLINE void KLN_VEC_CALL mat4x4_12<false, false>(__m128 b,
     c2 = _mm_add_ps(c2, _mm_set_ps(0.f, b3_2 - b1_2, 0.f, 0.f));
 
     __m128& c3 = out[3];
+    c3         = _mm_setzero_ps();
 #ifdef KLEIN_SSE_4_1
     c3 = _mm_blend_ps(
         c3, _mm_set_ps(b0_2 + b1_2 + b2_2 + b3_2, 0.f, 0.f, 0.f), 0b1000);
-- 
2.43.0


From 624aa364b76eadfd7648104869c4bf454fb2e7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 08/24] fix: applying a motion to an array in place read
 elements already overwritten

The batch operations document that in == out is permitted, but wrote partial
results to out[i] before they finished reading in[i], and declared the input
restrict although it may alias the output.
---
 public/klein/detail/x86/x86_sandwich.hpp      | 28 ++++---
 .../klein/detail/x86/x86_sandwich_cxx11.inl   | 82 ++++++++++---------
 2 files changed, 58 insertions(+), 52 deletions(-)

diff --git a/public/klein/detail/x86/x86_sandwich.hpp b/public/klein/detail/x86/x86_sandwich.hpp
index 0475525..538b15e 100644
--- a/public/klein/detail/x86/x86_sandwich.hpp
+++ b/public/klein/detail/x86/x86_sandwich.hpp
@@ -252,7 +252,7 @@ namespace detail
     //
     // Note: in and out are permitted to alias iff a == out.
     template <bool Variadic, bool Translate, bool InputP2>
-    KLN_INLINE void KLN_VEC_CALL swMM(__m128 const* KLN_RESTRICT in,
+    KLN_INLINE void KLN_VEC_CALL swMM(__m128 const* in,
                                       __m128 const& KLN_RESTRICT b,
                                       [[maybe_unused]] __m128 const* KLN_RESTRICT c,
                                       __m128* out,
@@ -364,7 +364,7 @@ namespace detail
         constexpr size_t stride = InputP2 ? 2 : 1;
         for (size_t i = 0; i != limit; ++i)
         {
-            __m128 const& p1_in = in[stride * i]; // a
+            __m128 p1_in = in[stride * i]; // a
             __m128 p1_in_xzwy   = KLN_SWIZZLE(p1_in, 1, 3, 2, 0);
             __m128 p1_in_xwyz   = KLN_SWIZZLE(p1_in, 2, 1, 3, 0);
 
@@ -376,7 +376,7 @@ namespace detail
 
             if constexpr (InputP2)
             {
-                __m128 const& p2_in = in[2 * i + 1]; // d
+                __m128 p2_in = in[2 * i + 1]; // d
                 __m128& p2_out      = out[2 * i + 1];
                 p2_out              = _mm_mul_ps(tmp, p2_in);
                 p2_out              = _mm_add_ps(
@@ -405,7 +405,7 @@ namespace detail
     // If Variadic is true, a and out must point to a contiguous block of memory
     // equivalent to __m128[count]
     template <bool Variadic = false, bool Translate = true>
-    KLN_INLINE void KLN_VEC_CALL sw012(__m128 const* KLN_RESTRICT a,
+    KLN_INLINE void KLN_VEC_CALL sw012(__m128 const* a,
                                        __m128 b,
                                        [[maybe_unused]] __m128 const* KLN_RESTRICT c,
                                        __m128* out,
@@ -497,14 +497,15 @@ namespace detail
         for (size_t i = 0; i != limit; ++i)
         {
             // Compute the lower block for components e1, e2, and e3
+            __m128 a_in = a[i];
             __m128& p = out[i];
-            p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(a[i], 1, 3, 2, 0));
-            p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a[i], 2, 1, 3, 0)));
-            p = _mm_add_ps(p, _mm_mul_ps(tmp3, a[i]));
+            p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(a_in, 1, 3, 2, 0));
+            p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a_in, 2, 1, 3, 0)));
+            p = _mm_add_ps(p, _mm_mul_ps(tmp3, a_in));
 
             if constexpr (Translate)
             {
-                __m128 tmp5 = hi_dp(tmp4, a[i]);
+                __m128 tmp5 = hi_dp(tmp4, a_in);
                 p           = _mm_add_ps(p, tmp5);
             }
         }
@@ -512,7 +513,7 @@ namespace detail
 
     // Apply a motor to a point
     template <bool Variadic, bool Translate>
-    KLN_INLINE void KLN_VEC_CALL sw312(__m128 const* KLN_RESTRICT a,
+    KLN_INLINE void KLN_VEC_CALL sw312(__m128 const* a,
                                        __m128 b,
                                        [[maybe_unused]] __m128 const* KLN_RESTRICT c,
                                        __m128* out,
@@ -584,15 +585,16 @@ namespace detail
         size_t limit = Variadic ? count : 1;
         for (size_t i = 0; i != limit; ++i)
         {
+            __m128 a_in = a[i];
             __m128& p = out[i];
-            p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(a[i], 2, 1, 3, 0));
-            p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a[i], 1, 3, 2, 0)));
-            p = _mm_add_ps(p, _mm_mul_ps(tmp3, a[i]));
+            p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(a_in, 2, 1, 3, 0));
+            p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a_in, 1, 3, 2, 0)));
+            p = _mm_add_ps(p, _mm_mul_ps(tmp3, a_in));
 
             if constexpr (Translate)
             {
                 p = _mm_add_ps(
-                    p, _mm_mul_ps(tmp4, KLN_SWIZZLE(a[i], 0, 0, 0, 0)));
+                    p, _mm_mul_ps(tmp4, KLN_SWIZZLE(a_in, 0, 0, 0, 0)));
             }
         }
     }
diff --git a/public/klein/detail/x86/x86_sandwich_cxx11.inl b/public/klein/detail/x86/x86_sandwich_cxx11.inl
index 48231e9..121fb57 100644
--- a/public/klein/detail/x86/x86_sandwich_cxx11.inl
+++ b/public/klein/detail/x86/x86_sandwich_cxx11.inl
@@ -1,14 +1,14 @@
 // Implementation file for C++11 compatibility
 
 template <bool Variadic, bool Translate, bool InputP2>
-KLN_INLINE void KLN_VEC_CALL swMM(__m128 const* KLN_RESTRICT in,
+KLN_INLINE void KLN_VEC_CALL swMM(__m128 const* in,
                                   __m128 const& KLN_RESTRICT b,
                                   __m128 const* KLN_RESTRICT c,
                                   __m128* out,
                                   size_t count = 0) noexcept;
 
 template <>
-KLN_INLINE void KLN_VEC_CALL swMM<true, true, true>(__m128 const* KLN_RESTRICT in,
+KLN_INLINE void KLN_VEC_CALL swMM<true, true, true>(__m128 const* in,
                                                     __m128 const& KLN_RESTRICT b,
                                                     __m128 const* KLN_RESTRICT c,
                                                     __m128* out,
@@ -65,7 +65,7 @@ KLN_INLINE void KLN_VEC_CALL swMM<true, true, true>(__m128 const* KLN_RESTRICT i
 
     for (size_t i = 0; i != count; ++i)
     {
-        __m128 const& p1_in = in[2 * i]; // a
+        __m128 p1_in = in[2 * i]; // a
         __m128 p1_in_xzwy   = KLN_SWIZZLE(p1_in, 1, 3, 2, 0);
         __m128 p1_in_xwyz   = KLN_SWIZZLE(p1_in, 2, 1, 3, 0);
 
@@ -75,7 +75,7 @@ KLN_INLINE void KLN_VEC_CALL swMM<true, true, true>(__m128 const* KLN_RESTRICT i
         p1_out = _mm_add_ps(p1_out, _mm_mul_ps(tmp2, p1_in_xzwy));
         p1_out = _mm_add_ps(p1_out, _mm_mul_ps(tmp3, p1_in_xwyz));
 
-        __m128 const& p2_in = in[2 * i + 1]; // d
+        __m128 p2_in = in[2 * i + 1]; // d
         __m128& p2_out      = out[2 * i + 1];
         p2_out              = _mm_mul_ps(tmp, p2_in);
         p2_out              = _mm_add_ps(
@@ -90,7 +90,7 @@ KLN_INLINE void KLN_VEC_CALL swMM<true, true, true>(__m128 const* KLN_RESTRICT i
 }
 
 template <>
-KLN_INLINE void KLN_VEC_CALL swMM<true, true, false>(__m128 const* KLN_RESTRICT in,
+KLN_INLINE void KLN_VEC_CALL swMM<true, true, false>(__m128 const* in,
                                                      __m128 const& KLN_RESTRICT b,
                                                      __m128 const* KLN_RESTRICT c,
                                                      __m128* out,
@@ -147,7 +147,7 @@ KLN_INLINE void KLN_VEC_CALL swMM<true, true, false>(__m128 const* KLN_RESTRICT
 
     for (size_t i = 0; i != count; ++i)
     {
-        __m128 const& p1_in = in[i]; // a
+        __m128 p1_in = in[i]; // a
         __m128 p1_in_xzwy   = KLN_SWIZZLE(p1_in, 1, 3, 2, 0);
         __m128 p1_in_xwyz   = KLN_SWIZZLE(p1_in, 2, 1, 3, 0);
 
@@ -165,7 +165,7 @@ KLN_INLINE void KLN_VEC_CALL swMM<true, true, false>(__m128 const* KLN_RESTRICT
 }
 
 template <>
-KLN_INLINE void KLN_VEC_CALL swMM<true, false, true>(__m128 const* KLN_RESTRICT in,
+KLN_INLINE void KLN_VEC_CALL swMM<true, false, true>(__m128 const* in,
                                                      __m128 const& KLN_RESTRICT b,
                                                      __m128 const* KLN_RESTRICT c,
                                                      __m128* out,
@@ -196,7 +196,7 @@ KLN_INLINE void KLN_VEC_CALL swMM<true, false, true>(__m128 const* KLN_RESTRICT
 
     for (size_t i = 0; i != count; ++i)
     {
-        __m128 const& p1_in = in[2 * i]; // a
+        __m128 p1_in = in[2 * i]; // a
         __m128 p1_in_xzwy   = KLN_SWIZZLE(p1_in, 1, 3, 2, 0);
         __m128 p1_in_xwyz   = KLN_SWIZZLE(p1_in, 2, 1, 3, 0);
 
@@ -206,7 +206,7 @@ KLN_INLINE void KLN_VEC_CALL swMM<true, false, true>(__m128 const* KLN_RESTRICT
         p1_out = _mm_add_ps(p1_out, _mm_mul_ps(tmp2, p1_in_xzwy));
         p1_out = _mm_add_ps(p1_out, _mm_mul_ps(tmp3, p1_in_xwyz));
 
-        __m128 const& p2_in = in[2 * i + 1]; // d
+        __m128 p2_in = in[2 * i + 1]; // d
         __m128& p2_out      = out[2 * i + 1];
         p2_out              = _mm_mul_ps(tmp, p2_in);
         p2_out              = _mm_add_ps(
@@ -218,7 +218,7 @@ KLN_INLINE void KLN_VEC_CALL swMM<true, false, true>(__m128 const* KLN_RESTRICT
 
 template <>
 KLN_INLINE void KLN_VEC_CALL
-swMM<true, false, false>(__m128 const* KLN_RESTRICT in,
+swMM<true, false, false>(__m128 const* in,
                          __m128 const& KLN_RESTRICT b,
                          __m128 const* KLN_RESTRICT c,
                          __m128* out,
@@ -249,7 +249,7 @@ swMM<true, false, false>(__m128 const* KLN_RESTRICT in,
 
     for (size_t i = 0; i != count; ++i)
     {
-        __m128 const& p1_in = in[i]; // a
+        __m128 p1_in = in[i]; // a
         __m128 p1_in_xzwy   = KLN_SWIZZLE(p1_in, 1, 3, 2, 0);
         __m128 p1_in_xwyz   = KLN_SWIZZLE(p1_in, 2, 1, 3, 0);
 
@@ -262,7 +262,7 @@ swMM<true, false, false>(__m128 const* KLN_RESTRICT in,
 }
 
 template <>
-KLN_INLINE void KLN_VEC_CALL swMM<false, true, true>(__m128 const* KLN_RESTRICT in,
+KLN_INLINE void KLN_VEC_CALL swMM<false, true, true>(__m128 const* in,
                                                      __m128 const& KLN_RESTRICT b,
                                                      __m128 const* KLN_RESTRICT c,
                                                      __m128* out,
@@ -340,7 +340,7 @@ KLN_INLINE void KLN_VEC_CALL swMM<false, true, true>(__m128 const* KLN_RESTRICT
 
 template <>
 KLN_INLINE void KLN_VEC_CALL
-swMM<false, true, false>(__m128 const* KLN_RESTRICT in,
+swMM<false, true, false>(__m128 const* in,
                          __m128 const& KLN_RESTRICT b,
                          __m128 const* KLN_RESTRICT c,
                          __m128* out,
@@ -413,7 +413,7 @@ swMM<false, true, false>(__m128 const* KLN_RESTRICT in,
 
 template <>
 KLN_INLINE void KLN_VEC_CALL
-swMM<false, false, true>(__m128 const* KLN_RESTRICT in,
+swMM<false, false, true>(__m128 const* in,
                          __m128 const& KLN_RESTRICT b,
                          __m128 const* KLN_RESTRICT c,
                          __m128* out,
@@ -461,7 +461,7 @@ swMM<false, false, true>(__m128 const* KLN_RESTRICT in,
 
 template <>
 KLN_INLINE void KLN_VEC_CALL
-swMM<false, false, false>(__m128 const* KLN_RESTRICT in,
+swMM<false, false, false>(__m128 const* in,
                           __m128 const& KLN_RESTRICT b,
                           __m128 const* KLN_RESTRICT c,
                           __m128* out,
@@ -502,14 +502,14 @@ swMM<false, false, false>(__m128 const* KLN_RESTRICT in,
 }
 
 template <bool Variadic, bool Translate>
-KLN_INLINE void KLN_VEC_CALL sw012(__m128 const* KLN_RESTRICT a,
+KLN_INLINE void KLN_VEC_CALL sw012(__m128 const* a,
                                    __m128 b,
                                    __m128 const* KLN_RESTRICT c,
                                    __m128* out,
                                    size_t count = 0) noexcept;
 
 template <>
-KLN_INLINE void KLN_VEC_CALL sw012<true, true>(__m128 const* KLN_RESTRICT a,
+KLN_INLINE void KLN_VEC_CALL sw012<true, true>(__m128 const* a,
                                                __m128 b,
                                                __m128 const* KLN_RESTRICT c,
                                                __m128* out,
@@ -548,18 +548,19 @@ KLN_INLINE void KLN_VEC_CALL sw012<true, true>(__m128 const* KLN_RESTRICT a,
     for (size_t i = 0; i != count; ++i)
     {
         // Compute the lower block for components e1, e2, and e3
+        __m128 a_in = a[i];
         __m128& p = out[i];
-        p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(a[i], 1, 3, 2, 0));
-        p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a[i], 2, 1, 3, 0)));
-        p = _mm_add_ps(p, _mm_mul_ps(tmp3, a[i]));
+        p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(a_in, 1, 3, 2, 0));
+        p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a_in, 2, 1, 3, 0)));
+        p = _mm_add_ps(p, _mm_mul_ps(tmp3, a_in));
 
-        __m128 tmp5 = hi_dp(tmp4, a[i]);
+        __m128 tmp5 = hi_dp(tmp4, a_in);
         p           = _mm_add_ps(p, tmp5);
     }
 }
 
 template <>
-KLN_INLINE void KLN_VEC_CALL sw012<true, false>(__m128 const* KLN_RESTRICT a,
+KLN_INLINE void KLN_VEC_CALL sw012<true, false>(__m128 const* a,
                                                 __m128 b,
                                                 __m128 const* KLN_RESTRICT c,
                                                 __m128* out,
@@ -592,15 +593,16 @@ KLN_INLINE void KLN_VEC_CALL sw012<true, false>(__m128 const* KLN_RESTRICT a,
     for (size_t i = 0; i != count; ++i)
     {
         // Compute the lower block for components e1, e2, and e3
+        __m128 a_in = a[i];
         __m128& p = out[i];
-        p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(a[i], 1, 3, 2, 0));
-        p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a[i], 2, 1, 3, 0)));
-        p = _mm_add_ps(p, _mm_mul_ps(tmp3, a[i]));
+        p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(a_in, 1, 3, 2, 0));
+        p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a_in, 2, 1, 3, 0)));
+        p = _mm_add_ps(p, _mm_mul_ps(tmp3, a_in));
     }
 }
 
 template <>
-KLN_INLINE void KLN_VEC_CALL sw012<false, true>(__m128 const* KLN_RESTRICT a,
+KLN_INLINE void KLN_VEC_CALL sw012<false, true>(__m128 const* a,
                                                 __m128 b,
                                                 __m128 const* KLN_RESTRICT c,
                                                 __m128* out,
@@ -647,7 +649,7 @@ KLN_INLINE void KLN_VEC_CALL sw012<false, true>(__m128 const* KLN_RESTRICT a,
 }
 
 template <>
-KLN_INLINE void KLN_VEC_CALL sw012<false, false>(__m128 const* KLN_RESTRICT a,
+KLN_INLINE void KLN_VEC_CALL sw012<false, false>(__m128 const* a,
                                                  __m128 b,
                                                  __m128 const* KLN_RESTRICT c,
                                                  __m128* out,
@@ -685,14 +687,14 @@ KLN_INLINE void KLN_VEC_CALL sw012<false, false>(__m128 const* KLN_RESTRICT a,
 }
 
 template <bool Variadic, bool Translate>
-KLN_INLINE void KLN_VEC_CALL sw312(__m128 const* KLN_RESTRICT a,
+KLN_INLINE void KLN_VEC_CALL sw312(__m128 const* a,
                                    __m128 b,
                                    __m128 const* KLN_RESTRICT c,
                                    __m128* out,
                                    size_t count = 0) noexcept;
 
 template <>
-KLN_INLINE void KLN_VEC_CALL sw312<true, true>(__m128 const* KLN_RESTRICT a,
+KLN_INLINE void KLN_VEC_CALL sw312<true, true>(__m128 const* a,
                                                __m128 b,
                                                __m128 const* KLN_RESTRICT c,
                                                __m128* out,
@@ -728,17 +730,18 @@ KLN_INLINE void KLN_VEC_CALL sw312<true, true>(__m128 const* KLN_RESTRICT a,
 
     for (size_t i = 0; i != count; ++i)
     {
+        __m128 a_in = a[i];
         __m128& p = out[i];
-        p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(a[i], 2, 1, 3, 0));
-        p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a[i], 1, 3, 2, 0)));
-        p = _mm_add_ps(p, _mm_mul_ps(tmp3, a[i]));
+        p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(a_in, 2, 1, 3, 0));
+        p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a_in, 1, 3, 2, 0)));
+        p = _mm_add_ps(p, _mm_mul_ps(tmp3, a_in));
 
-        p = _mm_add_ps(p, _mm_mul_ps(tmp4, KLN_SWIZZLE(a[i], 0, 0, 0, 0)));
+        p = _mm_add_ps(p, _mm_mul_ps(tmp4, KLN_SWIZZLE(a_in, 0, 0, 0, 0)));
     }
 }
 
 template <>
-KLN_INLINE void KLN_VEC_CALL sw312<true, false>(__m128 const* KLN_RESTRICT a,
+KLN_INLINE void KLN_VEC_CALL sw312<true, false>(__m128 const* a,
                                                 __m128 b,
                                                 __m128 const* KLN_RESTRICT c,
                                                 __m128* out,
@@ -768,15 +771,16 @@ KLN_INLINE void KLN_VEC_CALL sw312<true, false>(__m128 const* KLN_RESTRICT a,
 
     for (size_t i = 0; i != count; ++i)
     {
+        __m128 a_in = a[i];
         __m128& p = out[i];
-        p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(a[i], 2, 1, 3, 0));
-        p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a[i], 1, 3, 2, 0)));
-        p = _mm_add_ps(p, _mm_mul_ps(tmp3, a[i]));
+        p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(a_in, 2, 1, 3, 0));
+        p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a_in, 1, 3, 2, 0)));
+        p = _mm_add_ps(p, _mm_mul_ps(tmp3, a_in));
     }
 }
 
 template <>
-KLN_INLINE void KLN_VEC_CALL sw312<false, true>(__m128 const* KLN_RESTRICT a,
+KLN_INLINE void KLN_VEC_CALL sw312<false, true>(__m128 const* a,
                                                 __m128 b,
                                                 __m128 const* KLN_RESTRICT c,
                                                 __m128* out,
@@ -820,7 +824,7 @@ KLN_INLINE void KLN_VEC_CALL sw312<false, true>(__m128 const* KLN_RESTRICT a,
 }
 
 template <>
-KLN_INLINE void KLN_VEC_CALL sw312<false, false>(__m128 const* KLN_RESTRICT a,
+KLN_INLINE void KLN_VEC_CALL sw312<false, false>(__m128 const* a,
                                                  __m128 b,
                                                  __m128 const* KLN_RESTRICT c,
                                                  __m128* out,
-- 
2.43.0


From 32becef41c1da65c10a731f6d0ab139bcee9cef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:09 +0000
Subject: [PATCH 09/24] fix: rotor::as_euler_angles treated the wrong rotations
 as gimbal lock

The pole test used the sine of another Euler convention, so rotations with an
ordinary pitch (a quarter turn of yaw, say) were reported with pitch +-pi/2,
and at pitch -pi/2 the roll had the wrong sign.
---
 public/klein/rotor.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/public/klein/rotor.hpp b/public/klein/rotor.hpp
index e15a09a..c610d4c 100644
--- a/public/klein/rotor.hpp
+++ b/public/klein/rotor.hpp
@@ -203,7 +203,7 @@ public:
         euler_angles ea;
         float buf[4];
         store(buf);
-        float test = buf[1] * buf[2] + buf[3] * buf[0];
+        float test = buf[0] * buf[2] - buf[1] * buf[3];
 
         if (test > 0.4999f)
         {
@@ -214,7 +214,7 @@ public:
         }
         else if (test < -0.4999f)
         {
-            ea.roll  = -2.f * std::atan2(buf[1], buf[0]);
+            ea.roll  = 2.f * std::atan2(buf[1], buf[0]);
             ea.pitch = -pi_2;
             ea.yaw   = 0.f;
             return ea;
-- 
2.43.0


From d196a44c95d5917eeb7865560effdc273ab83994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:15 +0000
Subject: [PATCH 10/24] fix: the rotor logarithm and exponential were NaN at
 small angles

log(rotor) took the arccosine of the scalar: NaN for the identity, for every
rotation below about 5e-4 rad and for a scalar rounded above 1. exp of the
zero branch divided zero by zero.
---
 public/klein/exp_log.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/public/klein/exp_log.hpp b/public/klein/exp_log.hpp
index 44e6a1d..027396e 100644
--- a/public/klein/exp_log.hpp
+++ b/public/klein/exp_log.hpp
@@ -90,12 +90,15 @@ namespace kln
 {
     float cos_ang;
     _mm_store_ss(&cos_ang, r.p1_);
-    float ang     = std::acos(cos_ang);
-    float sin_ang = std::sin(ang);
+    float sin_ang;
+    _mm_store_ss(&sin_ang, detail::sqrt_nr1(detail::hi_dp(r.p1_, r.p1_)));
+    // The arccosine of the scalar alone loses the angle of small rotations and
+    // isn't defined for a scalar rounded above 1
+    float ang   = std::atan2(sin_ang, cos_ang);
+    float scale = sin_ang > 0.f ? ang / sin_ang : 1.f;
 
     branch out;
-    out.p1_ = _mm_mul_ps(r.p1_, detail::rcp_nr1(_mm_set1_ps(sin_ang)));
-    out.p1_ = _mm_mul_ps(out.p1_, _mm_set1_ps(ang));
+    out.p1_ = _mm_mul_ps(r.p1_, _mm_set1_ps(scale));
 #ifdef KLEIN_SSE_4_1
     out.p1_ = _mm_blend_ps(out.p1_, _mm_setzero_ps(), 1);
 #else
@@ -111,7 +114,7 @@ namespace kln
     float ang;
     _mm_store_ss(&ang, detail::sqrt_nr1(detail::hi_dp(b.p1_, b.p1_)));
     float cos_ang = std::cos(ang);
-    float sin_ang = std::sin(ang) / ang;
+    float sin_ang = ang > 0.f ? std::sin(ang) / ang : 1.f;
 
     rotor out;
     out.p1_ = _mm_mul_ps(_mm_set1_ps(sin_ang), b.p1_);
-- 
2.43.0


From 3402db588a3ecae78b8d9427330315fa0111e6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 11/24] fix: the motor logarithm was wrong at and inaccurate
 near a half turn

With a scalar below 1e-6 the angle came from atan2(-q, t), which is 0 for a
pure half turn; with a scalar just above it the pitch was the quotient of two
nearly vanishing numbers.
---
 public/klein/detail/x86/x86_exp_log.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/public/klein/detail/x86/x86_exp_log.hpp b/public/klein/detail/x86/x86_exp_log.hpp
index 4775933..7e66af0 100644
--- a/public/klein/detail/x86/x86_exp_log.hpp
+++ b/public/klein/detail/x86/x86_exp_log.hpp
@@ -194,9 +194,9 @@ namespace detail
         // s_scalar = sinu
         // t_scalar = v cosu
 
-        bool p_zero = std::abs(p) < 1e-6;
-        float u = p_zero ? std::atan2(-q, t_scalar) : std::atan2(s_scalar, p);
-        float v = p_zero ? -q / s_scalar : t_scalar / p;
+        float u = std::atan2(s_scalar, p);
+        // Divide by the larger of sinu and cosu
+        float v = std::abs(p) < s_scalar ? -q / s_scalar : t_scalar / p;
 
         // Now, (u + v e0123) * n when exponentiated will give us the motor, so
         // (u + v e0123) * n is the logarithm. To proceed, we need to compute
-- 
2.43.0


From 65b369735a6afa4a336c71dd7514d4a55763c28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:26 +0000
Subject: [PATCH 12/24] fix: the logarithm of a translation with scalar -1
 pointed backwards

-1 - t is the same motion as 1 + t, but its logarithm was -t.
---
 public/klein/detail/x86/x86_exp_log.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/public/klein/detail/x86/x86_exp_log.hpp b/public/klein/detail/x86/x86_exp_log.hpp
index 7e66af0..63344c7 100644
--- a/public/klein/detail/x86/x86_exp_log.hpp
+++ b/public/klein/detail/x86/x86_exp_log.hpp
@@ -161,8 +161,9 @@ namespace detail
 
         if (mask == 0xf)
         {
+            // The scalar is either 1 or -1
             p1_out = _mm_setzero_ps();
-            p2_out = p2;
+            p2_out = _mm_mul_ps(p2, KLN_SWIZZLE(p1, 0, 0, 0, 0));
             return;
         }
 
-- 
2.43.0


From d51758e679619e9e39f616989e5e8feba043c9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:22 +0000
Subject: [PATCH 13/24] fix: the shell's tokenizer never ended on a final
 one-letter name or an unknown character

---
 sym/parser.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sym/parser.cpp b/sym/parser.cpp
index 56b2b64..a853e04 100644
--- a/sym/parser.cpp
+++ b/sym/parser.cpp
@@ -199,9 +199,9 @@ std::vector<token> tokenize(std::string const& input, algebra const& algebra_)
             t.type = token_type::number;
             t.num  = tokenize_number(it, input.end());
         }
-        else if (it != input.end() - 1)
+        else if (std::isalnum(static_cast<unsigned char>(c)))
         {
-            if (c == 'e' && std::isdigit(*(it + 1)))
+            if (c == 'e' && it != input.end() - 1 && std::isdigit(*(it + 1)))
             {
                 t.type = token_type::element;
                 t.e    = tokenize_element(it, input.end(), algebra_);
@@ -212,6 +212,10 @@ std::vector<token> tokenize(std::string const& input, algebra const& algebra_)
                 t.id   = tokenize_identifier(it, input.end());
             }
         }
+        else
+        {
+            throw std::runtime_error("Unexpected character encountered");
+        }
         out.emplace_back(t);
     }
 
-- 
2.43.0


From eef71e70f6841cabce573e3ada496fcc89b3ec4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:23 +0000
Subject: [PATCH 14/24] fix: the shell's tokenizer wrote past its buffer on
 numbers of 32 or more digits

---
 sym/parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sym/parser.cpp b/sym/parser.cpp
index a853e04..5284d20 100644
--- a/sym/parser.cpp
+++ b/sym/parser.cpp
@@ -62,12 +62,12 @@ std::ostream& operator<<(std::ostream& os, std::vector<token> const& tokens)
 static float tokenize_number(std::string::const_iterator& it,
                              std::string::const_iterator const& end)
 {
-    char buf[32];
+    char buf[33];
     size_t buf_size = 0;
 
     for (auto tmp = it; tmp != end; ++tmp)
     {
-        if (buf_size > 32)
+        if (buf_size == 32 && (std::isdigit(*tmp) || *tmp == '.'))
         {
             throw std::runtime_error(
                 "Number with greater than 32 digits encountered");
-- 
2.43.0


From 0825d37b84b3a4cf18e11563002ca543a6891594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:26 +0000
Subject: [PATCH 15/24] fix: the shell accepted basis indices outside of the
 algebra

---
 sym/parser.cpp | 5 +++++
 sym/parser.hpp | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/sym/parser.cpp b/sym/parser.cpp
index 5284d20..db31304 100644
--- a/sym/parser.cpp
+++ b/sym/parser.cpp
@@ -110,6 +110,11 @@ static element tokenize_element(std::string::const_iterator& it,
         {
             uint8_t bit = *it - '0';
 
+            if ((algebra_.pss() & (1 << bit)) == 0)
+            {
+                throw std::runtime_error("Basis index out of range");
+            }
+
             if ((out.value & (1 << bit)) > 0)
             {
                 throw std::runtime_error("Duplicate basis index");
diff --git a/sym/parser.hpp b/sym/parser.hpp
index e437112..2009fc5 100644
--- a/sym/parser.hpp
+++ b/sym/parser.hpp
@@ -23,7 +23,7 @@ struct identifier
 
 struct element
 {
-    uint8_t value;
+    uint32_t value;
     bool negative;
 };
 
-- 
2.43.0


From 5a07e200f805e5af2cede4d76b295e1c2af8222c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:27 +0000
Subject: [PATCH 16/24] fix: the shell ignored everything after a stray
 parenthesis

---
 sym/parser.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sym/parser.cpp b/sym/parser.cpp
index db31304..795d6a9 100644
--- a/sym/parser.cpp
+++ b/sym/parser.cpp
@@ -448,5 +448,10 @@ mv parse(std::string const& input, algebra const& algebra_)
     std::vector<token> tokens = tokenize(input, algebra_);
 
     auto it = tokens.cbegin();
-    return parse_expr(it, tokens.cend(), algebra_);
+    mv out  = parse_expr(it, tokens.cend(), algebra_);
+    if (it->type != token_type::eof)
+    {
+        throw std::runtime_error("Unexpected token after the expression");
+    }
+    return out;
 }
\ No newline at end of file
-- 
2.43.0


From f2c807eac9f47e9115454a4e31e7c4430c0399e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:45 +0000
Subject: [PATCH 17/24] fix: algebra::mul ignored basis vectors past the eighth

---
 sym/ga.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sym/ga.cpp b/sym/ga.cpp
index 4700893..1c6e34b 100644
--- a/sym/ga.cpp
+++ b/sym/ga.cpp
@@ -43,7 +43,7 @@ int32_t algebra::mul(uint32_t lhs, uint32_t rhs) const noexcept
     for (uint32_t i = 0; i != dim_; ++i)
     {
         uint8_t index = dim_ - i - 1;
-        uint8_t bit   = 1 << index;
+        uint32_t bit  = 1u << index;
         bool lhs_e    = (lhs & bit) > 0;
         bool rhs_e    = (rhs & bit) > 0;
 
-- 
2.43.0


From b91c7da98e0b413063041bc91cec34db49135172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:47 +0000
Subject: [PATCH 18/24] fix: subtracting a symbolic multivector from itself
 used freed terms

---
 sym/ga.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sym/ga.cpp b/sym/ga.cpp
index 1c6e34b..00f2777 100644
--- a/sym/ga.cpp
+++ b/sym/ga.cpp
@@ -278,6 +278,11 @@ mv& mv::operator~() && noexcept
 
 mv& mv::operator+=(mv const& other) noexcept
 {
+    if (this == &other)
+    {
+        return *this += mv{other};
+    }
+
     for (auto&& [e, p] : other.terms)
     {
         push(e, p);
@@ -288,6 +293,11 @@ mv& mv::operator+=(mv const& other) noexcept
 
 mv& mv::operator-=(mv const& other) noexcept
 {
+    if (this == &other)
+    {
+        return *this -= mv{other};
+    }
+
     for (auto&& [e, p] : other.terms)
     {
         push(e, -p);
-- 
2.43.0


From 2c850911540561cb16a4877d367db3fc86735702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:48 +0000
Subject: [PATCH 19/24] fix: the shell printed the numbers 1 and -1 as nothing
 and a lone minus

---
 sym/poly.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sym/poly.cpp b/sym/poly.cpp
index 9a1a606..8c4bc55 100644
--- a/sym/poly.cpp
+++ b/sym/poly.cpp
@@ -271,6 +271,11 @@ operator<<(std::ostream& os,
 std::ostream& operator<<(std::ostream& os,
                          std::map<mon, float>::const_iterator const& it) noexcept
 {
+    if (it->first.factors.empty())
+    {
+        return os << it->second;
+    }
+
     if (it->second == -1.f)
     {
         os << '-';
@@ -280,11 +285,6 @@ std::ostream& operator<<(std::ostream& os,
         os << it->second;
     }
 
-    if (it->first.factors.empty())
-    {
-        return os;
-    }
-
     auto factor = it->first.factors.cbegin();
     os << factor;
     ++factor;
-- 
2.43.0


From e3f76f36c27104b9b4fd440eaffd55990879584b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:49 +0000
Subject: [PATCH 20/24] fix: the shell skipped every line with a decimal point
 as a command

---
 sym/repl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sym/repl.cpp b/sym/repl.cpp
index 8415174..76eabe0 100644
--- a/sym/repl.cpp
+++ b/sym/repl.cpp
@@ -48,6 +48,7 @@ void repl::run()
             else
             {
                 should_parse = true;
+                break;
             }
         }
 
-- 
2.43.0


From a6ff810354d0a53e2a01a4ca5faa66a96a6c4430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:08 +0000
Subject: [PATCH 21/24] fix: the shell overflowed its stack on deeply nested
 parentheses

---
 sym/parser.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/sym/parser.cpp b/sym/parser.cpp
index 795d6a9..e5f2ebe 100644
--- a/sym/parser.cpp
+++ b/sym/parser.cpp
@@ -447,6 +447,20 @@ mv parse(std::string const& input, algebra const& algebra_)
 {
     std::vector<token> tokens = tokenize(input, algebra_);
 
+    // The parser recurses once per open parenthesis
+    int depth = 0;
+    for (token const& t : tokens)
+    {
+        if (t.type == token_type::delimiter)
+        {
+            depth += t.delimiter == '(' ? 1 : -1;
+            if (depth > 1000)
+            {
+                throw std::runtime_error("Parentheses nested too deeply");
+            }
+        }
+    }
+
     auto it = tokens.cbegin();
     mv out  = parse_expr(it, tokens.cend(), algebra_);
     if (it->type != token_type::eof)
-- 
2.43.0


From 3fb14fb27cd7e7b9a5eaeed35cd31e0e0106f0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:53 +0000
Subject: [PATCH 22/24] fix: mv::push leaves no term for a polynomial that is
 zero

---
 sym/ga.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sym/ga.cpp b/sym/ga.cpp
index 00f2777..4f52d2f 100644
--- a/sym/ga.cpp
+++ b/sym/ga.cpp
@@ -217,7 +217,10 @@ mv& mv::push(uint32_t e, poly const& p) noexcept
     auto it = terms.find(e);
     if (it == terms.end())
     {
-        terms.emplace(e, p);
+        if (!p.terms.empty())
+        {
+            terms.emplace(e, p);
+        }
     }
     else
     {
-- 
2.43.0


From 8f2abfa4ad4c90ba0d3cf0ef649d43dc76013152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:55 +0000
Subject: [PATCH 23/24] fix: print the index 9 of a basis element

---
 sym/ga.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sym/ga.cpp b/sym/ga.cpp
index 4f52d2f..0e5a8d0 100644
--- a/sym/ga.cpp
+++ b/sym/ga.cpp
@@ -517,7 +517,7 @@ std::ostream& operator<<(std::ostream& os,
 
     os << " e";
 
-    for (size_t i = 0; i != 9; ++i)
+    for (size_t i = 0; i != 10; ++i)
     {
         if ((it->first & (1 << i)) > 0)
         {
-- 
2.43.0


From 0535d969c69977ea10561ab4f4047fdd6c15efc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:08 +0000
Subject: [PATCH 24/24] fix: add a polynomial to itself when it has a term with
 coefficient zero

---
 sym/poly.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sym/poly.cpp b/sym/poly.cpp
index 8c4bc55..e8cfa4d 100644
--- a/sym/poly.cpp
+++ b/sym/poly.cpp
@@ -192,6 +192,11 @@ poly& poly::operator-() && noexcept
 
 poly& poly::operator+=(poly const& other) noexcept
 {
+    if (this == &other)
+    {
+        return *this += poly{other};
+    }
+
     for (auto&& [m, f] : other.terms)
     {
         auto it = terms.find(m);
-- 
2.43.0

