From 5bf130ccc731ca6b3cbb1570e3427c28dd07e900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:03 +0000
Subject: [PATCH 01/17] fix: mat3(mat2) read a third column that mat2 does not
 have

---
 src/mat3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mat3.cpp b/src/mat3.cpp
index 7d5b203..fc84f70 100644
--- a/src/mat3.cpp
+++ b/src/mat3.cpp
@@ -24,7 +24,7 @@ zcm::mat3::mat3(const zcm::mat2 &m2) noexcept
 {
     _columns[0] = vec3(m2[0].x, m2[0].y, 0.0f);
     _columns[1] = vec3(m2[1].x, m2[1].y, 0.0f);
-    _columns[2] = vec3(m2[2].x, m2[2].y, 1.0f);
+    _columns[2] = vec3(0.0f, 0.0f, 1.0f);
 }
 
 zcm::mat3::operator zcm::mat2() const noexcept
-- 
2.43.0


From 74e186acc4036b76c26db7ed972c0a1af2b63a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:03 +0000
Subject: [PATCH 02/17] fix: decode_octahedral unfolds the lower hemisphere
 correctly

---
 src/geometric.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geometric.cpp b/src/geometric.cpp
index 5baab6f..1fcbadd 100644
--- a/src/geometric.cpp
+++ b/src/geometric.cpp
@@ -327,8 +327,8 @@ zcm::vec3 zcm::decode_octahedral(zcm::vec2 e) noexcept
 {
     auto v = zcm::vec3(e.x, e.y, 1.0f - abs(e.x) - abs(e.y));
     if (v.z < 0.0f) {
-        v.x = 1.0f - abs(v.y) * signNotZero(v.x);
-        v.y = 1.0f - abs(v.x) * signNotZero(v.y);
+        v.x = (1.0f - abs(e.y)) * signNotZero(e.x);
+        v.y = (1.0f - abs(e.x)) * signNotZero(e.y);
     }
     return normalize(v);
 }
-- 
2.43.0


From 327a37422518a5dab943d993de83a2817cbb5765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:03 +0000
Subject: [PATCH 03/17] fix: distance2 of vec3 and vec4 returns the squared
 distance

---
 src/geometric.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geometric.cpp b/src/geometric.cpp
index 1fcbadd..b97c6e8 100644
--- a/src/geometric.cpp
+++ b/src/geometric.cpp
@@ -283,12 +283,12 @@ float zcm::distance2(const zcm::vec2 &first, const zcm::vec2 &second) noexcept
 
 float zcm::distance2(const zcm::vec3 &first, const zcm::vec3 &second) noexcept
 {
-    return length(first - second);
+    return length2(first - second);
 }
 
 float zcm_vectorcall zcm::distance2(zcm::vec4 first, zcm::vec4 second) noexcept
 {
-    return length(first - second);
+    return length2(first - second);
 }
 
 
-- 
2.43.0


From 104778eb71c6fd135d04a82d0612dae36f572ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:03 +0000
Subject: [PATCH 04/17] fix: length(float) of a negative number is its absolute
 value

---
 src/geometric.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometric.cpp b/src/geometric.cpp
index b97c6e8..8bbe0cd 100644
--- a/src/geometric.cpp
+++ b/src/geometric.cpp
@@ -213,7 +213,7 @@ zcm::vec4 zcm_vectorcall zcm::refract(zcm::vec4 I, zcm::vec4 N, float eta) noexc
 
 float zcm::length(float first) noexcept
 {
-    return first;
+    return abs(first);
 }
 
 float zcm::length(const zcm::vec2& first) noexcept
-- 
2.43.0


From 31059c9a7c50505a68e3e4460043ded573a2261e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:33 +0000
Subject: [PATCH 05/17] fix: inverseTranspose and adjugateTranspose of mat2 did
 not transpose

---
 src/matrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/matrix.cpp b/src/matrix.cpp
index 0b1ea48..bdb40e7 100644
--- a/src/matrix.cpp
+++ b/src/matrix.cpp
@@ -286,8 +286,8 @@ zcm::mat2 zcm::inverseTranspose(const zcm::mat2 &m) noexcept
 
     mat2 Inverse(
         + m[1][1] / Determinant,
-        - m[0][1] / Determinant,
         - m[1][0] / Determinant,
+        - m[0][1] / Determinant,
         + m[0][0] / Determinant);
 
     return Inverse;
@@ -368,8 +368,8 @@ zcm::mat4 zcm::inverseTranspose(const zcm::mat4 &m) noexcept
 zcm::mat2 zcm::adjugateTranspose(const mat2 &m) noexcept
 {
     mat2 Adjugate(+ m[1][1],
-                  - m[0][1],
                   - m[1][0],
+                  - m[0][1],
                   + m[0][0]);
 
     return Adjugate;
-- 
2.43.0


From e59686ab87d1e6d60669dd225f7132a2d9c01f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:33 +0000
Subject: [PATCH 06/17] fix: exp2 computes a power of two, not of e

---
 src/exponential.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exponential.cpp b/src/exponential.cpp
index 06a6857..d6a8956 100644
--- a/src/exponential.cpp
+++ b/src/exponential.cpp
@@ -184,7 +184,7 @@ zcm::quat zcm_vectorcall zcm::exp(zcm::quat x) noexcept
 
 float zcm::exp2(float x) noexcept
 {
-    return expf(x);
+    return exp2f(x);
 }
 
 zcm::vec2 zcm::exp2(const zcm::vec2& x) noexcept
-- 
2.43.0


From 15ac9816d68a58bb2a19d51f770149b216d39e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:33 +0000
Subject: [PATCH 07/17] fix: roundEven rounds to the nearest integer, ties to
 even

---
 src/common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common.cpp b/src/common.cpp
index 17cb888..53420e9 100644
--- a/src/common.cpp
+++ b/src/common.cpp
@@ -353,7 +353,7 @@ zcm::vec4 zcm_vectorcall zcm::round(zcm::vec4 x) noexcept
 
 float zcm::roundEven(float x) noexcept
 {
-    return std::nearbyint(x * 0.5f) * 2.0f;
+    return std::nearbyint(x);
 }
 
 zcm::vec2 zcm::roundEven(const zcm::vec2& x) noexcept
-- 
2.43.0


From dbb6cb97fae34bb464b525b11e9b5bae0d25185a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:33 +0000
Subject: [PATCH 08/17] fix: hash(mat4) skipped the third column and cancelled
 the second

---
 src/hash.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hash.cpp b/src/hash.cpp
index 4d9c34a..261b888 100644
--- a/src/hash.cpp
+++ b/src/hash.cpp
@@ -73,7 +73,7 @@ size_t zcm::hash(const zcm::mat3 &m) noexcept
 
 size_t zcm::hash(const zcm::mat4 &m) noexcept
 {
-    return hash(m[0]) ^ hash(m[1]) ^ hash(m[1]) ^ hash(m[3]);
+    return hash(m[0]) ^ hash(m[1]) ^ hash(m[2]) ^ hash(m[3]);
 }
 
 size_t zcm::hash(const zcm::bvec2 &b) noexcept
-- 
2.43.0


From f941081f930b63696ab37a498228c684c476c320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:33 +0000
Subject: [PATCH 09/17] fix: equal values hash equally when a component is
 negative zero

---
 src/hash.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hash.cpp b/src/hash.cpp
index 261b888..be359e2 100644
--- a/src/hash.cpp
+++ b/src/hash.cpp
@@ -18,6 +18,9 @@ static size_t float_hash(float f) noexcept
 {
     static_assert (sizeof(float) == sizeof(unsigned), "Float and unsigned must have same size!");
     unsigned ui;
+    if (f == 0.0f) {
+        f = 0.0f; // -0.0f and 0.0f are equal, so they must hash the same
+    }
     std::memcpy(&ui, &f, sizeof(float));
     return zcm::hash(ui);
 }
-- 
2.43.0


From 5b16d507c4cf28240e092c839a7f6216c6b55216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:33 +0000
Subject: [PATCH 10/17] fix: convertLinearToSRGB applies the inverse of the
 given gamma

---
 src/color_space.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/color_space.cpp b/src/color_space.cpp
index 6498b69..7471047 100644
--- a/src/color_space.cpp
+++ b/src/color_space.cpp
@@ -13,7 +13,7 @@ zcm::vec4 zcm::convertLinearToSRGB(zcm::vec4 ColorLinear, float Gamma) noexcept
 zcm::vec3 zcm::convertLinearToSRGB(zcm::vec3 colorLinear, float Gamma) noexcept
 {
 	auto ClampedColor = clamp(colorLinear, vec3{0}, vec3{1});
-	return mix(pow(ClampedColor, vec3(Gamma)) * 1.055f - 0.055f,
+	return mix(pow(ClampedColor, vec3(1.0f / Gamma)) * 1.055f - 0.055f,
 	           ClampedColor * 12.92f,
 	           lessThan(ClampedColor, vec3(0.0031308f)));
 }
-- 
2.43.0


From 7d6fe7e89052706c3466ba1843a945c7813b3ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:33 +0000
Subject: [PATCH 11/17] fix: two-component operator[] bounds asserts accepted
 index 2

---
 src/bvec2.cpp | 4 ++--
 src/ivec2.cpp | 4 ++--
 src/vec2.cpp  | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/bvec2.cpp b/src/bvec2.cpp
index 27f0619..f353495 100644
--- a/src/bvec2.cpp
+++ b/src/bvec2.cpp
@@ -132,7 +132,7 @@ bool zcm::operator !=(zcm::bvec2 first, zcm::bvec2 second) noexcept
 
 bool& zcm::bvec2::operator[](unsigned val) noexcept
 {
-    assert(val < 3);
+    assert(val < 2);
 
     if (val == 0) {
         return x;
@@ -144,7 +144,7 @@ bool& zcm::bvec2::operator[](unsigned val) noexcept
 
 bool zcm::bvec2::operator[](unsigned val) const noexcept
 {
-    assert(val < 3);
+    assert(val < 2);
 
     if (val == 0) {
         return x;
diff --git a/src/ivec2.cpp b/src/ivec2.cpp
index ceeca53..43e4e4a 100644
--- a/src/ivec2.cpp
+++ b/src/ivec2.cpp
@@ -105,13 +105,13 @@ bool zcm::operator>=(zcm::ivec2 first, zcm::ivec2 second) noexcept
 
 int32_t& zcm::ivec2::operator[](unsigned val) noexcept
 {
-    assert(val < 3);
+    assert(val < 2);
     return _data[val];
 }
 
 const int32_t& zcm::ivec2::operator[](unsigned val) const noexcept
 {
-    assert(val < 3);
+    assert(val < 2);
     return _data[val];
 }
 
diff --git a/src/vec2.cpp b/src/vec2.cpp
index 4a80148..b8bb5b5 100644
--- a/src/vec2.cpp
+++ b/src/vec2.cpp
@@ -101,13 +101,13 @@ bool zcm::operator!=(zcm::vec2 first, zcm::vec2 second) noexcept
 
 float& zcm::vec2::operator[](unsigned val) noexcept
 {
-    assert(val < 3);
+    assert(val < 2);
     return _data[val];
 }
 
 const float& zcm::vec2::operator[](unsigned val) const noexcept
 {
-    assert(val < 3);
+    assert(val < 2);
     return _data[val];
 }
 
-- 
2.43.0


From 1febc953cd4096f47b0c01a6e9aa18a0517b13ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:33 +0000
Subject: [PATCH 12/17] fix: define the declared modulo, bitwise and shift
 operators of ivec4

---
 src/ivec4.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ivec4.cpp b/src/ivec4.cpp
index f8ff2cc..2d75443 100644
--- a/src/ivec4.cpp
+++ b/src/ivec4.cpp
@@ -90,12 +90,24 @@ ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, +)
 ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, -)
 ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, *)
 ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, /)
+ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, %)
+ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, |)
+ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, &)
+ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, ^)
+ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, <<)
+ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, >>)
 }
 
 ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, +=)
 ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, -=)
 ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, *=)
 ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, /=)
+ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, %=)
+ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, |=)
+ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, &=)
+ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, ^=)
+ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, <<=)
+ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, >>=)
 
 zcm::ivec4 zcm::operator -(zcm::ivec4 first) noexcept
 {
-- 
2.43.0


From 0160e096fd35e9ad39c6d8b93b314929ff62b22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:33 +0000
Subject: [PATCH 13/17] fix: hash.hpp uses size_t without including its header

---
 include/zcm/hash.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/zcm/hash.hpp b/include/zcm/hash.hpp
index 1ce7d36..bd61e43 100644
--- a/include/zcm/hash.hpp
+++ b/include/zcm/hash.hpp
@@ -2,6 +2,7 @@
 
 #include <zcm/detail/vectorcall.hpp>
 #include <functional>
+#include <stddef.h>
 #include <zcm/vec4.hpp>
 #include <zcm/quat.hpp>
 
-- 
2.43.0


From 8e4618964c61e82b6206f5726cb467aab75862cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:33 +0000
Subject: [PATCH 14/17] fix: color_space builds when swizzles are disabled

---
 src/color_space.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/color_space.cpp b/src/color_space.cpp
index 7471047..1b5653d 100644
--- a/src/color_space.cpp
+++ b/src/color_space.cpp
@@ -7,7 +7,7 @@
 
 zcm::vec4 zcm::convertLinearToSRGB(zcm::vec4 ColorLinear, float Gamma) noexcept
 {
-	return {convertLinearToSRGB(ColorLinear.rgb, Gamma), ColorLinear.a};
+	return {convertLinearToSRGB(vec3{ColorLinear.r, ColorLinear.g, ColorLinear.b}, Gamma), ColorLinear.a};
 }
 
 zcm::vec3 zcm::convertLinearToSRGB(zcm::vec3 colorLinear, float Gamma) noexcept
@@ -29,7 +29,7 @@ zcm::vec3 zcm::convertLinearToSRGB(zcm::vec3 colorLinear) noexcept
 
 zcm::vec4 zcm::convertLinearToSRGB(zcm::vec4 colorLinear) noexcept
 {
-	return {convertLinearToSRGB(colorLinear.rgb), colorLinear.a};
+	return {convertLinearToSRGB(vec3{colorLinear.r, colorLinear.g, colorLinear.b}), colorLinear.a};
 }
 
 
@@ -42,7 +42,7 @@ zcm::vec3 zcm::convertSRGBToLinear(zcm::vec3 ColorSRGB, float Gamma) noexcept
 
 zcm::vec4 zcm::convertSRGBToLinear(zcm::vec4 ColorSRGB, float Gamma) noexcept
 {
-	return {convertSRGBToLinear(ColorSRGB.rgb, Gamma), ColorSRGB.a};
+	return {convertSRGBToLinear(vec3{ColorSRGB.r, ColorSRGB.g, ColorSRGB.b}, Gamma), ColorSRGB.a};
 }
 
 zcm::vec3 zcm::convertSRGBToLinear(zcm::vec3 ColorSRGB) noexcept
@@ -52,5 +52,5 @@ zcm::vec3 zcm::convertSRGBToLinear(zcm::vec3 ColorSRGB) noexcept
 
 zcm::vec4 zcm::convertSRGBToLinear(zcm::vec4 ColorSRGB) noexcept
 {
-    return {convertSRGBToLinear(ColorSRGB.rgb, 2.4f), ColorSRGB.a};
+    return {convertSRGBToLinear(vec3{ColorSRGB.r, ColorSRGB.g, ColorSRGB.b}, 2.4f), ColorSRGB.a};
 }
-- 
2.43.0


From 1395887b453f923e3f38a6e2ccd4d4174291b2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:03 +0000
Subject: [PATCH 15/17] fix: angle of a unit quaternion whose w rounded past
 one was NaN

---
 src/quaternion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quaternion.cpp b/src/quaternion.cpp
index f8f2014..c85d6dd 100644
--- a/src/quaternion.cpp
+++ b/src/quaternion.cpp
@@ -204,7 +204,7 @@ zcm::vec3 zcm_vectorcall zcm::axis(zcm::quat q) noexcept
 
 float zcm_vectorcall zcm::angle(zcm::quat q) noexcept
 {
-    return acos(q.w) * 2.0f;
+    return acos(clamp(q.w, -1.0f, 1.0f)) * 2.0f;
 }
 
 zcm::quat zcm::angleAxis(float angle, zcm::vec3 axis) noexcept
-- 
2.43.0


From 36d0efc6717f5f8bc82e41e17db7023e317a1d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:30 +0000
Subject: [PATCH 16/17] fix: assigning one vector's component to the same
 component of another overwrote all components

---
 include/zcm/detail/vec2_access.hpp | 15 +++++++++++++++
 include/zcm/detail/vec3_access.hpp | 15 +++++++++++++++
 include/zcm/detail/vec4_access.hpp | 15 +++++++++++++++
 include/zcm/ivec2.hpp              |  6 ++++++
 include/zcm/ivec3.hpp              |  7 +++++++
 include/zcm/ivec4.hpp              |  8 ++++++++
 include/zcm/vec2.hpp               |  6 ++++++
 include/zcm/vec3.hpp               |  7 +++++++
 include/zcm/vec4.hpp               |  8 ++++++++
 9 files changed, 87 insertions(+)

diff --git a/include/zcm/detail/vec2_access.hpp b/include/zcm/detail/vec2_access.hpp
index 9e843e5..5c5dbde 100644
--- a/include/zcm/detail/vec2_access.hpp
+++ b/include/zcm/detail/vec2_access.hpp
@@ -13,6 +13,13 @@ struct scalar_accessor_2
 {
     T _data[2];
 
+    scalar_accessor_2() = default;
+    scalar_accessor_2(const scalar_accessor_2&) = default;
+    // assigning v.x = u.x must not touch the other components.
+    void operator =(const scalar_accessor_2& other) noexcept {
+        _data[index] = other._data[index];
+    }
+
     void operator +=(T s) noexcept {
         _data[index] += s;
     }
@@ -129,6 +136,14 @@ struct shuffle_accessor_2
 {
     T _data[2];
 
+    shuffle_accessor_2() = default;
+    shuffle_accessor_2(const shuffle_accessor_2&) = default;
+    // assigning v.xy = u.xy must not touch the other components.
+    void operator =(const shuffle_accessor_2& other) noexcept {
+        int unused[] = { (_data[indices] = other._data[indices], 0)... };
+        (void)unused;
+    }
+
     operator V() const noexcept {
         return V{_data[indices]...};
     }
diff --git a/include/zcm/detail/vec3_access.hpp b/include/zcm/detail/vec3_access.hpp
index e44babd..ccdfd3f 100644
--- a/include/zcm/detail/vec3_access.hpp
+++ b/include/zcm/detail/vec3_access.hpp
@@ -15,6 +15,13 @@ struct scalar_accessor_3
 {
     T _data[3];
 
+    scalar_accessor_3() = default;
+    scalar_accessor_3(const scalar_accessor_3&) = default;
+    // assigning v.x = u.x must not touch the other components.
+    void operator =(const scalar_accessor_3& other) noexcept {
+        _data[index] = other._data[index];
+    }
+
     void operator +=(T s) noexcept {
         _data[index] += s;
     }
@@ -136,6 +143,14 @@ struct shuffle_accessor_3
 {
     T _data[3];
 
+    shuffle_accessor_3() = default;
+    shuffle_accessor_3(const shuffle_accessor_3&) = default;
+    // assigning v.xy = u.xy must not touch the other components.
+    void operator =(const shuffle_accessor_3& other) noexcept {
+        int unused[] = { (_data[indices] = other._data[indices], 0)... };
+        (void)unused;
+    }
+
     operator V() const noexcept {
         return V{_data[indices]...};
     }
diff --git a/include/zcm/detail/vec4_access.hpp b/include/zcm/detail/vec4_access.hpp
index 812b6b1..53e002f 100644
--- a/include/zcm/detail/vec4_access.hpp
+++ b/include/zcm/detail/vec4_access.hpp
@@ -17,6 +17,13 @@ struct scalar_accessor_4
 {
     T _data[4];
 
+    scalar_accessor_4() = default;
+    scalar_accessor_4(const scalar_accessor_4&) = default;
+    // assigning v.x = u.x must not touch the other components.
+    void operator =(const scalar_accessor_4& other) noexcept {
+        _data[index] = other._data[index];
+    }
+
     void operator +=(T s) noexcept {
         _data[index] += s;
     }
@@ -139,6 +146,14 @@ template<typename T, typename V, int... indices>
 struct shuffle_accessor_4
 {
     T _data[4];
+
+    shuffle_accessor_4() = default;
+    shuffle_accessor_4(const shuffle_accessor_4&) = default;
+    // assigning v.xy = u.xy must not touch the other components.
+    void operator =(const shuffle_accessor_4& other) noexcept {
+        int unused[] = { (_data[indices] = other._data[indices], 0)... };
+        (void)unused;
+    }
     operator V() const noexcept {
         return V{_data[indices]...};
     }
diff --git a/include/zcm/ivec2.hpp b/include/zcm/ivec2.hpp
index a8c94c7..f47cd7c 100644
--- a/include/zcm/ivec2.hpp
+++ b/include/zcm/ivec2.hpp
@@ -11,6 +11,12 @@ namespace zcm
     {
         ivec2() noexcept;
         explicit ivec2(no_init_t) noexcept;
+        ivec2(const ivec2&) = default;
+        ivec2& operator =(const ivec2& other) noexcept {
+            _data[0] = other._data[0];
+            _data[1] = other._data[1];
+            return *this;
+        }
         ivec2(int32_t value) noexcept;
         ivec2(int64_t) = delete;
         ivec2(float)   = delete;
diff --git a/include/zcm/ivec3.hpp b/include/zcm/ivec3.hpp
index 9fb1c81..6c81f92 100644
--- a/include/zcm/ivec3.hpp
+++ b/include/zcm/ivec3.hpp
@@ -12,6 +12,13 @@ namespace zcm
     {
         ivec3() noexcept;
         explicit ivec3(no_init_t) noexcept;
+        ivec3(const ivec3&) = default;
+        ivec3& operator =(const ivec3& other) noexcept {
+            _data[0] = other._data[0];
+            _data[1] = other._data[1];
+            _data[2] = other._data[2];
+            return *this;
+        }
         ivec3(int32_t value) noexcept;
         ivec3(int64_t) = delete;
         ivec3(float)   = delete;
diff --git a/include/zcm/ivec4.hpp b/include/zcm/ivec4.hpp
index feaec88..7a3a320 100644
--- a/include/zcm/ivec4.hpp
+++ b/include/zcm/ivec4.hpp
@@ -13,6 +13,14 @@ namespace zcm
     {
         ivec4 () noexcept;
         explicit ivec4 (no_init_t) noexcept;
+        ivec4(const ivec4&) = default;
+        ivec4& operator =(const ivec4& other) noexcept {
+            _data[0] = other._data[0];
+            _data[1] = other._data[1];
+            _data[2] = other._data[2];
+            _data[3] = other._data[3];
+            return *this;
+        }
         ivec4 (int32_t value) noexcept;
         ivec4 (int64_t) = delete;
         ivec4 (float)   = delete;
diff --git a/include/zcm/vec2.hpp b/include/zcm/vec2.hpp
index 533647f..f86f56c 100644
--- a/include/zcm/vec2.hpp
+++ b/include/zcm/vec2.hpp
@@ -10,6 +10,12 @@ namespace zcm
     {
         vec2() noexcept;
         explicit vec2(no_init_t) noexcept;
+        vec2(const vec2&) = default;
+        vec2& operator =(const vec2& other) noexcept {
+            _data[0] = other._data[0];
+            _data[1] = other._data[1];
+            return *this;
+        }
         vec2(float value) noexcept;
         vec2(int32_t) noexcept;
         vec2(int64_t) = delete;
diff --git a/include/zcm/vec3.hpp b/include/zcm/vec3.hpp
index e3a48ce..7f7280b 100644
--- a/include/zcm/vec3.hpp
+++ b/include/zcm/vec3.hpp
@@ -11,6 +11,13 @@ namespace zcm
     {
         vec3() noexcept;
         explicit vec3(no_init_t) noexcept;
+        vec3(const vec3&) = default;
+        vec3& operator =(const vec3& other) noexcept {
+            _data[0] = other._data[0];
+            _data[1] = other._data[1];
+            _data[2] = other._data[2];
+            return *this;
+        }
         vec3(float value) noexcept;
         vec3(int32_t) noexcept;
         vec3(int64_t) = delete;
diff --git a/include/zcm/vec4.hpp b/include/zcm/vec4.hpp
index eeadc43..34f2d28 100644
--- a/include/zcm/vec4.hpp
+++ b/include/zcm/vec4.hpp
@@ -13,6 +13,14 @@ namespace zcm
     {
         vec4 () noexcept;
         explicit vec4 (no_init_t) noexcept;
+        vec4(const vec4&) = default;
+        vec4& operator =(const vec4& other) noexcept {
+            _data[0] = other._data[0];
+            _data[1] = other._data[1];
+            _data[2] = other._data[2];
+            _data[3] = other._data[3];
+            return *this;
+        }
         vec4 (float value) noexcept;
         vec4 (int32_t) noexcept;
         vec4 (int64_t) = delete;
-- 
2.43.0


From b2c0d86c0c6efcc110be29c4599f1bdc05318cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:00 +0000
Subject: [PATCH 17/17] fix: components of integer vectors could not be
 assigned by name

---
 include/zcm/detail/vec2_access.hpp | 1 +
 include/zcm/detail/vec3_access.hpp | 1 +
 include/zcm/detail/vec4_access.hpp | 1 +
 3 files changed, 3 insertions(+)

diff --git a/include/zcm/detail/vec2_access.hpp b/include/zcm/detail/vec2_access.hpp
index 5c5dbde..223aa5b 100644
--- a/include/zcm/detail/vec2_access.hpp
+++ b/include/zcm/detail/vec2_access.hpp
@@ -65,6 +65,7 @@ T format_as(const scalar_accessor_2<T, index> &a)
 template <typename T, int index>
 struct scalar_accessor_2i : public scalar_accessor_2<T, index>
 {
+    using scalar_accessor_2<T, index>::operator =;
     void operator %=(T s) noexcept {
         scalar_accessor_2<T,index>::_data[index] %= s;
     }
diff --git a/include/zcm/detail/vec3_access.hpp b/include/zcm/detail/vec3_access.hpp
index ccdfd3f..c3912d3 100644
--- a/include/zcm/detail/vec3_access.hpp
+++ b/include/zcm/detail/vec3_access.hpp
@@ -65,6 +65,7 @@ T format_as(const scalar_accessor_3<T, index> &a)
 template <typename T, int index>
 struct scalar_accessor_3i : public scalar_accessor_3<T, index>
 {
+    using scalar_accessor_3<T, index>::operator =;
     void operator %=(T s) noexcept {
         scalar_accessor_3<T,index>::_data[index] %= s;
     }
diff --git a/include/zcm/detail/vec4_access.hpp b/include/zcm/detail/vec4_access.hpp
index 53e002f..0237258 100644
--- a/include/zcm/detail/vec4_access.hpp
+++ b/include/zcm/detail/vec4_access.hpp
@@ -66,6 +66,7 @@ T format_as(const scalar_accessor_4<T, index> &a)
 template <typename T, int index>
 struct scalar_accessor_4i : public scalar_accessor_4<T, index>
 {
+    using scalar_accessor_4<T, index>::operator =;
     void operator %=(T s) noexcept {
         scalar_accessor_4<T,index>::_data[index] %= s;
     }
-- 
2.43.0

