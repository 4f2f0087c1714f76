From ec81da822ac8576395b00532fd9ab0625c641445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:43 +0000
Subject: [PATCH 01/16] fix: trunc converted values outside of the int64_t
 range, which is undefined

trunc, and with it floor, ceil, round, fract, mod and the snap functions,
returned garbage for values such as 1e19.
---
 include/vecmath/scalar.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/vecmath/scalar.h b/include/vecmath/scalar.h
index 06245e3..b27d611 100644
--- a/include/vecmath/scalar.h
+++ b/include/vecmath/scalar.h
@@ -364,6 +364,13 @@ template <typename T> constexpr T smoothstep(const T e0, const T e1, const T v)
  * @return the truncated value
  */
 template <typename T> constexpr T trunc(const T v) {
+  if constexpr (std::is_floating_point<T>::value) {
+    // values of this magnitude are integral already (or infinite or NaN), and cannot be converted
+    constexpr auto limit = static_cast<T>(9223372036854775808.0);
+    if (!(v > -limit && v < limit)) {
+      return v;
+    }
+  }
   return static_cast<T>(static_cast<int64_t>(v));
 }
 
-- 
2.43.0


From b06d306b941e133e7048260dd1e8ce32312fb58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:43 +0000
Subject: [PATCH 02/16] fix: round returned a wrong integer when adding 0.5 was
 inexact

round(0.49999999999999994) was 1, round(4503599627370497.0) was
4503599627370498.
---
 include/vecmath/scalar.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/vecmath/scalar.h b/include/vecmath/scalar.h
index b27d611..68074a1 100644
--- a/include/vecmath/scalar.h
+++ b/include/vecmath/scalar.h
@@ -449,7 +449,12 @@ template <typename T> constexpr T fract(const T v) {
  */
 template <typename T> constexpr T round(const T v) {
   static_assert(std::is_floating_point<T>::value, "T must be a floating point type");
-  return v > static_cast<T>(0.0) ? floor(v + static_cast<T>(0.5)) : ceil(v - static_cast<T>(0.5));
+  // the difference is exact, but v + 0.5 may be rounded
+  const auto r = trunc(v);
+  if (abs(v - r) < static_cast<T>(0.5)) {
+    return r;
+  }
+  return v > static_cast<T>(0.0) ? r + static_cast<T>(1.0) : r - static_cast<T>(1.0);
 }
 
 /**
-- 
2.43.0


From 1ee8a2842dead9f92776c4e03dc74da1896850bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:43 +0000
Subject: [PATCH 03/16] fix: normalize_radians and normalize_degrees did not
 return for large negative angles

normalize_degrees(-1e18) never returned because adding 360 did not change
the angle.
---
 include/vecmath/scalar.h | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/include/vecmath/scalar.h b/include/vecmath/scalar.h
index 68074a1..033c730 100644
--- a/include/vecmath/scalar.h
+++ b/include/vecmath/scalar.h
@@ -632,14 +632,12 @@ template <typename T> constexpr T to_degrees(const T r) {
  * @param angle the angle to normalize, in radians
  * @return the normalized angle
  */
-template <typename T> constexpr T normalize_radians(T angle) {
+template <typename T> constexpr T normalize_radians(const T angle) {
   static_assert(std::is_floating_point<T>::value, "T must be a floating point type");
   constexpr T z = static_cast<T>(0.0);
   constexpr T o = constants<T>::two_pi();
-  while (angle < z) {
-    angle += o;
-  }
-  return mod(angle, o);
+  const auto r = mod(angle, o);
+  return r < z ? mod(r + o, o) : r;
 }
 
 /**
@@ -649,14 +647,12 @@ template <typename T> constexpr T normalize_radians(T angle) {
  * @param angle the angle to normalize, in degrees
  * @return the normalized angle
  */
-template <typename T> constexpr T normalize_degrees(T angle) {
+template <typename T> constexpr T normalize_degrees(const T angle) {
   static_assert(std::is_floating_point<T>::value, "T must be a floating point type");
   constexpr T z = static_cast<T>(0.0);
   constexpr T o = static_cast<T>(360.0);
-  while (angle < z) {
-    angle += o;
-  }
-  return mod(angle, o);
+  const auto r = mod(angle, o);
+  return r < z ? mod(r + o, o) : r;
 }
 
 /**
-- 
2.43.0


From 0340563a3eb0da1ee6d93e2a1a074e4d70228c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:55 +0000
Subject: [PATCH 04/16] fix: operator>= of approx<vec> did not compile

vec - scalar does not exist; shift by a vector of epsilons like the other operators.
---
 include/vecmath/approx.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vecmath/approx.h b/include/vecmath/approx.h
index 0f287c3..8aebfde 100644
--- a/include/vecmath/approx.h
+++ b/include/vecmath/approx.h
@@ -174,11 +174,11 @@ public:
   }
 
   friend constexpr bool operator>=(const vec<T, S>& lhs, const approx<vec<T, S>>& rhs) {
-    return lhs >= (rhs.m_value - rhs.m_epsilon);
+    return lhs >= (rhs.m_value - vec<T, S>::fill(rhs.m_epsilon));
   }
 
   friend constexpr bool operator>=(const approx<vec<T, S>> lhs, const vec<T, S>& rhs) {
-    return lhs.m_value >= (rhs - lhs.m_epsilon);
+    return lhs.m_value >= (rhs - vec<T, S>::fill(lhs.m_epsilon));
   }
 
   friend std::ostream& operator<<(std::ostream& str, const approx<vec<T, S>>& a) {
-- 
2.43.0


From 5ba259e713c3fb7bd791896519984e87bcdedb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:58 +0000
Subject: [PATCH 05/16] fix: shear_bbox_matrix did not compile for float

---
 include/vecmath/mat_ext.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/vecmath/mat_ext.h b/include/vecmath/mat_ext.h
index 9c4bebc..3f6b8ca 100644
--- a/include/vecmath/mat_ext.h
+++ b/include/vecmath/mat_ext.h
@@ -636,22 +636,22 @@ constexpr mat<T, 4, 4> shear_bbox_matrix(
   mat<T, 4, 4> shearMat;
   if (sideToShear == vec<T, 3>::pos_x()) {
     const auto relativeDelta = delta / oldSize.x();
-    shearMat = shear_matrix(relativeDelta.y(), relativeDelta.z(), 0., 0., 0., 0.);
+    shearMat = shear_matrix<T>(relativeDelta.y(), relativeDelta.z(), 0., 0., 0., 0.);
   } else if (sideToShear == vec<T, 3>::neg_x()) {
     const auto relativeDelta = delta / oldSize.x();
-    shearMat = shear_matrix(-relativeDelta.y(), -relativeDelta.z(), 0., 0., 0., 0.);
+    shearMat = shear_matrix<T>(-relativeDelta.y(), -relativeDelta.z(), 0., 0., 0., 0.);
   } else if (sideToShear == vec<T, 3>::pos_y()) {
     const auto relativeDelta = delta / oldSize.y();
-    shearMat = shear_matrix(0., 0., relativeDelta.x(), relativeDelta.z(), 0., 0.);
+    shearMat = shear_matrix<T>(0., 0., relativeDelta.x(), relativeDelta.z(), 0., 0.);
   } else if (sideToShear == vec<T, 3>::neg_y()) {
     const auto relativeDelta = delta / oldSize.y();
-    shearMat = shear_matrix(0., 0., -relativeDelta.x(), -relativeDelta.z(), 0., 0.);
+    shearMat = shear_matrix<T>(0., 0., -relativeDelta.x(), -relativeDelta.z(), 0., 0.);
   } else if (sideToShear == vec<T, 3>::pos_z()) {
     const auto relativeDelta = delta / oldSize.z();
-    shearMat = shear_matrix(0., 0., 0., 0., relativeDelta.x(), relativeDelta.y());
+    shearMat = shear_matrix<T>(0., 0., 0., 0., relativeDelta.x(), relativeDelta.y());
   } else if (sideToShear == vec<T, 3>::neg_z()) {
     const auto relativeDelta = delta / oldSize.z();
-    shearMat = shear_matrix(0., 0., 0., 0., -relativeDelta.x(), -relativeDelta.y());
+    shearMat = shear_matrix<T>(0., 0., 0., 0., -relativeDelta.x(), -relativeDelta.y());
   }
 
   // grab any vertex on side that is opposite the one being sheared.
-- 
2.43.0


From bac4cb52ed6e3ad54fe41f0e6a39d9fa49607ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:17 +0000
Subject: [PATCH 06/16] fix: multiplying a quaternion with a scalar scaled only
 its real part

---
 include/vecmath/quat.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vecmath/quat.h b/include/vecmath/quat.h
index f193588..6069f65 100644
--- a/include/vecmath/quat.h
+++ b/include/vecmath/quat.h
@@ -233,7 +233,7 @@ template <typename T> constexpr quat<T> operator-(const quat<T>& q) {
  * @return the multiplied quaternion
  */
 template <typename T> constexpr quat<T> operator*(const quat<T> lhs, const T rhs) {
-  return quat<T>(lhs.r * rhs, lhs.v);
+  return quat<T>(lhs.r * rhs, lhs.v * rhs);
 }
 
 /**
@@ -245,7 +245,7 @@ template <typename T> constexpr quat<T> operator*(const quat<T> lhs, const T rhs
  * @return the multiplied quaternion
  */
 template <typename T> constexpr quat<T> operator*(const T lhs, const quat<T>& rhs) {
-  return quat<T>(lhs * rhs.r, rhs.v);
+  return quat<T>(lhs * rhs.r, lhs * rhs.v);
 }
 
 /**
-- 
2.43.0


From e9dd4400534cdf910edda3f26140775ff8a2a35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:21 +0000
Subject: [PATCH 07/16] fix: from_points ignored the function that maps
 elements to points

---
 include/vecmath/plane.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/vecmath/plane.h b/include/vecmath/plane.h
index 0b96c53..fba2dfa 100644
--- a/include/vecmath/plane.h
+++ b/include/vecmath/plane.h
@@ -396,17 +396,17 @@ auto from_points(I cur, I end, const G& get = G())
   if (cur == end) {
     return std::make_tuple(false, plane<T, 3>());
   }
-  const auto p1 = *cur;
+  const auto p1 = get(*cur);
   ++cur;
   if (cur == end) {
     return std::make_tuple(false, plane<T, 3>());
   }
-  const auto p2 = *cur;
+  const auto p2 = get(*cur);
   ++cur;
   if (cur == end) {
     return std::make_tuple(false, plane<T, 3>());
   }
-  const auto p3 = *cur;
+  const auto p3 = get(*cur);
 
   return from_points(p1, p2, p3);
 }
-- 
2.43.0


From ad86d3cbb97a8c14e218b94b27a1804d3e015425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:54 +0000
Subject: [PATCH 08/16] fix: rays parallel to a coordinate plane missed a box
 containing their origin

---
 include/vecmath/intersection.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/vecmath/intersection.h b/include/vecmath/intersection.h
index 54a70d1..047240e 100644
--- a/include/vecmath/intersection.h
+++ b/include/vecmath/intersection.h
@@ -378,8 +378,11 @@ constexpr T intersect_ray_bbox(const ray<T, S>& r, const bbox<T, S>& b) {
   size_t bestPlane = 0;
   if (allInside) {
     // find the closest plane that was hit
+    // ignore the planes which the ray is parallel to
     for (size_t i = 1; i < S; ++i) {
-      if (distances[i] < distances[bestPlane]) {
+      if (
+        r.direction[i] != static_cast<T>(0.0) &&
+        (r.direction[bestPlane] == static_cast<T>(0.0) || distances[i] < distances[bestPlane])) {
         bestPlane = i;
       }
     }
-- 
2.43.0


From db75deebbee1d5719cdb6fd1e5983915d89173d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:49 +0000
Subject: [PATCH 09/16] fix: compareUnoriented considered polygons equal that
 differ only in their second vertex

---
 include/vecmath/polygon.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vecmath/polygon.h b/include/vecmath/polygon.h
index f6d8158..1331a78 100644
--- a/include/vecmath/polygon.h
+++ b/include/vecmath/polygon.h
@@ -424,8 +424,8 @@ int compareUnoriented(
         if (cmp != 0) {
           // Backward compare failed, so make a forward compare
           return compare(
-            std::next(std::begin(lhsVerts), 2), std::end(lhsVerts),
-            std::next(std::begin(rhsVerts), 2), std::end(rhsVerts), epsilon);
+            std::next(std::begin(lhsVerts), 1), std::end(lhsVerts),
+            std::next(std::begin(rhsVerts), 1), std::end(rhsVerts), epsilon);
         }
         ++i;
       }
-- 
2.43.0


From f89bac90787315aad00ef791ac39197160151988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:49 +0000
Subject: [PATCH 10/16] fix: polygon::rbegin and polygon::rend iterated forward

---
 include/vecmath/polygon.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vecmath/polygon.h b/include/vecmath/polygon.h
index 1331a78..9bee521 100644
--- a/include/vecmath/polygon.h
+++ b/include/vecmath/polygon.h
@@ -153,14 +153,14 @@ public:
    *
    * @return an iterator to the beginning of the vertices
    */
-  auto rbegin() const { return std::begin(m_vertices); }
+  auto rbegin() const { return std::rbegin(m_vertices); }
 
   /**
    * Returns an iterator to the end of the vertices.
    *
    * @return an iterator to the end of the vertices
    */
-  auto rend() const { return std::end(m_vertices); }
+  auto rend() const { return std::rend(m_vertices); }
 
   /**
    * Returns the vertices of this polygon.
-- 
2.43.0


From 6079403a56379a79daff4bebffc3e3aeb6eacbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:49 +0000
Subject: [PATCH 11/16] fix: narrowing a segment or polygon did not restore the
 order of its vertices

---
 include/vecmath/polygon.h | 1 +
 include/vecmath/segment.h | 3 +--
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vecmath/polygon.h b/include/vecmath/polygon.h
index 9bee521..2737569 100644
--- a/include/vecmath/polygon.h
+++ b/include/vecmath/polygon.h
@@ -110,6 +110,7 @@ public:
     for (const auto& vertex : other.vertices()) {
       m_vertices.push_back(vec<T, S>(vertex));
     }
+    rotate_min_to_front();
   }
 
   /**
diff --git a/include/vecmath/segment.h b/include/vecmath/segment.h
index dcae42e..2876801 100644
--- a/include/vecmath/segment.h
+++ b/include/vecmath/segment.h
@@ -77,8 +77,7 @@ public:
    */
   template <typename U>
   explicit constexpr segment(const segment<U, S>& other)
-    : m_start(other.start())
-    , m_end(other.end()) {}
+    : segment(vec<T, S>(other.start()), vec<T, S>(other.end())) {}
 
   /**
    * Returns the origin of this segment.
-- 
2.43.0


From b86799c179c85143936bb9e068a50b38d0187a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:53 +0000
Subject: [PATCH 12/16] fix: the distance of a ray and a line was wrong if the
 line passes behind the ray

---
 include/vecmath/distance.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/vecmath/distance.h b/include/vecmath/distance.h
index a708a71..123c089 100644
--- a/include/vecmath/distance.h
+++ b/include/vecmath/distance.h
@@ -438,8 +438,12 @@ constexpr line_distance<T> squared_distance(const ray<T, S>& r, const line<T, S>
     return line_distance<T>::Parallel(0, perpendicular_dist_squared, r_origin_on_l);
   }
 
-  const auto sc = max((b * e - c * d) / D, static_cast<T>(0.0));
-  const auto tc = (a * e - b * d) / D;
+  auto sc = (b * e - c * d) / D;
+  auto tc = (a * e - b * d) / D;
+  if (sc < static_cast<T>(0.0)) { // the ray origin is the closest point on the ray
+    sc = static_cast<T>(0.0);
+    tc = e / c;
+  }
 
   const auto rp = r.origin + sc * r.direction; // point on ray
   const auto lp = l.point + tc * l.direction;  // point on line
-- 
2.43.0


From 5a7eeb744fe6e94547af0d6d964ca6d1bffe76ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:13 +0000
Subject: [PATCH 13/16] fix: the distance of a ray to a segment or ray behind
 it did not consider its closest point

---
 include/vecmath/distance.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/vecmath/distance.h b/include/vecmath/distance.h
index 123c089..c509b19 100644
--- a/include/vecmath/distance.h
+++ b/include/vecmath/distance.h
@@ -312,9 +312,12 @@ line_distance<T> squared_distance(const ray<T, S>& r, const segment<T, S>& s) {
     tD = c;
   }
 
-  const auto sc = is_zero(sN, constants<T>::almost_zero()) ? static_cast<T>(0.0) : sN / sD;
-  const auto tc = max(
-    is_zero(tN, constants<T>::almost_zero()) ? static_cast<T>(0.0) : tN / tD, static_cast<T>(0.0));
+  auto sc = is_zero(sN, constants<T>::almost_zero()) ? static_cast<T>(0.0) : sN / sD;
+  auto tc = is_zero(tN, constants<T>::almost_zero()) ? static_cast<T>(0.0) : tN / tD;
+  if (tc < static_cast<T>(0.0)) { // the ray origin is the closest point on the ray
+    tc = static_cast<T>(0.0);
+    sc = min(max(-d / a, static_cast<T>(0.0)), static_cast<T>(1.0));
+  }
 
   u = u * sc; // vector from p1 to the closest point on the segment
   v = v * tc; // vector from ray origin to closest point on the ray
@@ -384,9 +387,12 @@ constexpr line_distance<T> squared_distance(const ray<T, S>& lhs, const ray<T, S
     tD = c;
   }
 
-  const auto sc = is_zero(sN, constants<T>::almost_zero()) ? static_cast<T>(0.0) : sN / sD;
-  const auto tc = max(
-    is_zero(tN, constants<T>::almost_zero()) ? static_cast<T>(0.0) : tN / tD, static_cast<T>(0.0));
+  auto sc = is_zero(sN, constants<T>::almost_zero()) ? static_cast<T>(0.0) : sN / sD;
+  auto tc = is_zero(tN, constants<T>::almost_zero()) ? static_cast<T>(0.0) : tN / tD;
+  if (tc < static_cast<T>(0.0)) { // the first ray's origin is the closest point on the first ray
+    tc = static_cast<T>(0.0);
+    sc = max(-d / a, static_cast<T>(0.0));
+  }
 
   u = u * sc; // vector from the second ray's origin to the closest point on first ray
   v = v * tc; // vector from the first ray's origin to closest point on the first ray
-- 
2.43.0


From 784ca1b4dcea294e1c8b3901306555a5b8d17d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:17 +0000
Subject: [PATCH 14/16] fix: the distance of parallel rays with opposite
 directions was wrong

---
 include/vecmath/distance.h | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/vecmath/distance.h b/include/vecmath/distance.h
index c509b19..0bced1b 100644
--- a/include/vecmath/distance.h
+++ b/include/vecmath/distance.h
@@ -369,14 +369,12 @@ constexpr line_distance<T> squared_distance(const ray<T, S>& lhs, const ray<T, S
 
   if (is_zero(D, constants<T>::almost_zero())) {
     // parallel case
-    const T rhs_origin_on_lhs = distance_to_projected_point(lhs, rhs.origin);
-    const T lhs_origin_on_rhs = distance_to_projected_point(rhs, lhs.origin);
-    const T perpendicular_dist_squared =
-      squared_distance(project_point(lhs, rhs.origin), rhs.origin);
-
-    return line_distance<T>::Parallel(
-      max(static_cast<T>(0), rhs_origin_on_lhs), perpendicular_dist_squared,
-      max(static_cast<T>(0), lhs_origin_on_rhs));
+    const T position1 = max(static_cast<T>(0), distance_to_projected_point(lhs, rhs.origin));
+    const auto point1 = point_at_distance(lhs, position1);
+    const T position2 = max(static_cast<T>(0), distance_to_projected_point(rhs, point1));
+    const auto point2 = point_at_distance(rhs, position2);
+
+    return line_distance<T>::Parallel(position1, squared_distance(point1, point2), position2);
   }
 
   auto sN = (b * e - c * d);
-- 
2.43.0


From 43c4f9261561db245c9a8a6a2642a60e6e309c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:00 +0000
Subject: [PATCH 15/16] fix: polygon_contains_point was wrong for points level
 with a vertex

A vertex with a Y coordinate of 0 counted as an intersection with both of its edges, so that, e.g., the center of a square with vertices on the axes was not contained.
---
 include/vecmath/intersection.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/vecmath/intersection.h b/include/vecmath/intersection.h
index 047240e..4b8f7a2 100644
--- a/include/vecmath/intersection.h
+++ b/include/vecmath/intersection.h
@@ -61,11 +61,15 @@ constexpr int handle_polygon_edge_intersection(const vec<T, 3>& v0, const vec<T,
    * or zero.
    */
 
-  // Does Y segment covered by the given edge touch the X axis at all?
+  // Is the origin on an edge that lies on the X axis?
   if (
-    (is_zero(v0.y(), constants<T>::almost_zero()) &&
-     is_zero(v1.y(), constants<T>::almost_zero())) ||
-    (v0.y() > T(0.0) && v1.y() > T(0.0)) || (v0.y() < T(0.0) && v1.y() < T(0.0))) {
+    is_zero(v0.y(), constants<T>::almost_zero()) && is_zero(v1.y(), constants<T>::almost_zero()) &&
+    (v0.x() > T(0.0)) != (v1.x() > T(0.0))) {
+    return -1;
+  }
+
+  // Does Y segment covered by the given edge touch the X axis at all?
+  if ((v0.y() > T(0.0)) == (v1.y() > T(0.0))) {
     return 0;
   }
 
-- 
2.43.0


From 1876efde6cc7f033e1a00a18f1bcb25f050b4d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:28 +0000
Subject: [PATCH 16/16] fix: convex_hull found no hull if the first two points
 coincide

The hull's plane was determined from the first two points and the first point
that is not colinear with them. If the first two points are equal, every point
is colinear with them and an empty hull was returned.
---
 include/vecmath/convex_hull.h | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/include/vecmath/convex_hull.h b/include/vecmath/convex_hull.h
index 1a51e6b..f5fbc0c 100644
--- a/include/vecmath/convex_hull.h
+++ b/include/vecmath/convex_hull.h
@@ -88,13 +88,14 @@ public:
       return;
     }
 
-    const auto thirdPointIndex = find_linearly_independent_point();
+    const auto secondPointIndex = find_distinct_point();
+    const auto thirdPointIndex = find_linearly_independent_point(secondPointIndex);
     if (thirdPointIndex >= m_points.size()) {
       m_points.clear();
       return;
     }
 
-    const auto axis = compute_axis(thirdPointIndex);
+    const auto axis = compute_axis(secondPointIndex, thirdPointIndex);
     swizzle(axis);
 
     find_anchor();
@@ -111,16 +112,27 @@ public:
   const std::vector<vec<T, 3>>& result() const { return m_points; }
 
 private:
-  std::size_t find_linearly_independent_point() const {
-    std::size_t index = 2;
-    while (index < m_points.size() && is_colinear(m_points[0], m_points[1], m_points[index])) {
+  std::size_t find_distinct_point() const {
+    std::size_t index = 1;
+    while (index < m_points.size() && m_points[index] == m_points[0]) {
       ++index;
     }
     return index;
   }
 
-  axis::type compute_axis(const std::size_t thirdPointIndex) const {
-    const auto axis = cross(m_points[thirdPointIndex] - m_points[0], m_points[1] - m_points[0]);
+  std::size_t find_linearly_independent_point(const std::size_t secondPointIndex) const {
+    std::size_t index = secondPointIndex + 1;
+    while (index < m_points.size() &&
+           is_colinear(m_points[0], m_points[secondPointIndex], m_points[index])) {
+      ++index;
+    }
+    return index;
+  }
+
+  axis::type compute_axis(
+    const std::size_t secondPointIndex, const std::size_t thirdPointIndex) const {
+    const auto axis =
+      cross(m_points[thirdPointIndex] - m_points[0], m_points[secondPointIndex] - m_points[0]);
     return find_abs_max_component(axis);
   }
 
-- 
2.43.0

