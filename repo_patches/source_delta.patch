From 3dd4f87051252f459405494ce198fa856f20984d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:26 +0000
Subject: [PATCH 01/28] fix: make unordered_pair ordering independent of
 element order

operator< was not a strict weak ordering consistent with operator== (it was
neither transitive nor invariant under swapping the elements), so lookups of a
pair in an ordered container could miss it.
---
 include/edyn/core/unordered_pair.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/edyn/core/unordered_pair.hpp b/include/edyn/core/unordered_pair.hpp
index 9552b02..673b96f 100644
--- a/include/edyn/core/unordered_pair.hpp
+++ b/include/edyn/core/unordered_pair.hpp
@@ -30,13 +30,19 @@ struct unordered_pair {
     }
 
     bool operator<(const unordered_pair &other) const {
-        if (first == other.second && second == other.first) {
-            return false;
+        // Compare the elements in sorted order, so the result does not depend
+        // on the order they're stored and is consistent with `operator==`.
+        const bool sorted = !(second < first);
+        const bool other_sorted = !(other.second < other.first);
+        const auto &lower = sorted ? first : second;
+        const auto &upper = sorted ? second : first;
+        const auto &other_lower = other_sorted ? other.first : other.second;
+        const auto &other_upper = other_sorted ? other.second : other.first;
+
+        if (lower == other_lower) {
+            return upper < other_upper;
         }
-        if (first == other.first) {
-            return second < other.second;
-        }
-        return first < other.first;
+        return lower < other_lower;
     }
 };
 
-- 
2.43.0


From 64a2b39e26dcee4361dcc73c5428aef36249520a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:03 +0000
Subject: [PATCH 02/28] fix: return the smallest distance in
 closest_point_box_inside

It returned the distance to the last face tested (-z) instead of the distance
to the closest face.
---
 src/edyn/math/geom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index ab6f911..bdd7418 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -1038,7 +1038,7 @@ scalar closest_point_box_inside(const vector3 &half_extent, const vector3 &p, ve
         normal = vector3{0, 0, -1};
     }
 
-    return dist;
+    return min_dist;
 }
 
 size_t intersect_line_aabb(const vector2 &p0, const vector2 &p1,
-- 
2.43.0


From 8acfa45a40071ecea502ead13e7d6a15a480720d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:03 +0000
Subject: [PATCH 03/28] fix: divide by the squared length for a tangent line in
 intersect_line_circle

The parameter of the tangent point was multiplied by the squared length of the
direction vector instead of divided by it.
---
 src/edyn/math/geom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index bdd7418..66abad1 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -210,7 +210,7 @@ size_t intersect_line_circle(const vector2 &p0, const vector2 &p1,
         return 2;
     }
 
-    s0 = -dp * dl2;
+    s0 = -dp / dl2;
     return 1;
 }
 
-- 
2.43.0


From 7b7272134ee10af5b98218916630bc3f7ba4600c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:03 +0000
Subject: [PATCH 04/28] fix: compare the magnitude of the radii difference in
 intersect_circle_circle

Concentric circles where the first is the smaller were reported as
intersecting at two points.
---
 src/edyn/math/geom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index 66abad1..c6b1a83 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -448,7 +448,7 @@ size_t intersect_circle_circle(const vector2 &posA, scalar radiusA,
     auto rsum = radiusA + radiusB;
     auto rsub = radiusA - radiusB;
 
-    if (lu2 < EDYN_EPSILON && rsub < EDYN_EPSILON) {
+    if (lu2 < EDYN_EPSILON && std::abs(rsub) < EDYN_EPSILON) {
         // Concentric circles of same radius.
         res0 = posA + vector2_x * radiusA;
         res1 = posB - vector2_x * radiusB;
-- 
2.43.0


From 891eb9f49dbab3679953fbfc55b5f1535f70053d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:03 +0000
Subject: [PATCH 05/28] fix: compute second closest point of parallel segments
 from the first segment

The parameter of the second point in `s2` used the wrong sign for one of the
projections, thus the second pair of points could be apart along the direction
of the segments.
---
 src/edyn/math/geom.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index c6b1a83..1d80735 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -126,12 +126,8 @@ scalar closest_point_segment_segment(const vector3 &p1, const vector3 &q1,
                 s   = clamp_unit(std::min(-c * a_inv, -f1 * a_inv));
                 *sp = clamp_unit(std::max(-c * a_inv, -f1 * a_inv));
 
-                auto r2 = p2 - q1;
-                auto f2 = dot(d2, r2);
-                auto e_inv = 1 / e;
-
-                t   = clamp_unit(std::min(-f * e_inv, -f2 * e_inv));
-                *tp = clamp_unit(std::max(-f * e_inv, -f2 * e_inv));
+                // Point on `l2` closest to `s1(sp)`.
+                *tp = clamp_unit((b * *sp + f) / e);
 
                 if (std::abs(s - *sp) > EDYN_EPSILON) {
                     *num_points = 2;
-- 
2.43.0


From 67b71b08a80bb8d2b0c91671c1204c5d70f51e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:03 +0000
Subject: [PATCH 06/28] fix: always output the number of points in
 closest_point_segment_segment

It was left unassigned when any of the segments degenerates into a point.
---
 src/edyn/math/geom.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index 1d80735..c4d35b9 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -84,6 +84,10 @@ scalar closest_point_segment_segment(const vector3 &p1, const vector3 &q1,
     const auto e = dot(d2, d2); // Squared length of segment `s2`.
     const auto f = dot(d2, r);
 
+    if (num_points != nullptr) {
+        *num_points = 1;
+    }
+
     // Check if either or both segments degenerate into points.
     if (a <= EDYN_EPSILON && e <= EDYN_EPSILON) {
         // Both segments degenerate into points.
-- 
2.43.0


From c2c0a5d3690678d9e16dca0af1ee404251a03bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:51 +0000
Subject: [PATCH 07/28] fix: intersect_line_aabb misses lines through the
 (min.x, max.y) and (max.x, min.y) corners

---
 src/edyn/math/geom.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index c4d35b9..4c62366 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -1075,7 +1075,7 @@ size_t intersect_line_aabb(const vector2 &p0, const vector2 &p1,
         auto t = e.x / d.x;
         auto qy = p0.y + d.y * t;
 
-        if (qy >= aabb_min.y && qy < aabb_max.y) {
+        if (qy >= aabb_min.y && qy <= aabb_max.y) {
             s0 = t;
             ++num_points;
         }
@@ -1085,7 +1085,7 @@ size_t intersect_line_aabb(const vector2 &p0, const vector2 &p1,
         auto t = f.x / d.x;
         auto qy = p0.y + d.y * t;
 
-        if (qy > aabb_min.y && qy <= aabb_max.y) {
+        if (qy >= aabb_min.y && qy <= aabb_max.y) {
             if (num_points == 0) {
                 s0 = t;
                 ++num_points;
@@ -1104,7 +1104,7 @@ size_t intersect_line_aabb(const vector2 &p0, const vector2 &p1,
         auto t = e.y / d.y;
         auto qx = p0.x + d.x * t;
 
-        if (qx >= aabb_min.x && qx < aabb_max.x) {
+        if (qx >= aabb_min.x && qx <= aabb_max.x) {
             if (num_points == 0) {
                 s0 = t;
                 ++num_points;
@@ -1123,7 +1123,7 @@ size_t intersect_line_aabb(const vector2 &p0, const vector2 &p1,
         auto t = f.y / d.y;
         auto qx = p0.x + d.x * t;
 
-        if (qx > aabb_min.x && qx <= aabb_max.x) {
+        if (qx >= aabb_min.x && qx <= aabb_max.x) {
             if (num_points == 0) {
                 s0 = t;
                 ++num_points;
-- 
2.43.0


From fb399cb47bd3668bbfa5809066e3e0fa0fa5f0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:21 +0000
Subject: [PATCH 08/28] fix: get_triangle_support_feature does not report the
 greatest projection when the third vertex joins an edge

---
 src/edyn/math/triangle.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/edyn/math/triangle.cpp b/src/edyn/math/triangle.cpp
index f338737..90d252e 100644
--- a/src/edyn/math/triangle.cpp
+++ b/src/edyn/math/triangle.cpp
@@ -66,8 +66,9 @@ void get_triangle_support_feature(const triangle_vertices &vertices,
                     // If this is the second vertex (index 1), the previous could
                     // only have been vertex 0, thus this must be edge 0.
                     tri_feature_index = 0;
-                    projection = std::max(proj_i, projection);
                 }
+
+                projection = std::max(proj_i, projection);
             } else if (tri_feature == triangle_feature::edge) {
                 // If the maximum feature was already an edge, adding this
                 // vertex to it makes it a face.
-- 
2.43.0


From e25ea58ee8b4f8e403f0ea215f64b4fa77c308b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:34 +0000
Subject: [PATCH 09/28] fix: test the closing edge in
 point_inside_convex_polygon

---
 src/edyn/util/shape_util.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/edyn/util/shape_util.cpp b/src/edyn/util/shape_util.cpp
index 6ff16de..3384803 100644
--- a/src/edyn/util/shape_util.cpp
+++ b/src/edyn/util/shape_util.cpp
@@ -207,9 +207,9 @@ std::vector<size_t> calculate_convex_hull(const std::vector<vector2> &points, sc
 bool point_inside_convex_polygon(const std::vector<vector2> &vertices, const vector2 &point) {
     EDYN_ASSERT(vertices.size() > 2);
 
-    for (size_t i = 0; i < vertices.size() - 1; ++i) {
+    for (size_t i = 0; i < vertices.size(); ++i) {
         auto d = point - vertices[i];
-        auto e = vertices[i + 1] - vertices[i];
+        auto e = vertices[(i + 1) % vertices.size()] - vertices[i];
         // Vertices are oriented counter-clockwise. Rotate edge clockwise
         // to obtain a vector that points outside the convex polygon.
         auto n = -orthogonal(e);
-- 
2.43.0


From 8ce3bc8fc20c1ff97f18fbb36882a3575a956834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:10 +0000
Subject: [PATCH 10/28] fix: closest_point_convex_polygon misses the regions of
 vertices and points aligned with a vertex

---
 src/edyn/util/shape_util.cpp | 44 ++++++++++++++----------------------
 1 file changed, 17 insertions(+), 27 deletions(-)

diff --git a/src/edyn/util/shape_util.cpp b/src/edyn/util/shape_util.cpp
index 3384803..0a43a7a 100644
--- a/src/edyn/util/shape_util.cpp
+++ b/src/edyn/util/shape_util.cpp
@@ -240,7 +240,10 @@ bool sort_triangle_ccw(vector2 &v0, vector2 &v1, vector2 &v2) {
 bool closest_point_convex_polygon(const std::vector<vector2> &vertices,
                                   const std::vector<size_t> &indices,
                                   const vector2 &p, vector2 &closest) {
-    // Find Voronoi region which contains `p`.
+    // Find the closest point among all edges which have `p` in front of them.
+    auto min_dist_sqr = EDYN_SCALAR_MAX;
+    auto is_outside = false;
+
     for (size_t i = 0; i < indices.size(); ++i) {
         auto j = (i + 1) % indices.size();
         auto i0 = indices[i];
@@ -258,35 +261,22 @@ bool closest_point_convex_polygon(const std::vector<vector2> &vertices,
             continue;
         }
 
-        if (dot(p - v0, e0) > 0) {
-            // Point is past the first boundary of the Voronoi region of
-            // this edge.
-            if (dot(p - v1, e0) < 0) {
-                // Point is before the second boundary of the Voronoi region
-                // of this edge, thus this is the Voronoi region where it belongs.
-                auto t = dot(p - v0, e0) / dot(e0, e0);
-                closest = lerp(v0, v1, t);
-                return true;
-            } else {
-                // Point is past the second boundary of the Voronoi region
-                // of this edge. If it's also before the first boundary of
-                // the Voronoi region on the next edge, it means the Voronoi
-                // region of the vertex connecting these two edges contains
-                // the point.
-                auto k = (i + 2) % indices.size();
-                auto i2 = indices[k];
-                auto &v2 = vertices[i2];
-                auto e1 = v2 - v1;
-
-                if (dot(p - v1, e1) < 0) {
-                    closest = v1;
-                    return true;
-                }
-            }
+        is_outside = true;
+
+        // Clamp to the end points of the edge since `p` could be in the Voronoi
+        // region of a vertex.
+        auto len_sqr = dot(e0, e0);
+        auto t = len_sqr > 0 ? clamp_unit(dot(p - v0, e0) / len_sqr) : scalar(0);
+        auto candidate = lerp(v0, v1, t);
+        auto dist_sqr = distance_sqr(p, candidate);
+
+        if (dist_sqr < min_dist_sqr) {
+            min_dist_sqr = dist_sqr;
+            closest = candidate;
         }
     }
 
-    return false;
+    return is_outside;
 }
 
 bool closest_point_polygon(const support_polygon &polygon,
-- 
2.43.0


From 57048ac33906b6af2d83ac820a56acb8003419a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:28 +0000
Subject: [PATCH 11/28] fix: compare with the squared segment length when
 looking for the middle of collinear contact points

---
 src/edyn/math/geom.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index 4c62366..ce7f3c0 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -917,21 +917,21 @@ insertion_point_result insertion_point_index(const vector3 *points,
             // Points are collinear. Replace point in the middle.
             auto d0 = dot(points[1] - points[0], points[2] - points[0]);
 
-            if (d0 > 0 && d0 < 1) {
+            if (d0 > 0 && d0 < distance_sqr(points[2], points[0])) {
                 // Point 1 is between 0 and 2.
                 return {point_insertion_type::replace, 1};
             }
 
             auto d1 = dot(points[0] - points[1], points[2] - points[1]);
 
-            if (d1 > 0 && d1 < 1) {
+            if (d1 > 0 && d1 < distance_sqr(points[2], points[1])) {
                 // Point 0 is between 1 and 2.
                 return {point_insertion_type::replace, 0};
             }
 
             auto d2 = dot(points[2] - points[0], points[1] - points[0]);
 
-            if (d2 > 0 && d2 < 1) {
+            if (d2 > 0 && d2 < distance_sqr(points[1], points[0])) {
                 // Point 2 is between 0 and 1.
                 return {point_insertion_type::replace, 2};
             }
-- 
2.43.0


From e7e6ccbd7615a93b1dc5cf7a6568de21f021bc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:36 +0000
Subject: [PATCH 12/28] fix: capsule moment of inertia with any axis and with
 hemispheres shifted from their centroid

---
 src/edyn/dynamics/moment_of_inertia.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/edyn/dynamics/moment_of_inertia.cpp b/src/edyn/dynamics/moment_of_inertia.cpp
index f5bf0ab..bf7c076 100644
--- a/src/edyn/dynamics/moment_of_inertia.cpp
+++ b/src/edyn/dynamics/moment_of_inertia.cpp
@@ -72,11 +72,15 @@ vector3 moment_of_inertia_solid_capsule(scalar mass, scalar len, scalar radius,
     auto cyl_mass = mass * cyl_vol / total_vol;
     auto sph_mass = mass * sph_vol / total_vol;
 
-    auto cyl_inertia = moment_of_inertia_solid_cylinder(cyl_mass, len, radius, axis);
+    // Calculate with axis pointing along x and then choose elements accordingly.
+    auto cyl_inertia = moment_of_inertia_solid_cylinder(cyl_mass, len, radius, coordinate_axis::x);
     auto sph_inertia = moment_of_inertia_solid_sphere(sph_mass, radius);
 
     auto xx = sph_inertia + cyl_inertia.x;
-    auto yy_zz = sph_inertia + sph_mass * square(scalar(4) * len + scalar(3) * radius) / scalar(64) + cyl_inertia.y;
+    // The moment of inertia of the hemispheres must be shifted to their
+    // centroid, which lies 3/8 of the radius away from their base, before being
+    // shifted to the center of the capsule.
+    auto yy_zz = sph_inertia + sph_mass * (len * len / scalar(4) + len * radius * scalar(3) / scalar(8)) + cyl_inertia.y;
 
     switch (axis) {
     case coordinate_axis::x:
-- 
2.43.0


From 13ed03405cbbeacc022c44f4c2d4321c730e8194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:36 +0000
Subject: [PATCH 13/28] fix: sign of the off-diagonal elements of the
 polyhedron inertia tensor

---
 src/edyn/dynamics/moment_of_inertia.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/edyn/dynamics/moment_of_inertia.cpp b/src/edyn/dynamics/moment_of_inertia.cpp
index bf7c076..7ab44f4 100644
--- a/src/edyn/dynamics/moment_of_inertia.cpp
+++ b/src/edyn/dynamics/moment_of_inertia.cpp
@@ -146,9 +146,10 @@ matrix3x3 moment_of_inertia_polyhedron(scalar mass,
 
     auto density = mass / (volume / scalar(6));
     auto r = density / scalar (120);
-    auto Iyz = yz * r;
-    auto Izx = zx * r;
-    auto Ixy = xy * r;
+    // Products of inertia have opposite sign in the inertia tensor.
+    auto Iyz = -yz * r;
+    auto Izx = -zx * r;
+    auto Ixy = -xy * r;
     auto Ixx = (yy + zz) * r;
     auto Iyy = (zz + xx) * r;
     auto Izz = (xx + yy) * r;
-- 
2.43.0


From 7686e67eda451a63198609c9d65eeeb3dd7f8111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:58 +0000
Subject: [PATCH 14/28] fix: reset elements when clearing a free_list

---
 include/edyn/core/free_list.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/edyn/core/free_list.hpp b/include/edyn/core/free_list.hpp
index d0c30be..e2e1696 100644
--- a/include/edyn/core/free_list.hpp
+++ b/include/edyn/core/free_list.hpp
@@ -47,6 +47,7 @@ public:
     void clear() {
         for (auto i = size_t{}; i < m_elem.size(); ++i) {
             auto &elem = m_elem[i];
+            elem = {};
             elem.next = i + 1;
         }
 
-- 
2.43.0


From d4fa2349f63a34bd4b93077ea73bdf1d6178435b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:01 +0000
Subject: [PATCH 15/28] fix: serialize the id of a query_entity packet

The server copies it into the response but it was never transmitted.
---
 include/edyn/networking/packet/query_entity.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/edyn/networking/packet/query_entity.hpp b/include/edyn/networking/packet/query_entity.hpp
index 563e01e..273d0eb 100644
--- a/include/edyn/networking/packet/query_entity.hpp
+++ b/include/edyn/networking/packet/query_entity.hpp
@@ -16,6 +16,7 @@ struct query_entity {
 
 template<typename Archive>
 void serialize(Archive &archive, query_entity &packet) {
+    archive(packet.id);
     archive(packet.entities);
 }
 
-- 
2.43.0


From 77f9bcff35ea53d9d871188154ecf0390e4f7142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:01 +0000
Subject: [PATCH 16/28] fix: pass the variant to std::visit in
 serialization_sizeof

---
 include/edyn/serialization/std_s11n.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edyn/serialization/std_s11n.hpp b/include/edyn/serialization/std_s11n.hpp
index 451604c..cd9ddf1 100644
--- a/include/edyn/serialization/std_s11n.hpp
+++ b/include/edyn/serialization/std_s11n.hpp
@@ -143,7 +143,7 @@ size_t serialization_sizeof(const std::variant<Ts...>& var) {
     size_t content_size;
     std::visit([&content_size](auto &&t) {
         content_size = sizeof(t);
-    });
+    }, var);
     return sizeof(uint8_t) + content_size;
 }
 
-- 
2.43.0


From 6d1b5030233ac3004322f5c1ac6f3c35dc0b9cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:01 +0000
Subject: [PATCH 17/28] fix: do not read an uninitialized value when the input
 for a vector<bool> is truncated

---
 include/edyn/serialization/std_s11n.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edyn/serialization/std_s11n.hpp b/include/edyn/serialization/std_s11n.hpp
index cd9ddf1..74ab891 100644
--- a/include/edyn/serialization/std_s11n.hpp
+++ b/include/edyn/serialization/std_s11n.hpp
@@ -65,7 +65,7 @@ void serialize(Archive &archive, std::vector<bool> &vector) {
             }
             archive(set);
         } else {
-            set_type set;
+            set_type set {};
             archive(set);
             for (size_t j = 0; j < count; ++j) {
                 vector[start + j] = (set & (1 << j)) > 0;
-- 
2.43.0


From a7fdac202efb247565e5828a83a3b65959771565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:01 +0000
Subject: [PATCH 18/28] fix: write exactly as many map elements as announced

---
 include/edyn/serialization/std_s11n.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/edyn/serialization/std_s11n.hpp b/include/edyn/serialization/std_s11n.hpp
index 74ab891..e9f4af3 100644
--- a/include/edyn/serialization/std_s11n.hpp
+++ b/include/edyn/serialization/std_s11n.hpp
@@ -199,6 +199,9 @@ void serialize(Archive &archive, std::map<K, V> &map) {
         }
     } else {
         for (auto &pair : map) {
+            // Only write as many elements as announced.
+            if (size-- == 0) break;
+
             // Safe to const_cast since it's an output archive thus will only
             // read from arguments.
             auto &first = const_cast<K &>(pair.first);
-- 
2.43.0


From 4e2848225febb683e2c66f9456638cc9ab540915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:27 +0000
Subject: [PATCH 19/28] fix: interpolate per-vertex edge values linearly along
 the edge

---
 src/edyn/shapes/triangle_mesh.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/edyn/shapes/triangle_mesh.cpp b/src/edyn/shapes/triangle_mesh.cpp
index 0c47004..b18b860 100644
--- a/src/edyn/shapes/triangle_mesh.cpp
+++ b/src/edyn/shapes/triangle_mesh.cpp
@@ -170,7 +170,7 @@ scalar triangle_mesh::get_edge_friction(size_t edge_idx, scalar fraction) const
 
 scalar triangle_mesh::get_edge_friction(size_t edge_idx, vector3 point) const {
     auto [v0, v1] = get_edge_vertices(edge_idx);
-    auto fraction = distance_sqr(point, v0) / distance_sqr(v1, v0);
+    auto fraction = dot(point - v0, v1 - v0) / distance_sqr(v1, v0);
     return get_edge_friction(edge_idx, fraction);
 }
 
@@ -198,7 +198,7 @@ scalar triangle_mesh::get_edge_restitution(size_t edge_idx, scalar fraction) con
 
 scalar triangle_mesh::get_edge_restitution(size_t edge_idx, vector3 point) const {
     auto [v0, v1] = get_edge_vertices(edge_idx);
-    auto fraction = distance_sqr(point, v0) / distance_sqr(v1, v0);
+    auto fraction = dot(point - v0, v1 - v0) / distance_sqr(v1, v0);
     return get_edge_restitution(edge_idx, fraction);
 }
 
@@ -229,7 +229,7 @@ std::array<triangle_mesh::material_influence, 2> triangle_mesh::get_edge_materia
 
 std::array<triangle_mesh::material_influence, 2> triangle_mesh::get_edge_material_id(size_t edge_idx, vector3 point) const {
     auto [v0, v1] = get_edge_vertices(edge_idx);
-    auto fraction = distance_sqr(point, v0) / distance_sqr(v1, v0);
+    auto fraction = dot(point - v0, v1 - v0) / distance_sqr(v1, v0);
     return get_edge_material_id(edge_idx, fraction);
 }
 
-- 
2.43.0


From 811402a9d0f9ac485e32ea1fef82c124713cae04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:57 +0000
Subject: [PATCH 20/28] fix: clear all calculated properties of a convex mesh
 before calculating them again

---
 src/edyn/shapes/convex_mesh.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/edyn/shapes/convex_mesh.cpp b/src/edyn/shapes/convex_mesh.cpp
index 649f7df..d0d6dc7 100644
--- a/src/edyn/shapes/convex_mesh.cpp
+++ b/src/edyn/shapes/convex_mesh.cpp
@@ -172,6 +172,9 @@ void convex_mesh::calculate_edges() {
 }
 
 void convex_mesh::calculate_neighbors() {
+    neighbors_start.clear();
+    neighbor_indices.clear();
+
     neighbors_start.push_back(0);
     uint32_t neighbor_count = 0;
 
@@ -193,6 +196,9 @@ void convex_mesh::calculate_neighbors() {
 }
 
 void convex_mesh::calculate_relevant_faces() {
+    relevant_faces.clear();
+    relevant_normals.clear();
+
     // Find unique face normals.
     for (size_t face_idx = 0; face_idx < num_faces(); ++face_idx) {
         auto &normal = normals[face_idx];
@@ -209,6 +215,8 @@ void convex_mesh::calculate_relevant_faces() {
 }
 
 void convex_mesh::calculate_relevant_edges() {
+    relevant_edges.clear();
+
     // Find unique edge directions. Parallel edges that point in opposite
     // directions are considered similar since the direction doesn't matter
     // when doing edge vs edge in SAT.
-- 
2.43.0


From dace7bb693b2a2eab2624b8fd6081df489c9434a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:46 +0000
Subject: [PATCH 21/28] fix: do not lose a worker stop requested before its
 thread runs

worker::run set m_running to true when the thread got to run, overwriting
the false written by a stop() that came first. The thread would then wait
forever and job_dispatcher::stop() never return from join().
---
 include/edyn/parallel/worker.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/edyn/parallel/worker.hpp b/include/edyn/parallel/worker.hpp
index be65822..c66e2f5 100644
--- a/include/edyn/parallel/worker.hpp
+++ b/include/edyn/parallel/worker.hpp
@@ -18,14 +18,13 @@ public:
     }
 
     void run() {
-        m_running = true;
-
         for (;;) {
             auto j = m_queue.pop();
             j();
             --m_size;
 
             if (!m_running) {
+                m_running = true; // Allow it to run again.
                 break;
             }
         }
@@ -53,7 +52,7 @@ public:
     }
 
 private:
-    std::atomic_bool m_running {false};
+    std::atomic_bool m_running {true};
     job_queue m_queue;
     std::atomic<size_t> m_size {0};
 };
-- 
2.43.0


From 8f9e0193fc42419941942119055248ca8e1f2658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:46 +0000
Subject: [PATCH 22/28] fix: count the no-op job that stops a worker

worker::run decrements m_size for every job it pops, including the no-op
pushed by stop(), which was not counted. The size would wrap around to the
largest value.
---
 include/edyn/parallel/worker.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edyn/parallel/worker.hpp b/include/edyn/parallel/worker.hpp
index c66e2f5..caf2091 100644
--- a/include/edyn/parallel/worker.hpp
+++ b/include/edyn/parallel/worker.hpp
@@ -40,7 +40,7 @@ public:
 
     void stop() {
         m_running = false;
-        m_queue.push(job::noop()); // Unblock queue with a no-op job.
+        push_job(job::noop()); // Unblock queue with a no-op job.
     }
 
     size_t size() {
-- 
2.43.0


From 418ecf4046955f2525fe852bcc5ea141d595bcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:46 +0000
Subject: [PATCH 23/28] fix: initialize the start index of the job dispatcher

---
 include/edyn/parallel/job_dispatcher.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edyn/parallel/job_dispatcher.hpp b/include/edyn/parallel/job_dispatcher.hpp
index cc775df..c18cf6f 100644
--- a/include/edyn/parallel/job_dispatcher.hpp
+++ b/include/edyn/parallel/job_dispatcher.hpp
@@ -41,7 +41,7 @@ public:
 private:
     std::vector<std::unique_ptr<std::thread>> m_threads;
     std::map<std::thread::id, std::unique_ptr<worker>> m_workers;
-    std::atomic<size_t> m_start;
+    std::atomic<size_t> m_start {0};
 };
 
 }
-- 
2.43.0


From 728c4f35ec39f8d723d48942c9609b717515b805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:46 +0000
Subject: [PATCH 24/28] fix: do not wait forever on a counter that starts at
 zero

---
 include/edyn/parallel/atomic_counter_sync.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edyn/parallel/atomic_counter_sync.hpp b/include/edyn/parallel/atomic_counter_sync.hpp
index e758409..7f393a0 100644
--- a/include/edyn/parallel/atomic_counter_sync.hpp
+++ b/include/edyn/parallel/atomic_counter_sync.hpp
@@ -11,7 +11,7 @@ class atomic_counter_sync {
 public:
     atomic_counter_sync(size_t count)
         : count(count)
-        , done(false)
+        , done(count == 0)
     {}
 
     ~atomic_counter_sync() {
-- 
2.43.0


From bb6570ad175960dca58cc6729426780474cd961a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:34 +0000
Subject: [PATCH 25/28] fix: closest_point_circle_line used the square of the
 radius as the diameter

Whether a line counts as parallel to the circle depends on how much it rises
over the diameter.
---
 src/edyn/math/geom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index ce7f3c0..19c4ca5 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -239,7 +239,7 @@ scalar closest_point_circle_line(
 
     // Length of the segment projected onto the circle plane.
     auto qv_proj_len = length(vector2{qv[tan_idx0], qv[tan_idx1]});
-    auto diameter = square(radius);
+    auto diameter = 2 * radius;
 
     // Line points projected onto circle plane.
     auto q0_proj = vector2{q0[tan_idx0], q0[tan_idx1]};
-- 
2.43.0


From 905576b0f36e4a93f1fb773e868dc00cee1a0004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:34 +0000
Subject: [PATCH 26/28] fix: closest_point_circle_circle with different axes
 left circle B when parallel

The direction of the closest point of B is in A's space, thus it must be laid
out with the axes of A.
---
 src/edyn/math/geom.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index 19c4ca5..cd7aeef 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -562,9 +562,8 @@ scalar closest_point_circle_circle(
                 dirA[tan_idxA0] = dir.x;
                 dirA[tan_idxA1] = dir.y;
 
-                dirB[norm_idxB] = 0;
-                dirB[tan_idxB0] = dir.x;
-                dirB[tan_idxB1] = dir.y;
+                // Direction on circle B in A's space.
+                dirB = dirA;
 
                 // Reverse it based on which region the circles are located so they
                 // point in the right direction, towards closest point.
-- 
2.43.0


From 5067212cfdf1aa71c74435717d69aed2de3cfad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:34 +0000
Subject: [PATCH 27/28] fix: closest_point_circle_circle ignored the height of
 coaxial circles

The closest point of B was placed in the plane of A.
---
 src/edyn/math/geom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index cd7aeef..5dc756c 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -578,7 +578,7 @@ scalar closest_point_circle_circle(
                 // crossing the center of the circles, which are both at the
                 // origin in this case.
                 rA0 = to_world_space(tanA * radiusA, posA, ornA);
-                rB0 = to_world_space(tanA * radiusB, posA, ornA);
+                rB0 = to_world_space(posB_in_A + tanA * radiusB, posA, ornA);
                 return distance_sqr(rA0, rB0);
             }
         }
-- 
2.43.0


From c78e961aaa96a72f73da677d0819e3d7069f2c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:34 +0000
Subject: [PATCH 28/28] fix: closest_point_circle_circle built the basis of B
 from the axis of A

With different axes, the result was not on circle B.
---
 src/edyn/math/geom.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index 5dc756c..34a2ce3 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -600,7 +600,7 @@ scalar closest_point_circle_circle(
     auto ornB_in_A = conjugate(ornA) * ornB;
     vector3 u, v;
 
-    switch (axisA) {
+    switch (axisB) {
     case coordinate_axis::x:
         u = quaternion_z(ornB_in_A);
         v = quaternion_y(ornB_in_A);
@@ -620,7 +620,7 @@ scalar closest_point_circle_circle(
     vector3 sup_neg = support_point_circle(posB_in_A, ornB_in_A, radiusB, axisB, -coordinate_axis_vector(axisA));
     vector3 sup = std::abs(sup_pos[norm_idxA]) < std::abs(sup_neg[norm_idxA]) ? sup_pos : sup_neg;
     auto sup_in_B = to_object_space(sup, posB_in_A, ornB_in_A);
-    auto initial_phi = std::atan2(sup_in_B[tan_idxA0], sup_in_B[tan_idxA1]);
+    auto initial_phi = std::atan2(sup_in_B[tan_idxB0], sup_in_B[tan_idxB1]);
 
     // Newton-Raphson iterations.
     auto phi = initial_phi;
-- 
2.43.0

