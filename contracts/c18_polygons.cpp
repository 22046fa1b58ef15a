// C18: winding, containment and closest points of triangles and convex polygons.
#include "vc.hpp"
#include <edyn/math/triangle.hpp>
#include <edyn/util/shape_util.hpp>
#include <algorithm>

namespace {
scalar cross2(const vector2 &a, const vector2 &b) { return a.x * b.y - a.y * b.x; }
vector2 sub2(const vector2 &a, const vector2 &b) { vector2 r; r.x = a.x - b.x; r.y = a.y - b.y; return r; }
vector2 add2(const vector2 &a, const vector2 &b) { vector2 r; r.x = a.x + b.x; r.y = a.y + b.y; return r; }
scalar mn(scalar a, scalar b) { return a < b ? a : b; }
scalar mx(scalar a, scalar b) { return a > b ? a : b; }
scalar dist2(const vector2 &a, const vector2 &b) { auto d = sub2(a, b); return sdot2(d, d); }
}

VC_CONTRACT(triangle_edges) {
    triangle_vertices v{any_vec3("v0"), any_vec3("v1"), any_vec3("v2")};
    auto e = get_triangle_edges(v);
    vc_cover("reach");
    for (int i = 0; i < 3; ++i) vc_check(eq3(sadd(v[i], e[i]), v[(i + 1) % 3]), "edge i leads from vertex i to the next vertex");
    vc_check(get_triangle_feature_num_vertices(triangle_feature::vertex) == 1 && get_triangle_feature_num_vertices(triangle_feature::edge) == 2 &&
             get_triangle_feature_num_vertices(triangle_feature::face) == 3, "number of vertices of a feature");
    vc_check(get_triangle_feature_num_edges(triangle_feature::vertex) == 0 && get_triangle_feature_num_edges(triangle_feature::edge) == 1 &&
             get_triangle_feature_num_edges(triangle_feature::face) == 3, "number of edges of a feature");
}
VC_CONTRACT(triangle_aabb) {
    triangle_vertices v{any_vec3("v0"), any_vec3("v1"), any_vec3("v2")};
    auto b = get_triangle_aabb(v);
    vc_cover("reach");
    auto lo = [&](scalar m, scalar a, scalar c, scalar d) { return all(vc_le(m, a), vc_le(m, c), vc_le(m, d), vc_or(vc_eq(m, a), vc_or(vc_eq(m, c), vc_eq(m, d)))); };
    vc_check(all(lo(b.min.x, v[0].x, v[1].x, v[2].x), lo(b.min.y, v[0].y, v[1].y, v[2].y), lo(b.min.z, v[0].z, v[1].z, v[2].z)), "the minimum is the smallest coordinate of the vertices");
    vc_check(all(lo(-b.max.x, -v[0].x, -v[1].x, -v[2].x), lo(-b.max.y, -v[0].y, -v[1].y, -v[2].y), lo(-b.max.z, -v[0].z, -v[1].z, -v[2].z)), "the maximum is the largest coordinate of the vertices");
}
// a point p = b0 v0 + b1 v1 + b2 v2 + t n with barycentric coordinates b is in the prism exactly when no b is negative
VC_CONTRACT(point_in_prism) {
    auto v0 = any_vec3("v0"), e0 = any_vec3("e0"), e2 = any_vec3("e2"), n = any_vec3("n");
    triangle_vertices v{v0, sadd(v0, e0), sadd(v0, e2)};
    auto b1 = any("b1"), b2 = any("b2"), t = any("t");
    auto b0 = 1 - b1 - b2;
    auto p = sadd(v0, sadd(smul(e0, b1), sadd(smul(e2, b2), smul(n, t))));
    auto a = vc_name(sdot(scross(e0, e2), n), "area");
    auto mag = a < 0 ? -a : a;
    vc_assume(mag > scalar(0.01));
    auto r = point_in_triangle(v, n, p);
    auto eps = EDYN_EPSILON;
    if (all(b0 >= 0, b1 >= 0, b2 >= 0)) {
        vc_cover("inside");
        vc_check(r, "a point above or below the triangle is reported inside");
    } else if (vc_or(b0 * mag < -eps, vc_or(b1 * mag < -eps, b2 * mag < -eps))) {
        vc_cover("outside");
        vc_check(!r, "a point beside the triangle is reported outside");
    }
}
VC_CONTRACT(winding) {
    auto v0 = any_vec2("v0"), v1 = any_vec2("v1"), v2 = any_vec2("v2");
    auto area = cross2(sub2(v1, v0), sub2(v2, v0));
    vc_cover("reach");
    auto ccw = is_triangle_ccw(v0, v1, v2);
    vc_check(vc_and(vc_implies(area > 0, ccw), vc_implies(area < 0, !ccw)), "counter-clockwise exactly when the signed area is positive");
    auto a = v0, b = v1, c = v2;
    auto swapped = sort_triangle_ccw(a, b, c);
    vc_check(swapped == !ccw, "reports whether the vertices were reordered");
    vc_check(vc_le(0, cross2(sub2(b, a), sub2(c, a))), "sorted vertices are counter-clockwise");
    vc_check(vc_or(all(eq2(a, v0), eq2(b, v1), eq2(c, v2)), all(eq2(a, v2), eq2(b, v1), eq2(c, v0))), "sorting permutes the vertices");
}

namespace {
std::vector<vector3> any_cloud(size_t n) {
    static const char *names[] = {"p0", "p1", "p2", "p3", "p4"};
    std::vector<vector3> pts;
    for (size_t i = 0; i < n; ++i) pts.push_back(any_vec3(names[i]));
    return pts;
}
// vertices of a convex polygon in counter-clockwise order: every vertex is strictly left of every edge it is not on
std::vector<vector2> any_convex(size_t n) {
    static const char *names[] = {"v0", "v1", "v2", "v3", "v4"};
    std::vector<vector2> v;
    for (size_t i = 0; i < n; ++i) v.push_back(any_vec2(names[i]));
    for (size_t i = 0; i < n; ++i) {
        auto j = (i + 1) % n;
        for (size_t k = 0; k < n; ++k) if (k != i && k != j) vc_assume(cross2(sub2(v[j], v[i]), sub2(v[k], v[i])) > 0);
    }
    return v;
}
void cloud(size_t n) {
    auto pts = any_cloud(n);
    auto d = any_vec3("d");
    for (auto &q : pts) vc_assume(sdot(q, d) > -scalar(1e30));   // projections within the range of scalar
    auto s = point_cloud_support_point(pts, d);
    auto m = point_cloud_support_projection(pts, d);
    vc_cover("reach");
    bool member = false;
    for (size_t i = 0; i < n; ++i) {
        vc_check(vc_le(sdot(pts[i], d), sdot(s, d)), "no point is further along the direction");
        member = vc_or(member, eq3(s, pts[i]));
    }
    vc_check(member, "the support point is one of the points");
    vc_check(vc_eq(m, sdot(s, d)), "the support projection is that of the support point");
}
void inside(size_t n) {
    auto v = any_convex(n);
    auto p = any_vec2("p");
    auto r = point_inside_convex_polygon(v, p);
    vc_cover("reach");
    bool in = true, out = false;
    for (size_t i = 0; i < n; ++i) {
        auto c = cross2(sub2(v[(i + 1) % n], v[i]), sub2(p, v[i]));
        in = vc_and(in, c > 0); out = vc_or(out, c < 0);
    }
    vc_check(vc_implies(in, r), "a point on the inner side of every edge is inside");
    vc_check(vc_implies(out, !r), "a point beyond an edge is outside");
}
}
VC_CONTRACT(cloud_1) { cloud(1); }
VC_CONTRACT(cloud_3) { cloud(3); }
VC_CONTRACT(cloud_4) { cloud(4); }
VC_CONTRACT(inside_3) { inside(3); }
VC_CONTRACT(inside_4) { inside(4); }

namespace {
void closest(size_t n) {
    static const char *en[] = {"e0", "e1", "e2"}, *an[] = {"a0", "a1", "a2", "a3"}, *ln[] = {"l0", "l1", "l2", "l3"}, *wn[] = {"w0", "w1", "w2", "w3"}, *dn[] = {"d0", "d1", "d2", "d3"};
    // a convex polygon v and a point p; the vertices are given by their differences
    std::vector<vector2> v; std::vector<size_t> idx;
    v.push_back(any_vec2("v0"));
    for (size_t i = 0; i + 1 < n; ++i) v.push_back(add2(v[i], any_vec2(en[i])));
    auto p = add2(v[0], any_vec2("p"));
    bool in = true, out = false;
    vector2 edge[4]; scalar front[4], best[4];
    for (size_t i = 0; i < n; ++i) {
        auto j = (i + 1) % n;
        idx.push_back(i);
        edge[i] = sub2(v[j], v[i]);
        for (size_t k = 0; k < n; ++k) if (k != i && k != j) vc_assume(cross2(edge[i], sub2(v[k], v[i])) > 0);
        auto l = vc_name(sdot2(edge[i], edge[i]), ln[i]);
        vc_assume(l > 0);
        auto w = vc_name(cross2(edge[i], sub2(p, v[i])), wn[i]);
        front[i] = -w;
        in = vc_and(in, w > 0); out = vc_or(out, w < 0);
        // the closest point of this edge
        auto a = vc_name(sdot2(sub2(p, v[i]), edge[i]), an[i]);
        auto t = std::clamp(a / l, scalar(0), scalar(1));
        vector2 y; y.x = v[i].x + edge[i].x * t; y.y = v[i].y + edge[i].y * t;
        best[i] = vc_name(dist2(p, y), dn[i]);
        vc_assume(best[i] < scalar(1e30));   // within the range of scalar
    }
    vector2 c{0, 0};
    auto r = closest_point_convex_polygon(v, idx, p, c);
    support_polygon sp;
    sp.plane_vertices = v; sp.hull = idx;
    vector2 c2{0, 0};
    vc_check(closest_point_polygon(sp, p, c2) == r, "same for a support polygon");
    if (r) vc_check(vc_and(c2.x == c.x, c2.y == c.y), "same point for a support polygon");
    vc_check(vc_implies(in, !r), "no closest point when the point is inside");
    vc_check(vc_implies(out, r), "a closest point whenever the point is outside");
    if (!r) return;
    vc_cover("outside");
    // c is on the boundary: on the segment of some edge
    bool on = false;
    for (size_t i = 0; i < n; ++i) {
        auto e = edge[i], d = sub2(c, v[i]);
        on = vc_or(on, all(vc_eq(cross2(e, d), 0), vc_le(0, sdot2(e, d)), vc_le(sdot2(e, d), sdot2(e, e))));
    }
    vc_check(on, "the closest point is on an edge of the polygon");
    // the closest point of a convex polygon is on an edge with the point in front of it
    for (size_t i = 0; i < n; ++i)
        vc_check(vc_implies(front[i] >= 0, vc_le(dist2(p, c), best[i])), "no edge in front of the point has a closer point");
}
}
VC_CONTRACT(closest_3) { closest(3); }
VC_CONTRACT(closest_4) { closest(4); }
// the closest point of one edge, as used above
VC_CONTRACT(closest_on_edge) {
    auto e = any_vec2("e"), d = any_vec2("d");
    auto l = vc_name(sdot2(e, e), "l"), a = vc_name(sdot2(d, e), "a");
    vc_assume(l > 0);
    auto t = std::clamp(a / l, scalar(0), scalar(1));
    auto s = any_in("s", 0, 1);
    vector2 y; y.x = e.x * t; y.y = e.y * t;
    vector2 z; z.x = e.x * s; z.y = e.y * s;
    vc_cover("reach");
    vc_check(vc_le(dist2(d, y), dist2(d, z)), "no other point of the edge is closer");
}

namespace {
void hull(size_t n) {
    static const char *names[] = {"p0", "p1", "p2", "p3", "p4"};
    std::vector<vector2> pts;
    for (size_t i = 0; i < n; ++i) { pts.push_back(any_vec2(names[i])); vc_assume(all(pts[i].x < 1000, pts[i].x > -1000, pts[i].y < 1000, pts[i].y > -1000)); }
    auto tol = any_in("tol", scalar(0.001), scalar(0.01));
    auto h = calculate_convex_hull(pts, tol);
    auto m = h.size();
    vc_check(m >= 1 && m <= n, "at least one and at most all points");
    for (size_t i = 0; i < m; ++i) {
        vc_check(h[i] < n, "the hull consists of indices of points");
        for (size_t j = 0; m > 2 && j < i; ++j) vc_check(h[i] != h[j], "no point is repeated");
    }
    vc_cover("reach");
    if (m < 3) return;
    scalar area = 0;
    for (size_t i = 1; i + 1 < m; ++i) area += cross2(sub2(pts[h[i]], pts[h[0]]), sub2(pts[h[i + 1]], pts[h[0]]));
    vc_check(vc_le(0, area), "the hull is counter-clockwise");
    for (size_t i = 0; i < m; ++i) {
        auto a = pts[h[i]], b = pts[h[(i + 1) % m]];
        auto e = sub2(b, a);
        for (size_t k = 0; k < n; ++k) vc_check(vc_le(-cross2(e, sub2(pts[k], a)), tol), "no point is beyond an edge of the hull by more than the tolerance");
    }
}
}
VC_CONTRACT(hull_3) { hull(3); }
VC_CONTRACT(bounded_hull_4) { hull(4); }
VC_CONTRACT(bounded_hull_5) { hull(5); }

namespace {
void polygon(size_t n, bool positive) {
    static const char *names[] = {"p0", "p1", "p2"};
    std::vector<vector3> pts;
    for (size_t i = 0; i < n; ++i) pts.push_back(any_vec3(names[i]));
    auto off = any_vec3("off");
    auto dir = any_unit3("dir");
    auto proj = any("proj"), tol = any_gt("tol", 0);
    vector3 w[3]; bool in[3]; size_t count = 0;
    for (size_t i = 0; i < n; ++i) {
        w[i] = sadd(pts[i], off);
        auto d = sdot(w[i], dir);
        in[i] = positive ? d < proj + tol : d > proj - tol;
        if (in[i]) ++count;
    }
    vc_assume(count > 0);
    auto s = point_cloud_support_polygon(pts.begin(), pts.end(), off, dir, proj, positive, tol);
    vc_cover("reach");
    vc_check(eq3(s.origin, smul(dir, proj)), "the contact plane is at the projection");
    vc_check(s.vertices.size() == count && s.plane_vertices.size() == count, "one entry for each vertex within the tolerance");
    vc_assume(s.vertices.size() == count && s.plane_vertices.size() == count);
    vc_check(s.hull.size() == count || count > 3, "a hull of up to three points consists of all of them");
    auto &m = s.basis;
    vector3 x{m.row[0].x, m.row[1].x, m.row[2].x}, y{m.row[0].y, m.row[1].y, m.row[2].y}, z{m.row[0].z, m.row[1].z, m.row[2].z};
    vc_check(eq3(y, dir), "the normal of the contact plane is the direction");
    size_t k = 0;
    for (size_t i = 0; i < n; ++i) {
        if (!in[i]) continue;
        vc_check(eq3(s.vertices[k], w[i]), "the vertices are those within the tolerance, offset");
        auto r = ssub(w[i], s.origin);
        vc_check(vc_and(vc_eq(s.plane_vertices[k].x, sdot(r, x)), vc_eq(s.plane_vertices[k].y, sdot(r, z))), "plane vertices are the coordinates in the contact plane");
        ++k;
    }
}
}
VC_CONTRACT(polygon_1) { polygon(1, true); }
VC_CONTRACT(polygon_2_towards) { polygon(2, true); }
VC_CONTRACT(polygon_2_away) { polygon(2, false); }
VC_CONTRACT(polygon_3_away) { polygon(3, false); }
