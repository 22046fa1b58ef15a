// C04: intersection queries report exactly the common points.
#include "vc.hpp"
#include <edyn/math/geom.hpp>
#include <edyn/math/triangle.hpp>
#include <edyn/math/coordinate_axis.hpp>

namespace {
const scalar EPS = EDYN_EPSILON;
vector2 add2(const vector2 &a, const vector2 &b) { vector2 r; r.x = a.x + b.x; r.y = a.y + b.y; return r; }
vector2 mul2(const vector2 &a, scalar k) { vector2 r; r.x = a.x * k; r.y = a.y * k; return r; }
scalar perp2(const vector2 &a, const vector2 &b) { return a.x * b.y - a.y * b.x; }
vector2 at2(const vector2 &p, const vector2 &d, scalar s) { return add2(p, mul2(d, s)); }
bool unit_range(scalar t) { return vc_and(vc_le(0, t), vc_le(t, 1)); }
}

VC_CONTRACT(line_circle) {
    auto p = any_vec2("p"), d = any_vec2("d");
    auto radius = any_gt("radius", 0);
    auto u = any("u");
    auto dd = vc_name(sdot2(d, d), "dd"), pd = vc_name(sdot2(d, p), "pd"), pp = vc_name(sdot2(p, p), "pp");
    auto delta = pd * pd - dd * (pp - radius * radius);
    vc_assume(vc_and(dd > 0, vc_or(delta <= 0, delta > EPS)));
    scalar s0 = 0, s1 = 0;
    auto n = intersect_line_circle(p, add2(p, d), radius, s0, s1);
    vc_cover("reach");
    auto f = [&](scalar s) { return pp + 2 * s * pd + s * s * dd - radius * radius; };
    vc_check(n <= 2, "at most two points");
    if (n == 0) { vc_check(vc_lt(0, dd * f(u)), "no intersection reported: every point of the line is outside"); }
    if (n == 1) {
        vc_check(vc_eq(f(s0), 0), "the tangent point is on the circle");
        vc_check(vc_le(0, dd * f(u)), "one intersection reported: no point of the line is inside");
    }
    if (n == 2) {
        vc_cover("two");
        vc_check(vc_and(vc_eq(f(s0), 0), vc_eq(f(s1), 0)), "both points on the circle");
        vc_check(vc_lt(s0, s1), "ordered along the line");
    }
}

VC_CONTRACT(circle_circle) {
    auto pa = any_vec2("pa"), u = any_vec2("u");
    auto ra = any_gt("ra", 0), rb = any_gt("rb", 0);
    auto pb = add2(pa, u);
    auto uu = vc_name(sdot2(u, u), "uu");
    vc_assume(uu > EPS);
    vector2 r0{0, 0}, r1{0, 0};
    auto n = intersect_circle_circle(pa, ra, pb, rb, r0, r1);
    vc_cover("reach");
    auto on = [&](const vector2 &r) {
        vector2 a = add2(r, mul2(pa, -1)), b = add2(r, mul2(pb, -1));
        return vc_and(vc_eq(sdot2(a, a), ra * ra), vc_eq(sdot2(b, b), rb * rb));
    };
    vc_check(n <= 2, "at most two points");
    vc_check((n == 0) == !((ra - rb) * (ra - rb) <= uu && uu <= (ra + rb) * (ra + rb)), "intersects exactly when the distance is between the difference and the sum of the radii");
    if (n != 0) {
        vc_cover("some");
        vc_check(on(r0), "first point on both circles");
        vc_check(on(r1), "second point on both circles");
    }
    // a point x of circle A, u-coordinate h (times |u|): on circle B iff 2h = uu + ra^2 - rb^2
    if (n == 0) {
        auto x = any_vec2("x");
        vc_assume(sdot2(x, x) == ra * ra);
        auto h = vc_name(sdot2(x, u), "h");
        vc_lemma(vc_eq(h * h + perp2(u, x) * perp2(u, x), uu * ra * ra), "Lagrange");
        vc_lemma(vc_le(h * h, uu * ra * ra), "Cauchy-Schwarz");
        vc_check(vc_not(uu + ra * ra - 2 * h == rb * rb), "no intersection reported: no point of one circle is on the other");
    }
}
VC_CONTRACT(circle_circle_concentric) {
    auto pa = any_vec2("pa");
    auto ra = any_gt("ra", 0), rb = any_gt("rb", 0);
    vc_assume(vc_or(ra == rb, vc_or(ra - rb >= EPS, rb - ra >= EPS)));
    vector2 r0{0, 0}, r1{0, 0};
    auto n = intersect_circle_circle(pa, ra, pa, rb, r0, r1);
    vc_cover("reach");
    vc_check((n != 0) == (ra == rb), "concentric circles intersect exactly when they are the same");
    if (n != 0) {
        vc_check(n == 2, "two points");
        vector2 a = add2(r0, mul2(pa, -1)), b = add2(r1, mul2(pa, -1));
        vc_check(vc_and(vc_eq(sdot2(a, a), ra * ra), vc_eq(sdot2(b, b), ra * ra)), "both points on the circle");
        vc_check(vc_not(vc_and(r0.x == r1.x, r0.y == r1.y)), "distinct points");
    }
}

VC_CONTRACT(segments) {
    auto p0 = any_vec2("p0"), dp = any_vec2("dp"), e = any_vec2("e"), dq = any_vec2("dq");
    auto q0 = add2(p0, e);
    auto den = vc_name(perp2(dp, dq), "den");
    vc_assume(vc_or(den > EPS, den < -EPS));
    auto a = any("a"), b = any("b");
    scalar s0 = 0, s1 = 0, t0 = 0, t1 = 0;
    auto n = intersect_segments(p0, add2(p0, dp), q0, add2(q0, dq), s0, t0, s1, t1);
    vc_cover("reach");
    vc_check(n <= 1, "at most one point");
    if (n == 1) {
        vc_cover("one");
        vc_check(vc_and(unit_range(s0), unit_range(t0)), "parameters within the segments");
        vc_check(eq2(at2(p0, dp, s0), at2(q0, dq, t0)), "both parameters name the same point");
    } else {
        // any common point p0 + a dp = q0 + b dq solves the 2x2 system
        vc_assume(all(a * dp.x == e.x + b * dq.x, a * dp.y == e.y + b * dq.y));
        vc_lemma(vc_and(vc_eq(a * den, perp2(e, dq)), vc_eq(b * den, perp2(e, dp))), "Cramer");
        vc_check(vc_not(all(0 <= a, a <= 1, 0 <= b, b <= 1)), "no intersection reported: the segments have no common point");
    }
}
VC_CONTRACT(segments_parallel) {
    auto p0 = any_vec2("p0"), dp = any_vec2("dp"), e = any_vec2("e");
    auto k = any("k");
    vc_assume(all(sdot2(dp, dp) > EPS, k * k * sdot2(dp, dp) > EPS));
    auto off = perp2(e, dp);
    vc_assume(vc_or(off >= EPS, off <= -EPS));
    auto q0 = add2(p0, e);
    scalar s0 = 0, s1 = 0, t0 = 0, t1 = 0;
    auto n = intersect_segments(p0, add2(p0, dp), q0, add2(q0, mul2(dp, k)), s0, t0, s1, t1);
    vc_cover("reach");
    vc_check(n == 0, "parallel segments on distinct lines have no common point");
}
VC_CONTRACT(segments_collinear) {
    auto p0 = any_vec2("p0"), dp = any_vec2("dp");
    auto a = any("a"), k = any("k");       // q0 at parameter a, q1 at parameter a + k
    auto dd = vc_name(sdot2(dp, dp), "dd");
    vc_assume(all(dd > EPS, k * k * dd > EPS));
    auto q0 = at2(p0, dp, a), q1 = at2(q0, dp, k);
    scalar s0 = 0, s1 = 0, t0 = 0, t1 = 0;
    auto n = intersect_segments(p0, add2(p0, dp), q0, q1, s0, t0, s1, t1);
    vc_cover("reach");
    scalar lo = a, hi = a + k;
    if (k < 0) { lo = a + k; hi = a; }
    vc_check(vc_implies(vc_or(hi < 0, lo > 1), n == 0), "disjoint segments have no common point");
    vc_check(vc_implies(vc_and(0 <= hi, lo <= 1), n != 0), "overlapping segments have common points");
    auto l = vc_sel(lo < 0, scalar(0), lo), h = vc_sel(hi > 1, scalar(1), hi);
    if (n == 2) {
        vc_cover("two");
        vc_check(vc_or(vc_and(vc_eq(s0, l), vc_eq(s1, h)), vc_and(vc_eq(s0, h), vc_eq(s1, l))), "the points are the ends of the overlap");
        auto b0 = a + k * t0, b1 = a + k * t1;
        vc_check(vc_or(vc_and(vc_eq(b0, l), vc_eq(b1, h)), vc_and(vc_eq(b0, h), vc_eq(b1, l))), "the parameters of the second segment name the same points");
    }
    if (n == 1) { vc_check(vc_or(vc_eq(s0, l), vc_eq(s0, h)), "the point is an end of the overlap"); vc_check(h - l < EPS, "a single point only when the overlap is a point within tolerance"); }
}

VC_CONTRACT(ray_sphere) {
    auto pos = any_vec3("pos"), m = any_vec3("m"), d = any_vec3("d");
    auto radius = any_gt("radius", 0);
    auto u = any_ge("u", 0);
    auto p0 = sadd(pos, m);
    auto dd = vc_name(slen2(d), "dd"), md = vc_name(sdot(m, d), "md"), mm = vc_name(slen2(m), "mm");
    vc_assume(dd > 0);
    scalar t = -1;
    auto ok = intersect_ray_sphere(p0, sadd(p0, d), pos, radius, t);
    vc_cover("reach");
    auto f = [&](scalar s) { return mm + 2 * s * md + s * s * dd - radius * radius; };
    if (ok) {
        vc_cover("hit");
        vc_check(vc_le(0, t), "not behind the origin");
        vc_check(vc_implies(t > 0, vc_eq(f(t), 0)), "a point ahead of the origin is on the sphere");
        vc_check(vc_implies(t == 0, vc_le(f(t), 0)), "zero only when the origin is in the sphere");
        vc_check(vc_implies(mm <= radius * radius, vc_eq(t, 0)), "zero when the origin is in the sphere");
        vc_check(vc_implies(vc_and(u < t, t > 0), vc_lt(0, dd * f(u))), "no earlier point of the ray is in the sphere");
    } else {
        vc_check(vc_lt(0, dd * f(u)), "miss reported: no point of the ray is in the sphere");
    }
}

VC_CONTRACT(segment_aabb_complete) {
    // a common point exists: c + x with |x| <= h, at parameter u in [-1,1] of the segment with midpoint m and half vector w
    auto c = any_vec3("c"), w = any_vec3("w"), x = any_vec3("x"), h = any_vec3("h");
    auto u = any_in("u", -1, 1);
    vc_assume(all(0 <= h.x, 0 <= h.y, 0 <= h.z, x.x <= h.x, -h.x <= x.x, x.y <= h.y, -h.y <= x.y, x.z <= h.z, -h.z <= x.z));
    auto ab = [](scalar v) { return v < 0 ? -v : v; };
    vector3 a{ab(w.x), ab(w.y), ab(w.z)};
    auto bound = [](scalar x, scalar h, scalar w, scalar a) { vc_lemma(vc_and(vc_le(x * w, h * a), vc_le(-h * a, x * w)), "product bound"); };
    bound(x.y, h.y, w.z, a.z); bound(x.z, h.z, w.y, a.y);
    bound(x.z, h.z, w.x, a.x); bound(x.x, h.x, w.z, a.z);
    bound(x.x, h.x, w.y, a.y); bound(x.y, h.y, w.x, a.x);
    vc_lemma(all(vc_le(u * w.x, a.x), vc_le(-a.x, u * w.x), vc_le(u * w.y, a.y), vc_le(-a.y, u * w.y), vc_le(u * w.z, a.z), vc_le(-a.z, u * w.z)), "reach along the segment");
    auto mid = sadd(c, ssub(x, smul(w, u)));
    auto hit = intersect_segment_aabb(ssub(mid, w), sadd(mid, w), ssub(c, h), sadd(c, h));
    vc_cover("reach");
    vc_check(hit, "a segment with a point in the box intersects it");
}
VC_CONTRACT(segment_aabb_sound) {
    auto c = any_vec3("c"), w = any_vec3("w"), m = any_vec3("m"), h = any_vec3("h");
    vc_assume(all(0 <= h.x, 0 <= h.y, 0 <= h.z));
    auto mid = sadd(c, m);
    auto hit = intersect_segment_aabb(ssub(mid, w), sadd(mid, w), ssub(c, h), sadd(c, h));
    vc_cover("reach");
    if (hit) {
        vc_cover("hit");
        auto ab = [](scalar v) { return vc_sel(v < 0, -v, v); };
        vc_check(vc_le(ab(m.x), h.x + ab(w.x)), "no separating plane facing x");
        vc_check(vc_le(ab(m.y), h.y + ab(w.y)), "no separating plane facing y");
        vc_check(vc_le(ab(m.z), h.z + ab(w.z)), "no separating plane facing z");
        vc_check(vc_le(ab(m.y * w.z - m.z * w.y), h.y * (ab(w.z) + EPS) + h.z * (ab(w.y) + EPS)), "no separating plane along x and the segment, within tolerance");
        vc_check(vc_le(ab(m.z * w.x - m.x * w.z), h.z * (ab(w.x) + EPS) + h.x * (ab(w.z) + EPS)), "no separating plane along y and the segment, within tolerance");
        vc_check(vc_le(ab(m.x * w.y - m.y * w.x), h.x * (ab(w.y) + EPS) + h.y * (ab(w.x) + EPS)), "no separating plane along z and the segment, within tolerance");
    }
}

VC_CONTRACT(segment_triangle) {
    auto p0 = any_vec3("p0"), d = any_vec3("d"), n = any_vec3("n");
    auto a = any_vec3("a"), eb = any_vec3("eb"), ec = any_vec3("ec");   // vertex positions relative to p0 and to a
    auto v0 = sadd(p0, a), v1 = sadd(v0, eb), v2 = sadd(v0, ec);
    auto dn = vc_name(sdot(d, n), "dn");
    auto an = vc_name(sdot(a, n), "an");
    vc_assume(vc_or(dn > EPS, dn < -EPS));
    std::array<vector3, 3> tri{v0, v1, v2};
    scalar t = -7;
    auto hit = intersect_segment_triangle(p0, sadd(p0, d), tri, n, t);
    vc_cover("reach");
    // reference: plane parameter and the three edge half-spaces
    auto s = an / dn;
    auto x = ssub(smul(d, s), a);        // intersection with the plane, relative to the first vertex
    auto h0 = sdot(scross(n, eb), x);
    auto h1 = sdot(scross(n, ssub(ec, eb)), ssub(x, eb));
    auto h2 = sdot(scross(n, smul(ec, -1)), ssub(x, ec));
    bool in_seg = vc_and(0 <= s, s <= 1);
    bool in_tri = all(0 <= h0, 0 <= h1, 0 <= h2);
    vc_check(hit == (in_seg && in_tri), "hits exactly when the segment crosses the plane inside the triangle");
    if (hit) {
        vc_cover("hit");
        vc_check(vc_and(0 <= t, t <= 1), "parameter within the segment");
        vc_check(vc_eq(dn * t, an), "the point at the parameter is on the plane of the triangle");
    }
}
VC_CONTRACT(segment_triangle_parallel) {
    auto p0 = any_vec3("p0"), d = any_vec3("d"), n = any_unit3("n");
    auto a = any_vec3("a"), eb = any_vec3("eb"), ec = any_vec3("ec");
    auto v0 = sadd(p0, a), v1 = sadd(v0, eb), v2 = sadd(v0, ec);
    auto dn = vc_name(sdot(d, n), "dn");
    auto an = vc_name(sdot(a, n), "an");
    vc_assume(vc_and(dn == 0, vc_or(an > EPS, an < -EPS)));
    std::array<vector3, 3> tri{v0, v1, v2};
    scalar t = -7;
    auto hit = intersect_segment_triangle(p0, sadd(p0, d), tri, n, t);
    vc_cover("reach");
    vc_check(!hit, "a segment parallel to the plane of the triangle and off it misses");
}

namespace {
vector3 g_axis;
vector3 spec_axis(coordinate_axis, const quaternion &) { return g_axis; }
void use_axis_contract() {
    g_axis = any_unit3("axis");
    vector3 (*real)(coordinate_axis, const quaternion &) = &coordinate_axis_vector;
    vc_replace((void *)real, (void *)&spec_axis);
}

struct { vector3 m, d; scalar hl, gg, da, dd, ma, mm, md; } G;
// contract of closest_point_line_line (proved in C03, line_line): the connecting vector is perpendicular to both lines
bool spec_line_line(const vector3 &p1, const vector3 &q1, const vector3 &p2, const vector3 &q2, scalar &s, scalar &t) {
    auto d1 = ssub(q1, p1), d2 = ssub(q2, p2), r = ssub(p1, p2);
    auto ok = slen2(d1) * slen2(d2) - sdot(d1, d2) * sdot(d1, d2) > EPS;
    if (!ok) return false;
    auto s1 = any("ll_s"), t1 = any("ll_t");
    vc_lemma(vc_lt(0, G.dd - G.da * G.da), "not parallel");
    vc_assume(slen2(d1) * s1 - sdot(d1, d2) * t1 + sdot(r, d1) == 0);
    vc_assume(sdot(d1, d2) * s1 - slen2(d2) * t1 + sdot(r, d2) == 0);
    // these equations determine the parameters
    vc_lemma(vc_eq(G.hl * (2 * s1 - 1), -(G.ma + t1 * G.da)), "axial position of the closest point");
    vc_lemma(vc_eq(G.dd * t1 + G.hl * (2 * s1 - 1) * G.da + G.md, 0), "closest point perpendicular to the ray");
    t = (G.ma * G.da - G.md) / (G.dd - G.da * G.da);
    vc_lemma(vc_eq(t1, t), "parameter of the ray");
    auto h = -(G.ma + t * G.da);
    s = (h / G.hl + 1) / 2;
    vc_lemma(vc_eq(s1, s), "parameter of the axis");
    auto n = ssub(sadd(p2, smul(d2, t)), sadd(p1, smul(d1, s)));
    auto nn = vc_name(slen2(n), "nn");
    vc_lemma(vc_eq(nn, G.mm + t * t * G.dd + h * h * G.gg + 2 * t * G.md + 2 * h * G.ma + 2 * t * h * G.da), "squared distance");
    return true;
}
}
VC_CONTRACT(ray_cylinder) {
    auto m = any_vec3("m"), d = any_vec3("d"), pos = any_vec3("pos");
    auto radius = any_gt("radius", 0), hl = any_gt("hl", 0);
    quaternion orn{0, 0, 0, 1};
    if (vc_symbolic()) { use_axis_contract(); vc_replace((void *)&closest_point_line_line, (void *)&spec_line_line); }
    else { orn = any_quat("orn"); g_axis = coordinate_axis_vector(coordinate_axis::x, orn); }
    auto p0 = sadd(pos, m), p1 = sadd(p0, d);
    auto gg = vc_rewrite(slen2(g_axis), 1, "unit axis");
    auto da = vc_name(sdot(d, g_axis), "da"), dd = vc_name(slen2(d), "dd"), ma = vc_name(sdot(m, g_axis), "ma"), mm = vc_name(slen2(m), "mm"), md = vc_name(sdot(m, d), "md");
    G = {m, d, hl, gg, da, dd, ma, mm, md};
    auto q = dd - da * da;   // squared length of the direction across the axis
    scalar fin = 0, fout = 0;
    auto res = intersect_ray_cylinder(p0, p1, pos, orn, radius, hl, coordinate_axis::x, fin, fout);
    vc_cover("reach");
    using kind = decltype(res.kind);
    auto f = [&](scalar s) { return (mm + 2 * s * md + s * s * dd) - (ma + s * da) * (ma + s * da) - radius * radius; };
    vc_check((res.kind == kind::parallel_directions) == !(4 * hl * hl * q > EPS), "reports parallel exactly when the ray is parallel to the axis within tolerance");
    if (res.kind == kind::distance_greater_than_radius) {
        vc_cover("miss");
        auto u = any("u");
        vc_check(vc_lt(0, q * f(u)), "miss reported: no point of the line is in the infinite cylinder");
    }
    if (res.kind == kind::intersects) {
        vc_cover("hit");
        vc_check(vc_and(vc_eq(f(fin), 0), vc_eq(f(fout), 0)), "both fractions on the surface of the infinite cylinder");
        vc_check(vc_le(fin, fout), "enters before it leaves");
        vc_check(vc_eq(sdot(res.normal, res.normal), res.dist_sqr), "the normal has the reported length");
        vc_check(vc_and(vc_eq(sdot(res.normal, d), 0), vc_eq(sdot(res.normal, g_axis), 0)), "the normal is perpendicular to the ray and the axis");
    }
}

namespace {
void line_aabb(const vector2 &p0, const vector2 &d, const vector2 &lo, const vector2 &ext) {
    auto hi = add2(lo, ext);
    scalar s0 = 0, s1 = 0;
    auto n = intersect_line_aabb(p0, add2(p0, d), lo, hi, s0, s1);
    vc_cover("reach");
    auto inside = [&](scalar u) { auto x = p0.x + d.x * u, y = p0.y + d.y * u; return all(lo.x <= x, x <= hi.x, lo.y <= y, y <= hi.y); };
    auto in_tol = [&](scalar u) { auto x = p0.x + d.x * u, y = p0.y + d.y * u; return all(vc_le(lo.x, x), vc_le(x, hi.x), vc_le(lo.y, y), vc_le(y, hi.y)); };
    auto u = any("u");
    vc_check(n <= 2, "at most two points");
    if (n == 0) { vc_check(vc_not(inside(u)), "no intersection reported: no point of the line is in the box"); }
    if (n >= 1) { vc_cover("some"); vc_check(in_tol(s0), "first point in the box"); }
    if (n == 2) {
        vc_cover("two");
        vc_check(in_tol(s1), "second point in the box");
        auto a = vc_sel(s0 < s1, s0, s1), b = vc_sel(s0 < s1, s1, s0);
        vc_check(vc_implies(inside(u), vc_and(a <= u, u <= b)), "every point of the line in the box is between the two reported points");
    }
    if (n == 1) { vc_check(vc_implies(inside(u), vc_and(u - s0 <= 2 * EPS, s0 - u <= 2 * EPS)), "one point reported: no other point of the line is in the box, within tolerance"); }
}
}
VC_CONTRACT(line_aabb_oblique) {
    auto p0 = any_vec2("p0"), d = any_vec2("d"), lo = any_vec2("lo"), ext = any_vec2("ext");
    vc_assume(all(ext.x > 0, ext.y > 0, vc_or(d.x >= EPS, d.x <= -EPS), vc_or(d.y >= EPS, d.y <= -EPS)));
    line_aabb(p0, d, lo, ext);
}
VC_CONTRACT(line_aabb_vertical) {
    auto p0 = any_vec2("p0"), d = any_vec2("d"), lo = any_vec2("lo"), ext = any_vec2("ext");
    vc_assume(all(ext.x > 0, ext.y > 0, vc_or(d.y >= EPS, d.y <= -EPS)));
    d.x = 0;
    line_aabb(p0, d, lo, ext);
}
VC_CONTRACT(line_aabb_horizontal) {
    auto p0 = any_vec2("p0"), d = any_vec2("d"), lo = any_vec2("lo"), ext = any_vec2("ext");
    vc_assume(all(ext.x > 0, ext.y > 0, vc_or(d.x >= EPS, d.x <= -EPS)));
    d.y = 0;
    line_aabb(p0, d, lo, ext);
}

VC_CONTRACT(minkowski_face) {
    auto A = any_vec3("A"), B = any_vec3("B"), C = any_vec3("C"), D = any_vec3("D");   // arc AB and arc CD of the second shape, negated
    auto r = edges_generate_minkowski_face(A, B, smul(C, -1), smul(D, -1), scross(B, A), scross(D, C));
    vc_cover("reach");
    auto det = [](const vector3 &x, const vector3 &y, const vector3 &z) { return sdot(x, scross(y, z)); };
    auto cba = vc_name(det(C, B, A), "cba"), dba = vc_name(det(D, B, A), "dba"), adc = vc_name(det(A, D, C), "adc"), bdc = vc_name(det(B, D, C), "bdc");
    vc_check(r == (cba * dba < 0 && adc * bdc < 0 && cba * bdc > 0), "arcs cross exactly when each separates the ends of the other on the same hemisphere");
}

namespace {
template<int N> void prism() {
    vector3 vert[N]; const char *names[] = {"v0", "v1", "v2", "v3", "v4"};
    std::array<vector3, N> arr;
    std::vector<vector3> vec; std::vector<size_t> idx;
    vec.push_back(vector3{77, 77, 77});
    for (int i = 0; i < N; ++i) { arr[i] = any_vec3(names[i]); vec.push_back(arr[i]); idx.push_back(i + 1); }
    auto n = any_vec3("n"), p = any_vec3("p");
    bool expect = true;
    for (int i = 0; i < N; ++i) {
        auto d = ssub(arr[(i + 1) % N], arr[i]);
        expect = vc_and(expect, sdot(ssub(p, arr[i]), scross(d, n)) <= EPS);
    }
    vc_cover("reach");
    vc_check(point_in_polygonal_prism(arr, n, p) == expect, "array: inside exactly when behind every side");
    vc_check(point_in_polygonal_prism(vec, idx, n, p) == expect, "indexed: inside exactly when behind every side");
}
}
VC_CONTRACT(prism3) { prism<3>(); }
VC_CONTRACT(prism4) { prism<4>(); }
