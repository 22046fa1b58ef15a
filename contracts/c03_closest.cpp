// C03: closest point queries return points that lie on the queried features and are optimal.
#include "vc.hpp"
#include <edyn/math/geom.hpp>
#include <edyn/math/triangle.hpp>

namespace {
const scalar EPS = EDYN_EPSILON;
bool unit_range(scalar t) { return vc_and(vc_le(0, t), vc_le(t, 1)); }
scalar any_unit_interval(const char *n) { return any_in(n, 0, 1); }
}

VC_CONTRACT(segment) {
    auto q0 = any_vec3("q0"), v = any_vec3("v"), p = any_vec3("p");
    auto q1 = sadd(q0, v);
    vc_assume(slen2(v) > EPS);
    auto u = any_unit_interval("u");
    scalar t; vector3 q;
    auto d2 = closest_point_segment(q0, q1, p, t, q);
    vc_cover("reach");
    vc_check(unit_range(t), "parameter in the segment");
    vc_check(eq3(q, sadd(q0, smul(v, t))), "point on the segment at the parameter");
    vc_check(vc_eq(d2, sdist2(p, q)), "returns the squared distance");
    // variational inequality, then optimality
    auto w = sadd(q0, smul(v, u));
    auto g = sdot(ssub(p, q), v);
    vc_lemma(vc_le(g * (u - t), 0), "no direction along the segment gets closer");
    vc_check(vc_le(d2, sdist2(p, w)), "no point of the segment is closer");
}

VC_CONTRACT(line) {
    auto q0 = any_vec3("q0"), v = any_vec3("v"), p = any_vec3("p");
    vc_assume(slen2(v) > EPS);
    auto u = any("u");
    scalar t; vector3 q;
    auto d2 = closest_point_line(q0, v, p, t, q);
    vc_cover("reach");
    vc_check(eq3(q, sadd(q0, smul(v, t))), "point on the line at the parameter");
    vc_check(vc_eq(d2, sdist2(p, q)), "returns the squared distance");
    vc_lemma(vc_eq(sdot(ssub(p, q), v), 0), "perpendicular to the line");
    vc_lemma(vc_eq(sdist2(p, sadd(q0, smul(v, u))), d2 + (u - t) * (u - t) * slen2(v)), "distance of any other point");
    vc_check(vc_le(d2, sdist2(p, sadd(q0, smul(v, u)))), "no point of the line is closer");
    vc_check(vc_eq(distance_sqr_line(q0, v, p), d2), "distance_sqr_line agrees");
}

VC_CONTRACT(line_line) {
    auto p1 = any_vec3("p1"), d1 = any_vec3("d1"), p2 = any_vec3("p2"), d2 = any_vec3("d2");
    auto q1 = sadd(p1, d1), q2 = sadd(p2, d2);
    auto denom = slen2(d1) * slen2(d2) - sdot(d1, d2) * sdot(d1, d2);
    scalar s = 0, t = 0;
    auto ok = closest_point_line_line(p1, q1, p2, q2, s, t);
    vc_cover("reach");
    vc_check(ok == (denom > EPS), "fails exactly when the lines are parallel within tolerance");
    if (ok) {
        vc_cover("skew");
        auto c1 = sadd(p1, smul(d1, s)), c2 = sadd(p2, smul(d2, t));
        vc_check(vc_eq(sdot(ssub(c1, c2), d1), 0), "connecting vector perpendicular to the first line");
        vc_check(vc_eq(sdot(ssub(c1, c2), d2), 0), "connecting vector perpendicular to the second line");
    }
}
VC_CONTRACT(line_line_parallel) {
    auto p1 = any_vec3("p1"), d1 = any_vec3("d1"), p2 = any_vec3("p2");
    auto k = any("k");
    scalar s = 0, t = 0;
    vc_cover("reach");
    vc_check(!closest_point_line_line(p1, sadd(p1, d1), p2, sadd(p2, smul(d1, k)), s, t), "parallel lines are reported as parallel");
}

namespace {
// shared by the segment-segment contracts
void segseg(const vector3 &p1, const vector3 &d1, const vector3 &p2, const vector3 &d2, bool want_points) {
    auto q1 = sadd(p1, d1), q2 = sadd(p2, d2);
    auto r = ssub(p1, p2);
    auto a = vc_name(slen2(d1), "a"), b = vc_name(sdot(d1, d2), "b"), e = vc_name(slen2(d2), "e"), c = vc_name(sdot(d1, r), "c"), f = vc_name(sdot(d2, r), "f");
    scalar s, t, sp = -7, tp = -7; vector3 c1, c2, c1p{0, 0, 0}, c2p{0, 0, 0};
    size_t num = 99;
    auto dist2 = want_points ? closest_point_segment_segment(p1, q1, p2, q2, s, t, c1, c2, &num, &sp, &tp, &c1p, &c2p)
                             : closest_point_segment_segment(p1, q1, p2, q2, s, t, c1, c2);
    vc_cover("reach");
    vc_check(vc_and(unit_range(s), unit_range(t)), "parameters within the segments");
    vc_check(eq3(c1, sadd(p1, smul(d1, s))), "first point on the first segment");
    vc_check(eq3(c2, sadd(p2, smul(d2, t))), "second point on the second segment");
    vc_check(vc_eq(dist2, sdist2(c1, c2)), "returns the squared distance");
    // optimality: the variational inequality of the convex problem; g1 = (c1 - c2).d1 and g2 = -(c1 - c2).d2 with the points above
    auto g1 = c + a * s - b * t, g2 = -(f + b * s - e * t);
    vc_check(vc_implies(s < 1, vc_le(0, g1)), "first parameter cannot be increased to get closer");
    vc_check(vc_implies(s > 0, vc_le(g1, 0)), "first parameter cannot be decreased to get closer");
    vc_check(vc_implies(t < 1, vc_le(0, g2)), "second parameter cannot be increased to get closer");
    vc_check(vc_implies(t > 0, vc_le(g2, 0)), "second parameter cannot be decreased to get closer");
    if (want_points) {
        vc_check(vc_or(num == 1, num == 2), "one or two points");
        if (num == 2) {
            vc_check(vc_and(unit_range(sp), unit_range(tp)), "second parameters within the segments");
            vc_check(vc_and(eq3(c1p, sadd(p1, smul(d1, sp))), eq3(c2p, sadd(p2, smul(d2, tp)))), "second pair on the segments");
            vc_check(vc_eq(sdist2(c1p, c2p), dist2), "second pair is as close as the first");
            vc_check(vc_not(vc_eq(sp, s)), "second pair differs from the first");
        }
    }
}
}
VC_CONTRACT(segseg_general) {
    auto p1 = any_vec3("p1"), d1 = any_vec3("d1"), p2 = any_vec3("p2"), d2 = any_vec3("d2");
    auto a = vc_name(slen2(d1), "a"), b = vc_name(sdot(d1, d2), "b"), e = vc_name(slen2(d2), "e");
    vc_assume(all(a > EPS, e > EPS, a * e - b * b > EPS));
    segseg(p1, d1, p2, d2, vc_bool("want"));
}
VC_CONTRACT(segseg_parallel) {
    auto p1 = any_vec3("p1"), d1 = any_vec3("d1"), p2 = any_vec3("p2");
    auto k = any("k");
    auto d2 = smul(d1, k);
    auto a = vc_name(slen2(d1), "a"), c = vc_name(sdot(d1, ssub(p1, p2)), "c");
    vc_rewrite(sdot(d1, ssub(ssub(p1, p2), d2)), c - k * a, "projection of the other end");
    vc_assume(all(a > EPS, a * k * k > EPS));
    segseg(p1, d1, p2, d2, vc_bool("want"));
}
VC_CONTRACT(segseg_first_point) {
    auto p1 = any_vec3("p1"), p2 = any_vec3("p2"), d2 = any_vec3("d2");
    vc_assume(slen2(d2) > EPS);
    segseg(p1, vector3{0, 0, 0}, p2, d2, vc_bool("want"));
}
VC_CONTRACT(segseg_second_point) {
    auto p1 = any_vec3("p1"), p2 = any_vec3("p2"), d1 = any_vec3("d1");
    vc_assume(slen2(d1) > EPS);
    segseg(p1, d1, p2, vector3{0, 0, 0}, vc_bool("want"));
}
VC_CONTRACT(segseg_points) {
    auto p1 = any_vec3("p1"), p2 = any_vec3("p2");
    segseg(p1, vector3{0, 0, 0}, p2, vector3{0, 0, 0}, vc_bool("want"));
}
// The inequality checked above implies optimality for every pair of points of the segments.
VC_CONTRACT(segseg_convexity_lemma) {
    auto r = any_vec3("r"), d1 = any_vec3("d1"), d2 = any_vec3("d2");   // r = c1 - c2
    auto du = any("du"), dv = any("dv");
    vc_cover("reach");
    vc_assume(vc_and(0 <= du * sdot(r, d1), 0 <= -dv * sdot(r, d2)));
    auto x = ssub(smul(d1, du), smul(d2, dv));
    vc_lemma(vc_le(0, slen2(x)), "square");
    vc_check(vc_le(slen2(r), slen2(sadd(r, x))), "no pair of points is closer");
}

namespace {
coordinate_axis any_axis(const char *n) { return static_cast<coordinate_axis>(vc_int(n, 0, 2)); }
}
namespace {
vector3 g_axis;
// contract of coordinate_axis_vector(axis, orn) used for its callers: a unit vector (proved in axis_vector below)
vector3 axis_vector_spec(coordinate_axis, const quaternion &) { return g_axis; }
using axis_fn = vector3 (*)(coordinate_axis, const quaternion &);
void use_axis_contract() { g_axis = any_unit3("axisdir"); vc_replace((void *)static_cast<axis_fn>(&coordinate_axis_vector), (void *)&axis_vector_spec); }
}
VC_CONTRACT(axis_vector) {
    auto orn = any_quat("orn"); auto axis = any_axis("axis");
    vc_cover("reach");
    auto n = coordinate_axis_vector(axis, orn);
    vc_check(vc_eq(slen2(n), 1), "unit length");
}
VC_CONTRACT(disc) {
    auto pos = any_vec3("pos"); auto orn = any_quat("orn"); auto radius = any_gt("radius", 0);
    auto axis = any_axis("axis");
    auto r = any_vec3("r");
    auto p = sadd(pos, r);
    use_axis_contract();
    auto n = coordinate_axis_vector(axis, orn);
    auto m = ssub(r, smul(n, sdot(r, n)));   // in-plane part
    auto l2 = vc_name(slen2(m), "l2");
    vector3 q;
    auto d2 = closest_point_disc(pos, orn, radius, axis, p, q);
    vc_cover("reach");
    auto c = ssub(q, pos);
    vc_check(vc_eq(sdot(c, n), 0), "point in the plane of the disc");
    vc_check(vc_le(slen2(c), radius * radius), "point within the disc");
    vc_check(vc_eq(d2, sdist2(p, q)), "returns the squared distance");
    // optimality: the closest point is the projection onto the plane of the disc if that is inside, else it is radial on the rim
    if (l2 < radius * radius) {
        vc_check(eq3(c, m), "projection inside the disc is the closest point");
    } else {
        auto l = std::sqrt(l2);
        vc_check(vc_and(vc_le(0, l), eq3(smul(c, l), smul(m, radius))), "outside, the point of the rim in the direction of the query point");
    }
}

VC_CONTRACT(box_outside) {
    auto h = any_vec3("h"); auto p = any_vec3("p"); auto x = any_vec3("x");
    if (!vc_symbolic()) { h = vector3{std::abs(h.x), std::abs(h.y), std::abs(h.z)}; }
    vc_assume(all(0 <= h.x, 0 <= h.y, 0 <= h.z));
    auto q = closest_point_box_outside(h, p);
    vc_cover("reach");
    vc_check(all(vc_le(-h.x, q.x), vc_le(q.x, h.x), vc_le(-h.y, q.y), vc_le(q.y, h.y), vc_le(-h.z, q.z), vc_le(q.z, h.z)), "point in the box");
    auto xin = all(-h.x <= x.x, x.x <= h.x, -h.y <= x.y, x.y <= h.y, -h.z <= x.z, x.z <= h.z);
    auto closer = [](scalar p, scalar q, scalar x) { return vc_le((p - q) * (p - q), (p - x) * (p - x)); };
    vc_lemma(vc_implies(xin, closer(p.x, q.x, x.x)), "x");
    vc_lemma(vc_implies(xin, closer(p.y, q.y, x.y)), "y");
    vc_lemma(vc_implies(xin, closer(p.z, q.z, x.z)), "z");
    vc_check(vc_implies(xin, vc_le(sdist2(p, q), sdist2(p, x))), "no point of the box is closer");
    vc_check(vc_implies(all(-h.x <= p.x, p.x <= h.x, -h.y <= p.y, p.y <= h.y, -h.z <= p.z, p.z <= h.z), eq3(p, q)), "a point in the box is its own closest point");
}
VC_CONTRACT(box_inside) {
    auto h = any_vec3("h"); auto p = any_vec3("p");
    if (!vc_symbolic()) { h = vector3{std::abs(h.x), std::abs(h.y), std::abs(h.z)}; p = vector3{std::fmod(p.x, h.x + EPS), std::fmod(p.y, h.y + EPS), std::fmod(p.z, h.z + EPS)}; }
    vc_assume(all(0 < h.x, 0 < h.y, 0 < h.z, -h.x <= p.x, p.x <= h.x, -h.y <= p.y, p.y <= h.y, -h.z <= p.z, p.z <= h.z));
    vector3 q, n;
    auto d = closest_point_box_inside(h, p, q, n);
    vc_cover("reach");
    vc_check(eq3(q, sadd(p, smul(n, d))), "closest point lies along the normal at the returned distance");
    vc_check(vc_le(0, d), "distance not negative");
    vc_check(vc_and(vc_eq(slen2(n), 1), vc_eq(all(n.x == 0, n.y == 0) || all(n.x == 0, n.z == 0) || all(n.y == 0, n.z == 0) ? 1 : 0, 1)), "normal is a face normal");
    vc_check(vc_or(vc_or(vc_eq(q.x, n.x * h.x), vc_eq(n.x, 0)), false), "on the face x");
    vc_check(vc_eq(sdot(q, n), std::abs(n.x) * h.x + std::abs(n.y) * h.y + std::abs(n.z) * h.z), "closest point on the face with that normal");
    vc_check(all(vc_le(d, h.x - p.x), vc_le(d, h.x + p.x), vc_le(d, h.y - p.y), vc_le(d, h.y + p.y), vc_le(d, h.z - p.z), vc_le(d, h.z + p.z)), "no face is closer");
}
