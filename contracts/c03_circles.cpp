// C03: closest points between circles and lines, and between circles.
#include "vc.hpp"
#include <edyn/math/geom.hpp>
#include <edyn/math/coordinate_axis.hpp>

namespace {
const scalar EPS = EDYN_EPSILON;
struct line_result { size_t n = 9; scalar s0 = 0, s1 = 0, d2; vector3 rc0, rl0, rc1, rl1, normal; };
vector3 unit(int a, scalar k) { vector3 v {0, 0, 0}; v[a] = k; return v; }
// position from coordinates (height over the plane, first and second tangent)
vector3 at(int a, scalar h, scalar x, scalar y) { vector3 v; v[a] = h; v[(a + 1) % 3] = x; v[(a + 2) % 3] = y; return v; }
quaternion any_turn(const char *n) {
    // (third of a turn about a diagonal)
    if (vc_bool(n)) return {scalar(0.5), scalar(-0.5), scalar(0.5), scalar(0.5)};
    return {0, 0, 0, 1};
}
void on_circle(const vector3 &p, const vector3 &c, const vector3 &n, scalar r, const char *plane, const char *round) {
    vc_check(vc_eq(sdot(ssub(p, c), n), 0), plane);
    vc_check(vc_eq(sdist2(p, c), r * r), round);
}
}

// a line parallel to the plane of the circle, at height h, passing at distance |e| from the axis
static void line_parallel(int a, bool crossing) {
    auto c = any_vec3("c");
    auto q = any_turn("orn");
    auto r = any_in("r", scalar(0.1), 10), h = any_in("h", -10, 10), e = any_in("e", -20, 20), k = any_in("k", -10, 10), len = any_in("len", scalar(0.1), 10);
    int along = vc_bool("along") ? 1 : 2;
    if (crossing) vc_assume(e * e < r * r - scalar(0.001)); else vc_assume(e * e > r * r + scalar(0.001));
    auto l0 = along == 1 ? at(a, h, k, e) : at(a, h, e, k), dl = along == 1 ? at(a, 0, len, 0) : at(a, 0, 0, len);
    auto n = srot(q, unit(a, 1)), d = srot(q, dl), p0 = sadd(c, srot(q, l0));
    line_result s;
    s.d2 = closest_point_circle_line(c, q, r, coordinate_axis(a), p0, sadd(p0, d), s.n, s.s0, s.rc0, s.rl0, s.s1, s.rc1, s.rl1, s.normal);
    on_circle(s.rc0, c, n, r, "the first point of the circle is in its plane", "the first point of the circle is on it");
    vc_check(eq3(s.rl0, sadd(p0, smul(d, s.s0))), "the first point of the line is at its parameter");
    vc_check(vc_eq(s.d2, sdist2(s.rl0, s.rc0)), "returns the squared distance");
    vc_check(vc_eq(slen2(s.normal), 1), "the normal has unit length");
    vc_check(vc_eq(sdot(s.normal, d), 0), "the normal is perpendicular to the line");
    if (crossing) {
        vc_check(s.n == 2, "a line that passes over the circle has two closest points");
        on_circle(s.rc1, c, n, r, "the second point of the circle is in its plane", "the second point of the circle is on it");
        vc_check(eq3(s.rl1, sadd(p0, smul(d, s.s1))), "the second point of the line is at its parameter");
        vc_check(vc_lt(s.s0, s.s1), "the points are distinct and in order along the line");
        vc_check(vc_eq(s.d2, h * h), "the distance is the height over the plane, the smallest possible");
        vc_check(vc_eq(sdist2(s.rl1, s.rc1), h * h), "both points are as close");
    } else {
        vc_check(s.n == 1, "a line that passes by has one closest point");
        auto g = vc_sel(e < 0, -e - r, e - r);
        vc_check(vc_eq(s.d2, h * h + g * g), "the distance is the smallest possible");
    }
    vc_cover("parallel");
}
VC_CONTRACT(circle_line_over_x) { line_parallel(0, true); }
VC_CONTRACT(circle_line_over_y) { line_parallel(1, true); }
VC_CONTRACT(circle_line_over_z) { line_parallel(2, true); }
VC_CONTRACT(circle_line_by_x) { line_parallel(0, false); }
VC_CONTRACT(circle_line_by_y) { line_parallel(1, false); }
VC_CONTRACT(circle_line_by_z) { line_parallel(2, false); }

// a line tilted by the slope t: parallel when it rises less than the threshold over the diameter
static void line_tilted(int a) {
    auto c = any_vec3("c");
    auto r = any_in("r", scalar(0.1), 10), t = any_in("t", -1, 1), th = any_in("threshold", scalar(0.001), 1);
    vc_assume(vc_or(vc_and(t > scalar(0.0001), 2 * t * r < th * scalar(0.99)), vc_and(t < scalar(-0.0001), -2 * t * r < th * scalar(0.99))));
    auto l0 = at(a, 0, 0, r / 2), d = at(a, t, 1, 0);
    auto p0 = sadd(c, l0);
    line_result s;
    s.d2 = closest_point_circle_line(c, quaternion{0, 0, 0, 1}, r, coordinate_axis(a), p0, sadd(p0, d), s.n, s.s0, s.rc0, s.rl0, s.s1, s.rc1, s.rl1, s.normal, th);
    vc_check(s.n == 2, "a line within the threshold of being parallel is treated as parallel");
    on_circle(s.rc0, c, unit(a, 1), r, "the first point of the circle is in its plane", "the first point of the circle is on it");
    on_circle(s.rc1, c, unit(a, 1), r, "the second point of the circle is in its plane", "the second point of the circle is on it");
    vc_check(eq3(s.rl0, sadd(p0, smul(d, s.s0))), "the first point of the line is at its parameter");
    vc_check(eq3(s.rl1, sadd(p0, smul(d, s.s1))), "the second point of the line is at its parameter");
    vc_check(vc_le(s.d2, sdist2(s.rl0, s.rc0)), "returns the smaller squared distance");
    vc_check(vc_le(s.d2, sdist2(s.rl1, s.rc1)), "returns the smaller squared distance of both");
    vc_check(vc_eq(slen2(s.normal), 1), "the normal has unit length");
    vc_check(vc_eq(sdot(s.normal, d), 0), "the normal is perpendicular to the line");
    vc_cover("tilted");
}
VC_CONTRACT(circle_line_tilted_x) { line_tilted(0); }
VC_CONTRACT(circle_line_tilted_y) { line_tilted(1); }
VC_CONTRACT(circle_line_tilted_z) { line_tilted(2); }

// a line through the centre, perpendicular to the circle
static void line_axis(int a) {
    auto c = any_vec3("c");
    auto q = any_turn("orn");
    auto r = any_in("r", scalar(0.1), 10), h = any_in("h", -10, 10), len = any_in("len", scalar(0.1), 10);
    auto n = srot(q, unit(a, 1)), d = smul(n, len), p0 = sadd(c, smul(n, h));
    line_result s;
    s.d2 = closest_point_circle_line(c, q, r, coordinate_axis(a), p0, sadd(p0, d), s.n, s.s0, s.rc0, s.rl0, s.s1, s.rc1, s.rl1, s.normal);
    vc_check(s.n == 1, "one closest point");
    on_circle(s.rc0, c, n, r, "the point of the circle is in its plane", "the point of the circle is on it");
    vc_check(eq3(s.rl0, sadd(p0, smul(d, s.s0))), "the point of the line is at its parameter");
    vc_check(eq3(s.rl0, c), "the closest point of the line is the centre");
    vc_check(vc_eq(s.d2, r * r), "the distance is the radius");
    vc_check(vc_eq(slen2(s.normal), 1), "the normal has unit length");
    vc_check(vc_eq(sdot(s.normal, d), 0), "the normal is perpendicular to the line");
    vc_cover("axis");
}
VC_CONTRACT(circle_line_axis_x) { line_axis(0); }
VC_CONTRACT(circle_line_axis_y) { line_axis(1); }
VC_CONTRACT(circle_line_axis_z) { line_axis(2); }

// any other line: whatever angle the iteration ends at
static void line_skew(int a) {
    vc_opt("cut", "1"); vc_opt("angles", "opaque"); vc_opt("noassert", "1"); vc_opt("nosafety", "1");
    auto c = any_vec3("c"), l0 = any_vec3("l");
    auto r = any_in("r", scalar(0.1), 10), t = any_in("t", scalar(0.1), 10), th = any_in("threshold", scalar(0.001), 1);
    vector3 d;
    scalar len;
    switch (vc_int("way", 0, 3)) {
    case 0: d = at(a, t, 2, 0); len = 2; break;
    case 2: d = at(a, t, 3, 4); len = 5; break;
    case 1: d = at(a, t, 0, -1); len = 1; break;
    default: d = at(a, t, 0, 0); len = 0;
    }
    vc_assume(vc_and(2 * t * r > th * len + scalar(0.001), t * t > scalar(0.009)));
    auto e = l0[(a + 1) % 3];
    vc_assume(vc_and(e > scalar(0.01), e * e > scalar(0.0001)));
    auto p0 = sadd(c, l0);
    line_result s;
    s.d2 = closest_point_circle_line(c, quaternion{0, 0, 0, 1}, r, coordinate_axis(a), p0, sadd(p0, d), s.n, s.s0, s.rc0, s.rl0, s.s1, s.rc1, s.rl1, s.normal, th);
    vc_check(s.n == 1, "one closest point");
    on_circle(s.rc0, c, unit(a, 1), r, "the point of the circle is in its plane", "the point of the circle is on it");
    vc_check(eq3(s.rl0, sadd(p0, smul(d, s.s0))), "the point of the line is at its parameter");
    vc_check(vc_eq(sdot(ssub(s.rl0, s.rc0), d), 0), "it is the point of the line closest to that of the circle");
    vc_check(vc_eq(s.d2, sdist2(s.rl0, s.rc0)), "returns the squared distance");
    vc_check(vc_eq(slen2(s.normal), 1), "the normal has unit length");
    vc_cover("skew");
}
VC_CONTRACT(circle_line_skew_x) { line_skew(0); }
VC_CONTRACT(circle_line_skew_y) { line_skew(1); }
VC_CONTRACT(circle_line_skew_z) { line_skew(2); }

// ---- two circles
static quaternion smulq(const quaternion &p, const quaternion &q) {
    return {p.w * q.x + p.x * q.w + p.y * q.z - p.z * q.y, p.w * q.y - p.x * q.z + p.y * q.w + p.z * q.x,
            p.w * q.z + p.x * q.y - p.y * q.x + p.z * q.w, p.w * q.w - p.x * q.x - p.y * q.y - p.z * q.z};
}
struct pair_result { size_t n = 9; scalar d2; vector3 a0, b0, a1, b1, normal; };

// orientation that turns the axis b into the direction of the axis a, or against it
static quaternion turn_axis(int a, int b, bool against) {
    quaternion q {0, 0, 0, 1};
    auto h = scalar(0.5);
    if (b != a) { q = (b + 1) % 3 == a ? quaternion{h, h, h, h} : quaternion{-h, -h, -h, h}; }
    if (against) {
        // half a turn about the next axis
        auto v = unit((a + 1) % 3, 1);
        q = smulq(quaternion{v.x, v.y, v.z, 0}, q);
    }
    return q;
}

static void circles_parallel(int a, int mode) {
    auto pa = any_vec3("pa");
    auto qa = quaternion{scalar(0.5), scalar(-0.5), scalar(0.5), scalar(0.5)};
    auto ra = any_in("ra", scalar(0.1), 10), rb = any_in("rb", scalar(0.1), 10), h = any_in("h", -10, 10), e = any_in("e", -30, 30);
    int b = vc_int("axisB", 0, 2);
    bool against = vc_bool("against");
    int along = against ? 1 : 2;
    auto m = scalar(0.01);
    auto dist = vc_sel(e < 0, -e, e);
    scalar gap;
    switch (mode) {
    case 0: vc_assume(dist > ra + rb + m); gap = dist - ra - rb; break;
    case 1: vc_assume(vc_and(dist + rb + m < ra, dist > m)); gap = ra - rb - dist; break;
    case 2: vc_assume(vc_and(dist + ra + m < rb, dist > m)); gap = rb - ra - dist; break;
    default: vc_assume(all(e == 0, vc_or(ra > rb + m, rb > ra + m))); gap = vc_sel(ra > rb, ra - rb, rb - ra);
    }
    auto n = srot(qa, unit(a, 1));
    auto pb = sadd(pa, srot(qa, along == 1 ? at(a, h, e, 0) : at(a, h, 0, e)));
    auto qb = smulq(qa, turn_axis(a, b, against));
    pair_result s;
    s.d2 = closest_point_circle_circle(pa, qa, ra, coordinate_axis(a), pb, qb, rb, coordinate_axis(b), s.n, s.a0, s.b0, s.a1, s.b1, s.normal);
    vc_check(s.n == 1, "circles that do not cross have one pair of closest points");
    on_circle(s.a0, pa, n, ra, "the point of the first circle is in its plane", "the point of the first circle is on it");
    on_circle(s.b0, pb, n, rb, "the point of the second circle is in its plane", "the point of the second circle is on it");
    vc_check(vc_eq(s.d2, sdist2(s.a0, s.b0)), "returns the squared distance");
    vc_check(vc_eq(s.d2, h * h + gap * gap), "the distance is the smallest possible");
    vc_check(vc_eq(slen2(s.normal), 1), "the normal has unit length");
    vc_cover("parallel circles");
}
VC_CONTRACT(circles_apart_x) { circles_parallel(0, 0); }
VC_CONTRACT(circles_apart_y) { circles_parallel(1, 0); }
VC_CONTRACT(circles_apart_z) { circles_parallel(2, 0); }
VC_CONTRACT(circles_inside_x) { circles_parallel(0, 1); }
VC_CONTRACT(circles_inside_y) { circles_parallel(1, 1); }
VC_CONTRACT(circles_inside_z) { circles_parallel(2, 1); }
VC_CONTRACT(circles_around_x) { circles_parallel(0, 2); }
VC_CONTRACT(circles_around_y) { circles_parallel(1, 2); }
VC_CONTRACT(circles_around_z) { circles_parallel(2, 2); }
VC_CONTRACT(circles_coaxial_x) { circles_parallel(0, 3); }
VC_CONTRACT(circles_coaxial_y) { circles_parallel(1, 3); }
VC_CONTRACT(circles_coaxial_z) { circles_parallel(2, 3); }

static void circles_crossing(int a) {
    auto pa = any_vec3("pa");
    auto qa = quaternion{scalar(0.5), scalar(-0.5), scalar(0.5), scalar(0.5)};
    auto ra = any_in("ra", scalar(0.1), 10), rb = any_in("rb", scalar(0.1), 10), h = any_in("h", -10, 10), e = any_in("e", -30, 30);
    int b = vc_int("axisB", 0, 2);
    bool against = vc_bool("against");
    int along = against ? 1 : 2;
    auto m = scalar(0.01);
    auto dist = vc_sel(e < 0, -e, e);
    vc_assume(all(dist > m, dist + m < ra + rb, dist + rb > ra + m, dist + ra > rb + m));
    auto n = srot(qa, unit(a, 1));
    auto pb = sadd(pa, srot(qa, along == 1 ? at(a, h, e, 0) : at(a, h, 0, e)));
    auto qb = smulq(qa, turn_axis(a, b, against));
    pair_result s;
    s.d2 = closest_point_circle_circle(pa, qa, ra, coordinate_axis(a), pb, qb, rb, coordinate_axis(b), s.n, s.a0, s.b0, s.a1, s.b1, s.normal);
    on_circle(s.a0, pa, n, ra, "the first point of the first circle is in its plane", "the first point of the first circle is on it");
    on_circle(s.b0, pb, n, rb, "the first point of the second circle is in its plane", "the first point of the second circle is on it");
    if (s.n == 2) {
        on_circle(s.a1, pa, n, ra, "the second point of the first circle is in its plane", "the second point of the first circle is on it");
        on_circle(s.b1, pb, n, rb, "the second point of the second circle is in its plane", "the second point of the second circle is on it");
        vc_check(vc_eq(sdist2(s.a1, s.b1), h * h), "the second pair is as close");
        vc_cover("crossing circles");
    }
    vc_check(vc_eq(sdist2(s.a0, s.b0), h * h), "the pair is at the distance of the planes");
    vc_check(vc_eq(s.d2, h * h), "the distance is the smallest possible");
    vc_check(vc_eq(slen2(s.normal), 1), "the normal has unit length");
}
VC_CONTRACT(circles_crossing_x) { circles_crossing(0); }
VC_CONTRACT(circles_crossing_y) { circles_crossing(1); }
VC_CONTRACT(circles_crossing_z) { circles_crossing(2); }

// circles in planes at an angle: whatever angle the iteration ends at
static void circles_skew(int a, int b, bool any) {
    vc_opt("cut", "1"); vc_opt("angles", "opaque"); vc_opt("noassert", "1"); vc_opt("nosafety", "1");
    auto pa = any_vec3("pa"), pb = any_vec3("pb");
    auto ra = any_in("ra", scalar(0.1), 10), rb = any_in("rb", scalar(0.1), 10);
    quaternion qb = turn_axis(a, b, false);
    auto w = any_unit2("w");  // half the angle about a tangent of the first circle
    vc_assume(vc_and(w.x * w.x > scalar(0.001), w.y * w.y > scalar(0.001)));
    switch (any ? vc_int("tilt", 0, 1) : 2) {
    case 0: { auto v = at(a, 0, w.x, 0); qb = smulq(quaternion{v.x, v.y, v.z, w.y}, qb); break; }
    case 1: { auto v = at(a, 0, 0, w.x); qb = smulq(quaternion{v.x, v.y, v.z, w.y}, qb); break; }
    default: { auto v = at(a, scalar(0.5), scalar(0.5), scalar(0.5)); qb = smulq(quaternion{v.x, v.y, v.z, scalar(0.5)}, qb); }
    }
    auto na = unit(a, 1), nb = srot(qb, unit(b, 1));
    pair_result s;
    s.d2 = closest_point_circle_circle(pa, quaternion{0, 0, 0, 1}, ra, coordinate_axis(a), pb, qb, rb, coordinate_axis(b), s.n, s.a0, s.b0, s.a1, s.b1, s.normal);
    vc_check(s.n == 1, "one pair of closest points");
    on_circle(s.a0, pa, na, ra, "the point of the first circle is in its plane", "the point of the first circle is on it");
    on_circle(s.b0, pb, nb, rb, "the point of the second circle is in its plane", "the point of the second circle is on it");
    auto x = ssub(s.a0, pa), y = ssub(s.b0, pa);
    vc_check(vc_eq(x[(a + 1) % 3] * y[(a + 2) % 3], x[(a + 2) % 3] * y[(a + 1) % 3]), "the point of the first circle is in the direction of that of the second");
    vc_check(vc_le(0, x[(a + 1) % 3] * y[(a + 1) % 3] + x[(a + 2) % 3] * y[(a + 2) % 3]), "it is the one closest to the point of the second");
    vc_check(vc_eq(s.d2, sdist2(s.a0, s.b0)), "returns the squared distance");
    vc_cover("skew circles");
}
VC_CONTRACT(circles_tilted_x) { circles_skew(0, 0, true); }
VC_CONTRACT(circles_tilted_y) { circles_skew(1, 1, true); }
VC_CONTRACT(circles_tilted_z) { circles_skew(2, 2, true); }
VC_CONTRACT(circles_skew_xx) { circles_skew(0, 0, false); }
VC_CONTRACT(circles_skew_xy) { circles_skew(0, 1, false); }
VC_CONTRACT(circles_skew_xz) { circles_skew(0, 2, false); }
VC_CONTRACT(circles_skew_yx) { circles_skew(1, 0, false); }
VC_CONTRACT(circles_skew_yy) { circles_skew(1, 1, false); }
VC_CONTRACT(circles_skew_yz) { circles_skew(1, 2, false); }
VC_CONTRACT(circles_skew_zx) { circles_skew(2, 0, false); }
VC_CONTRACT(circles_skew_zy) { circles_skew(2, 1, false); }
VC_CONTRACT(circles_skew_zz) { circles_skew(2, 2, false); }
