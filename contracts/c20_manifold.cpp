// C20: inserting points into a contact manifold keeps it bounded and never makes it worse.
#include "vc.hpp"
#include <edyn/math/geom.hpp>
#include <edyn/math/triangle.hpp>
#include <edyn/config/constants.hpp>

namespace {
const scalar merge2 = contact_merging_threshold * contact_merging_threshold;
// bookkeeping common to all cases
void shape(const insertion_point_result &r, size_t before, size_t after) {
    switch (r.type) {
    case point_insertion_type::none: vc_check(after == before, "an ignored point leaves the number of points alone"); break;
    case point_insertion_type::append:
        vc_check(r.index == before && after == before + 1 && after <= 4, "an appended point takes the next free slot"); break;
    default: vc_check(r.index < before && after == before, "a replaced point is one of the current points"); break;
    }
}
scalar area4(const vector3 &a, const vector3 &b, const vector3 &c) { return slen2(scross(ssub(b, a), ssub(c, a))); }
// four times the sum of the squared areas of the faces of the tetrahedron
scalar score(const vector3 &a, const vector3 &b, const vector3 &c, const vector3 &d) { return area4(a, b, c) + area4(a, b, d) + area4(a, c, d) + area4(b, c, d); }
}

VC_CONTRACT(into_empty) {
    std::array<vector3, 4> p{};
    size_t n = 0;
    auto r = insertion_point_index(p, n, any_vec3("q"));
    vc_cover("reach");
    shape(r, 0, n);
    vc_check(r.type == point_insertion_type::append, "the first point is always inserted");
}
VC_CONTRACT(into_one) {
    std::array<vector3, 4> p{any_vec3("p0")};
    auto q = any_vec3("q");
    size_t n = 1;
    auto r = insertion_point_index(p, n, q);
    vc_cover("reach");
    shape(r, 1, n);
    auto d = sdist2(q, p[0]);
    vc_check(vc_implies(d > merge2, r.type == point_insertion_type::append), "a point away from the current one is appended");
    vc_check(vc_implies(d <= merge2, r.type == point_insertion_type::similar), "a point next to the current one is merged with it");
}
VC_CONTRACT(into_two) {
    auto p0 = any_vec3("p0"), u = any_vec3("u"), w = any_vec3("w");
    std::array<vector3, 4> p{p0, sadd(p0, u)};
    auto q = sadd(p0, w);
    size_t n = 2;
    auto c2 = slen2(scross(w, ssub(w, u)));
    auto l0 = vc_name(slen2(w), "l0"), l1 = vc_name(slen2(ssub(w, u)), "l1"), cur = vc_name(slen2(u), "cur");
    auto r = insertion_point_index(p, n, q);
    vc_cover("reach");
    shape(r, 2, n);
    if (c2 > EDYN_EPSILON) { vc_check(r.type == point_insertion_type::append, "a point off the line is appended"); return; }
    vc_check(r.type != point_insertion_type::append, "a collinear point is not appended");
    if (r.type == point_insertion_type::none) {
        vc_check(vc_and(vc_or(vc_le(l0, cur), vc_le(l0, l1)), vc_or(vc_le(l1, cur), vc_le(l1, l0))), "the point is ignored only when it does not extend the segment");
    } else {
        vc_cover("extended");
        auto kept = r.index == 1 ? l0 : l1, gone = r.index == 1 ? l1 : l0;
        vc_check(vc_and(vc_lt(cur, kept), vc_lt(gone, kept)), "replacing makes the longest segment");
        vc_check((r.type == point_insertion_type::similar) == (gone < merge2), "the point is similar when it is next to the point it replaces");
    }
}
VC_CONTRACT(into_three) {
    std::array<vector3, 4> p{any_vec3("p0"), any_vec3("p1"), any_vec3("p2")};
    auto q = any_vec3("q");
    size_t n = 3;
    auto nrm = scross(ssub(p[0], p[1]), ssub(p[1], p[2]));
    vc_assume(slen2(nrm) > scalar(0.0001));
    auto len = std::sqrt(slen2(nrm));
    vector3 u; u.x = nrm.x / len; u.y = nrm.y / len; u.z = nrm.z / len;
    auto h = sdot(ssub(q, p[0]), u);
    triangle_vertices v{p[0], p[1], p[2]};
    auto r = insertion_point_index(p, n, q);
    vc_cover("reach");
    shape(r, 3, n);
    vc_check(r.type == point_insertion_type::none || r.type == point_insertion_type::append, "a triangle is kept");
    auto contained = vc_and(vc_and(h < EDYN_EPSILON, -h < EDYN_EPSILON), point_in_triangle(v, u, q));
    vc_check(vc_implies(contained, r.type == point_insertion_type::none), "a point of the triangle is ignored");
    vc_check(vc_implies(vc_not(contained), r.type == point_insertion_type::append), "a point outside the triangle is appended");
}
// three collinear points at positions 0, s, t along a line: one in the middle is replaced
VC_CONTRACT(into_three_collinear) {
    auto p0 = any_vec3("p0"), d = any_vec3("d");
    auto s = any("s"), t = any("t");
    std::array<vector3, 4> p{p0, sadd(p0, smul(d, s)), sadd(p0, smul(d, t))};
    auto l = vc_name(slen2(d), "l");
    vc_assume(l > 0);
    size_t n = 3;
    auto r = insertion_point_index(p, n, any_vec3("q"));
    vc_cover("reach");
    shape(r, 3, n);
    vc_check(r.type == point_insertion_type::replace, "one of three collinear points is replaced");
    scalar pos[3] = {0, s, t};
    auto i = r.index;
    vc_assume(i < 3);
    auto a = pos[(i + 1) % 3], b = pos[(i + 2) % 3], c = pos[i];
    vc_check(vc_or(vc_and(vc_le(a, c), vc_le(c, b)), vc_and(vc_le(b, c), vc_le(c, a))), "the replaced point is between the others");
}
VC_CONTRACT(into_four) {
    std::array<vector3, 4> p{any_vec3("p0"), any_vec3("p1"), any_vec3("p2"), any_vec3("p3")};
    auto q = any_vec3("q");
    size_t n = 4;
    auto cur = vc_name(score(p[0], p[1], p[2], p[3]), "cur");
    scalar s[4];
    s[0] = vc_name(score(q, p[1], p[2], p[3]), "s0");
    s[1] = vc_name(score(p[0], q, p[2], p[3]), "s1");
    s[2] = vc_name(score(p[0], p[1], q, p[3]), "s2");
    s[3] = vc_name(score(p[0], p[1], p[2], q), "s3");
    auto r = insertion_point_index(p, n, q);
    vc_cover("reach");
    shape(r, 4, n);
    if (r.type == point_insertion_type::none) {
        vc_cover("ignored");
        for (int i = 0; i < 4; ++i) vc_check(vc_le(s[i], cur), "the point is ignored only when no replacement has a larger surface");
    } else {
        vc_cover("replaced");
        auto k = r.index;
        vc_assume(k < 4);
        vc_check(vc_lt(cur, s[k]), "a replacement has a larger surface");
        for (int i = 0; i < 4; ++i) vc_check(vc_le(s[i], s[k]), "no other replacement has a larger surface");
        vc_check((r.type == point_insertion_type::similar) == (sdist2(p[k], q) < merge2), "the point is similar when it is next to the point it replaces");
    }
}
