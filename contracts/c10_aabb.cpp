// C10: axis-aligned bounding boxes.
#include "vc.hpp"
#include <edyn/math/geom.hpp>
#include <edyn/comp/aabb.hpp>

namespace {
AABB any_box(const char *a, const char *b) {
    AABB r; r.min = any_vec3(a); r.max = any_vec3(b);
    if (!vc_symbolic()) for (int i = 0; i < 3; ++i) if (r.min[i] > r.max[i]) { auto t = r.min[i]; r.min[i] = r.max[i]; r.max[i] = t; }
    vc_assume(all(r.min.x <= r.max.x, r.min.y <= r.max.y, r.min.z <= r.max.z));
    return r;
}
bool in(const AABB &b, const vector3 &p) {
    return all(b.min.x <= p.x, b.min.y <= p.y, b.min.z <= p.z, p.x <= b.max.x, p.y <= b.max.y, p.z <= b.max.z);
}
bool le_in(const AABB &b, const vector3 &p) {
    return all(vc_le(b.min.x, p.x), vc_le(b.min.y, p.y), vc_le(b.min.z, p.z), vc_le(p.x, b.max.x), vc_le(p.y, b.max.y), vc_le(p.z, b.max.z));
}
vector3 pick(bool x, bool y, bool z, const vector3 &a, const vector3 &b) { return vector3{x ? a.x : b.x, y ? a.y : b.y, z ? a.z : b.z}; }
}

VC_CONTRACT(contains_point) {
    auto b = any_box("lo", "hi"); auto p = any_vec3("p");
    vc_cover("reach");
    vc_check(b.contains(p) == in(b, p), "contains exactly the points between min and max");
}
VC_CONTRACT(contains_box) {
    auto a = any_box("alo", "ahi"), b = any_box("blo", "bhi"); auto p = any_vec3("p");
    vc_cover("reach");
    auto c = a.contains(b);
    vc_check(vc_implies(c, vc_implies(in(b, p), in(a, p))), "every point of a contained box is contained");
    vc_check(vc_implies(vc_and(in(a, b.min), in(a, b.max)), c), "a box whose corners are inside is contained");
}
VC_CONTRACT(intersects) {
    auto a = any_box("alo", "ahi"), b = any_box("blo", "bhi"); auto p = any_vec3("p");
    vc_cover("reach");
    auto i = intersect(a, b);
    vc_check(i == intersect_aabb(a.min, a.max, b.min, b.max), "same as intersect_aabb");
    vc_check(i == intersect(b, a), "symmetric");
    vc_check(vc_implies(vc_and(in(a, p), in(b, p)), i), "boxes with a common point intersect");
    // witness: the largest of the minima is in both when they intersect
    vector3 w;
    w.x = vc_sel(a.min.x < b.min.x, b.min.x, a.min.x);
    w.y = vc_sel(a.min.y < b.min.y, b.min.y, a.min.y);
    w.z = vc_sel(a.min.z < b.min.z, b.min.z, a.min.z);
    vc_check(vc_implies(i, vc_and(in(a, w), in(b, w))), "intersecting boxes have a common point");
}
VC_CONTRACT(enclosing) {
    auto a = any_box("alo", "ahi"), b = any_box("blo", "bhi"), c = any_box("clo", "chi"); auto p = any_vec3("p");
    vc_cover("reach");
    auto e = enclosing_aabb(a, b);
    vc_check(vc_implies(vc_or(in(a, p), in(b, p)), in(e, p)), "encloses both");
    vc_check(vc_implies(all(in(c, a.min), in(c, a.max), in(c, b.min), in(c, b.max)), vc_and(in(c, e.min), in(c, e.max))), "smallest box enclosing both");
}
VC_CONTRACT(measures) {
    auto a = any_box("lo", "hi"); auto v = any_vec3("v"); auto p = any_vec3("p");
    vc_cover("reach");
    vc_check(eq3(a.center(), smul(sadd(a.min, a.max), scalar(0.5))), "center");
    vc_check(eq3(a.size(), ssub(a.max, a.min)), "size");
    auto d = ssub(a.max, a.min);
    vc_check(vc_eq(a.area(), 2 * (d.x * d.y + d.x * d.z + d.y * d.z)), "surface area");
    auto i = a.inset(v);
    vc_check(vc_and(eq3(i.min, sadd(a.min, v)), eq3(i.max, ssub(a.max, v))), "inset");
    auto grown = a.inset(smul(v, -1));
    vc_check(vc_implies(all(0 <= v.x, 0 <= v.y, 0 <= v.z, in(a, p)), in(grown, p)), "negative inset grows the box");
}
VC_CONTRACT(area_monotone) {
    auto a = any_box("alo", "ahi"), b = any_box("blo", "bhi");
    vc_cover("reach");
    auto e = enclosing_aabb(a, b);
    vc_check(vc_le(a.area(), e.area()), "area of the enclosing box is not smaller (first)");
    vc_check(vc_le(b.area(), e.area()), "area of the enclosing box is not smaller (second)");
}
