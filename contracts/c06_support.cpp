// C06: support queries return extreme points of the shape.
#include "vc.hpp"
#include <edyn/math/geom.hpp>
#include <edyn/math/triangle.hpp>
#include <edyn/util/shape_util.hpp>
#include <edyn/shapes/box_shape.hpp>
#include <edyn/shapes/cylinder_shape.hpp>
#include <edyn/shapes/capsule_shape.hpp>

namespace {
const scalar EPS = EDYN_EPSILON;
const scalar BIG = large_scalar;
coordinate_axis any_axis(const char *n) { return static_cast<coordinate_axis>(vc_int(n, 0, 2)); }
scalar ab(scalar v) { return v < 0 ? -v : v; }
vector3 conj_rot(const quaternion &q, const vector3 &v) { quaternion c; c.x = -q.x; c.y = -q.y; c.z = -q.z; c.w = q.w; return srot(c, v); }
vector3 named3(const vector3 &v, const char *a, const char *b, const char *c) { vector3 r; r.x = vc_name(v.x, a); r.y = vc_name(v.y, b); r.z = vc_name(v.z, c); return r; }
vector3 any_half() { vector3 h; h.x = any_gt("hx", 0); h.y = any_gt("hy", 0); h.z = any_gt("hz", 0); return h; }
// any point of the box
vector3 in_box(const vector3 &h) {
    vector3 x; x.x = any_in("xx", -1, 1) * h.x; x.y = any_in("xy", -1, 1) * h.y; x.z = any_in("xz", -1, 1) * h.z; return x;
}
bool is_corner(const vector3 &s, const vector3 &h) {
    return all(vc_or(vc_eq(s.x, h.x), vc_eq(s.x, -h.x)), vc_or(vc_eq(s.y, h.y), vc_eq(s.y, -h.y)), vc_or(vc_eq(s.z, h.z), vc_eq(s.z, -h.z)));
}
// the component of the support of a box along each axis beats every other value
void box_wins(const vector3 &l, const vector3 &s, const vector3 &x) {
    vc_lemma(vc_le(l.x * x.x, l.x * s.x), "x");
    vc_lemma(vc_le(l.y * x.y, l.y * s.y), "y");
    vc_lemma(vc_le(l.z * x.z, l.z * s.z), "z");
}
}

VC_CONTRACT(box_local) {
    auto h = any_half(); auto d = any_vec3("d"); auto x = in_box(h);
    box_shape b{h};
    auto s = b.support_point(d);
    auto s2 = support_point_box(h, d);
    vc_cover("reach");
    vc_check(is_corner(s, h), "a vertex of the box");
    box_wins(d, s, x);
    vc_check(vc_le(sdot(x, d), sdot(s, d)), "no point of the box is further along the direction");
    vc_check(eq3(s, s2), "support_point_box agrees");
}
VC_CONTRACT(box_world) {
    auto h = any_half(); auto d = any_vec3("d"), pos = any_vec3("pos"); auto q = any_quat("q"); auto x = in_box(h);
    auto l = named3(conj_rot(q, d), "lx", "ly", "lz");
    box_shape b{h};
    auto s = ssub(b.support_point(pos, q, d), pos);
    auto r = b.support_point(q, d);
    auto proj = b.support_projection(pos, q, d);
    // the vertex, in object space
    vector3 c; c.x = l.x > 0 ? h.x : -h.x; c.y = l.y > 0 ? h.y : -h.y; c.z = l.z > 0 ? h.z : -h.z;
    vc_cover("reach");
    vc_check(vc_and(eq3(s, r), eq3(s, srot(q, c))), "a vertex of the box in world space");
    box_wins(l, c, x);
    vc_lemma(vc_le(sdot(x, l), sdot(c, l)), "extreme in object space");
    vc_lemma(vc_eq(sdot(srot(q, x), d), sdot(x, l)), "projection of a point of the box");
    vc_lemma(vc_eq(sdot(srot(q, c), d), sdot(c, l)), "projection of the vertex");
    vc_check(vc_le(sdot(srot(q, x), d), sdot(srot(q, c), d)), "no point of the box is further along the direction");
    vc_check(vc_eq(proj, sdot(pos, d) + sdot(c, l)), "the projection is that of the support point");
}

namespace {
// the disc part: v is the planar direction, s the planar support, y any planar point with |y| <= radius
void planar_wins(scalar v0, scalar v1, scalar s0, scalar s1, scalar y0, scalar y1, scalar radius) {
    auto n = v0 * v0 + v1 * v1;
    auto ps = v0 * s0 + v1 * s1, py = v0 * y0 + v1 * y1;
    vc_lemma(vc_le(0, ps), "forward");
    vc_lemma(vc_eq(ps * ps, n * radius * radius), "length of the support");
    vc_lemma(vc_eq(py * py + (v0 * y1 - v1 * y0) * (v0 * y1 - v1 * y0), n * (y0 * y0 + y1 * y1)), "Lagrange");
    vc_lemma(vc_le(n * (y0 * y0 + y1 * y1), n * radius * radius), "bound");
    vc_lemma(vc_le(py * py, ps * ps), "Cauchy-Schwarz");
    vc_check(vc_le(py, ps), "no point of the disc is further along the direction");
}
}
VC_CONTRACT(circle) {
    // object space: identity orientation written as an arbitrary one is covered by circle_world
    auto axis = any_axis("axis"); int a = (int)axis, i = (a + 1) % 3, j = (a + 2) % 3;
    auto d = any_vec3("d"); auto radius = any_gt("radius", 0);
    auto y0 = any("y0"), y1 = any("y1");
    vc_assume(y0 * y0 + y1 * y1 <= radius * radius);
    auto n = d[i] * d[i] + d[j] * d[j];
    vc_assume(vc_or(n == 0, n > EPS));
    auto s = support_point_circle(vector3{0, 0, 0}, quaternion{0, 0, 0, 1}, radius, axis, d);
    vc_cover("reach");
    vc_check(vc_eq(s[a], 0), "in the plane of the circle");
    vc_check(vc_eq(s[i] * s[i] + s[j] * s[j], radius * radius), "on the circle");
    if (n > 0) planar_wins(d[i], d[j], s[i], s[j], y0, y1, radius);
}
namespace {
vector3 g_local;
vector3 spec_rotate(const quaternion &q, const vector3 &v) { return srot(q, v); }
}
VC_CONTRACT(circle_world) {
    auto axis = any_axis("axis"); int a = (int)axis, i = (a + 1) % 3, j = (a + 2) % 3;
    auto d = any_vec3("d"), pos = any_vec3("pos"); auto q = any_quat("q"); auto radius = any_gt("radius", 0);
    auto l = named3(conj_rot(q, d), "lx", "ly", "lz");
    auto n = l[i] * l[i] + l[j] * l[j];
    vc_assume(vc_or(n == 0, n > EPS));
    auto s = support_point_circle(pos, q, radius, axis, d);
    auto c = support_point_circle(vector3{0, 0, 0}, quaternion{0, 0, 0, 1}, radius, axis, l);
    vc_cover("reach");
    vc_check(eq3(s, sadd(pos, srot(q, c))), "the object space support point of the rotated direction, transformed to world space");
}

VC_CONTRACT(cylinder) {
    auto axis = any_axis("axis"); int a = (int)axis, i = (a + 1) % 3, j = (a + 2) % 3;
    auto d = any_vec3("d"); auto radius = any_gt("radius", 0), hl = any_gt("hl", 0);
    auto y0 = any("y0"), y1 = any("y1"); auto y = any_in("y", -1, 1) * hl;
    vc_assume(y0 * y0 + y1 * y1 <= radius * radius);
    auto n = d[i] * d[i] + d[j] * d[j];
    vc_assume(vc_or(n == 0, n > EPS));
    auto s = cylinder_support_point(radius, hl, axis, d);
    vc_cover("reach");
    vc_check(vc_or(vc_eq(s[a], hl), vc_eq(s[a], -hl)), "on a cap");
    vc_check(vc_le(y * d[a], s[a] * d[a]), "no point is further along the axis part of the direction");
    vc_check(vc_eq(s[i] * s[i] + s[j] * s[j], radius * radius), "on the rim");
    if (n > 0) planar_wins(d[i], d[j], s[i], s[j], y0, y1, radius);
}
VC_CONTRACT(cylinder_world) {
    auto axis = any_axis("axis"); int a = (int)axis, i = (a + 1) % 3, j = (a + 2) % 3;
    auto d = any_vec3("d"), pos = any_vec3("pos"); auto q = any_quat("q"); auto radius = any_gt("radius", 0), hl = any_gt("hl", 0);
    auto l = named3(conj_rot(q, d), "lx", "ly", "lz");
    auto n = l[i] * l[i] + l[j] * l[j];
    vc_assume(vc_or(n == 0, n > EPS));
    cylinder_shape sh{radius, hl, axis};
    auto c = cylinder_support_point(radius, hl, axis, l);
    vc_cover("reach");
    auto w = sadd(pos, srot(q, c));
    vc_check(eq3(cylinder_support_point(radius, hl, axis, q, d), srot(q, c)), "rotated support point");
    vc_check(eq3(cylinder_support_point(radius, hl, axis, pos, q, d), w), "world space support point");
    vc_check(eq3(sh.support_point(pos, q, d), w), "shape support point");
    vc_check(vc_eq(sh.support_projection(pos, q, d), sdot(pos, d) + sdot(c, l)), "shape projection");
    vc_check(vc_eq(cylinder_support_projection(radius, hl, axis, pos, q, d), sdot(pos, d) + sdot(c, l)), "projection is that of the support point");
    auto x = any_vec3("x");
    vc_check(vc_eq(sdot(srot(q, x), d), sdot(x, l)), "world projections equal object space projections");
}

VC_CONTRACT(capsule) {
    auto v0 = any_vec3("v0"), v1 = any_vec3("v1"), d = any_unit3("d"), u = any_vec3("u");
    auto radius = any_gt("radius", 0); auto t = any_in("t", 0, 1);
    auto a = vc_name(sdot(v0, d), "a"), b = vc_name(sdot(v1, d), "b"), ud = vc_name(sdot(u, d), "ud"), uu = vc_name(slen2(u), "uu");
    vc_assume(uu <= radius * radius);
    auto proj = capsule_support_projection(v0, v1, radius, d);
    auto proj2 = capsule_support_projection(std::array<vector3, 2>{v0, v1}, radius, d);
    vc_cover("reach");
    auto cr = named3(scross(u, d), "crx", "cry", "crz");
    vc_lemma(vc_eq(ud * ud + slen2(cr), uu), "Lagrange");
    vc_lemma(vc_le(ud * ud, radius * radius), "Cauchy-Schwarz");
    vc_lemma(vc_le(ud, radius), "extent of the sphere");
    vc_check(vc_le(a + (b - a) * t + ud, proj), "no point of the capsule is further along the direction");
    vc_check(vc_or(vc_eq(proj, a + radius), vc_eq(proj, b + radius)), "attained by a point of the capsule");
    vc_check(vc_eq(proj, proj2), "array form agrees");
}
VC_CONTRACT(capsule_vertices) {
    auto pos = any_vec3("pos"); auto q = any_quat("q"); auto radius = any_gt("radius", 0), hl = any_gt("hl", 0);
    auto axis = any_axis("axis");
    vector3 e{0, 0, 0}; e[(int)axis] = 1;
    auto v = capsule_shape{radius, hl, axis}.get_vertices(pos, q);
    auto w = cylinder_shape{radius, hl, axis}.get_vertices(pos, q);
    auto r = smul(srot(q, e), hl);
    vc_cover("reach");
    vc_check(vc_and(eq3(v[0], sadd(pos, r)), eq3(v[1], ssub(pos, r))), "capsule ends along its axis");
    vc_check(vc_and(eq3(w[0], sadd(pos, r)), eq3(w[1], ssub(pos, r))), "cylinder cap centres along its axis");
}

namespace {
bool bounded(scalar v) { return vc_and(v < BIG, v > -BIG); }
template<size_t N> void vertices_support() {
    const char *names[] = {"v0", "v1", "v2", "v3"};
    std::array<vector3, N> v; scalar p[N];
    auto d = any_vec3("d");
    for (size_t i = 0; i < N; ++i) { v[i] = any_vec3(names[i]); p[i] = vc_name(sdot(v[i], d), names[i]); vc_assume(bounded(p[i])); }
    size_t idx = 77; scalar proj = 0;
    support_point_vertices(v, d, idx, proj);
    vc_cover("reach");
    vc_check(idx < N, "a vertex index");
    vc_assume(idx < N);
    for (size_t i = 0; i < N; ++i) vc_check(vc_le(p[i], proj), "no vertex is further along the direction");
    vc_check(vc_eq(proj, p[idx]), "the projection is that of the vertex");
}
}
VC_CONTRACT(vertices3) { vertices_support<3>(); }
VC_CONTRACT(vertices4) { vertices_support<4>(); }

VC_CONTRACT(triangle_support) {
    triangle_vertices v; v[0] = any_vec3("v0"); v[1] = any_vec3("v1"); v[2] = any_vec3("v2");
    auto d = any_vec3("d");
    scalar p[3] = {vc_name(sdot(v[0], d), "p0"), vc_name(sdot(v[1], d), "p1"), vc_name(sdot(v[2], d), "p2")};
    vc_assume(all(bounded(p[0]), bounded(p[1]), bounded(p[2])));
    auto s = get_triangle_support_point(v, d);
    auto proj = get_triangle_support_projection(v, d);
    vc_cover("reach");
    vc_check(vc_or(eq3(s, v[0]), vc_or(eq3(s, v[1]), eq3(s, v[2]))), "a vertex of the triangle");
    for (int i = 0; i < 3; ++i) vc_check(vc_le(p[i], sdot(s, d)), "no vertex is further along the direction");
    vc_check(vc_eq(proj, sdot(s, d)), "the projection is that of the support point");
}
VC_CONTRACT(triangle_feature) {
    triangle_vertices v; auto o = any_vec3("o"); auto d = any_vec3("d");
    v[0] = sadd(o, any_vec3("r0")); v[1] = sadd(o, any_vec3("r1")); v[2] = sadd(o, any_vec3("r2"));
    scalar p[3] = {vc_name(sdot(ssub(v[0], o), d), "p0"), vc_name(sdot(ssub(v[1], o), d), "p1"), vc_name(sdot(ssub(v[2], o), d), "p2")};
    auto thr = any_gt("thr", 0);
    vc_assume(all(bounded(p[0]), bounded(p[1]), bounded(p[2])));
    triangle_feature f = static_cast<triangle_feature>(vc_int("f0", 0, 2)); size_t idx = 9; scalar proj = 0;
    get_triangle_support_feature(v, o, d, f, idx, proj, thr);
    vc_cover("reach");
    vc_check(vc_or(vc_eq(proj, p[0]), vc_or(vc_eq(proj, p[1]), vc_eq(proj, p[2]))), "the projection is that of a vertex");
    for (int i = 0; i < 3; ++i) vc_check(vc_le(p[i], proj), "no vertex is further along the direction");
    bool in[3] = {true, true, true};
    if (f == triangle_feature::vertex) { vc_check(idx < 3, "a vertex index"); for (size_t i = 0; i < 3; ++i) in[i] = i == idx; }
    else if (f == triangle_feature::edge) { vc_check(idx < 3, "an edge index"); for (size_t i = 0; i < 3; ++i) in[i] = i == idx || i == (idx + 1) % 3; }
    for (int i = 0; i < 3; ++i) {
        if (in[i]) vc_check(vc_lt(proj - 2 * thr, p[i]), "the vertices of the feature are at the extreme within tolerance");
        else vc_check(vc_le(p[i], proj - thr), "no vertex at the extreme within tolerance is left out");
    }
    vc_check(vc_and(get_triangle_feature_num_vertices(f) == (f == triangle_feature::vertex ? 1u : f == triangle_feature::edge ? 2u : 3u),
                    get_triangle_feature_num_edges(f) == (f == triangle_feature::vertex ? 0u : f == triangle_feature::edge ? 1u : 3u)), "number of vertices and edges of the feature");
}

VC_CONTRACT(box_feature) {
    auto h = any_half(); auto d = any_vec3("d"); auto thr = any_gt("thr", 0);
    vc_assume(all(vc_or(d.x != 0, vc_or(d.y != 0, d.z != 0))));
    box_shape b{h};
    box_feature f = box_feature::face; size_t idx = 99; scalar proj = 0;
    scalar c[3] = {vc_name(h.x * d.x, "cx"), vc_name(h.y * d.y, "cy"), vc_name(h.z * d.z, "cz")};
    vc_assume(all(bounded(c[0]), bounded(c[1]), bounded(c[2])));
    b.support_feature(d, f, idx, proj, thr);
    vc_cover("reach");
    vc_check(vc_eq(proj, ab(c[0]) + ab(c[1]) + ab(c[2])), "the projection is the greatest over the box");
    auto dot_of = [&](const vector3 &v) { return sdot(v, d); };
    if (f == box_feature::vertex) {
        vc_cover("vertex");
        vc_check(idx < 8, "a vertex index");
        vc_check(vc_eq(dot_of(b.get_vertex(idx)), proj), "the vertex is the extreme one");
    } else if (f == box_feature::edge) {
        vc_cover("edge");
        vc_check(idx < 12, "an edge index");
        auto e = b.get_edge(idx);
        vc_check(vc_or(vc_eq(dot_of(e[0]), proj), vc_eq(dot_of(e[1]), proj)), "an end of the edge is extreme");
        vc_check(vc_and(vc_lt(proj - thr, dot_of(e[0])), vc_lt(proj - thr, dot_of(e[1]))), "both ends of the edge are at the extreme within tolerance");
    } else {
        vc_cover("face");
        vc_check(idx < 6, "a face index");
        auto g = b.get_face(idx);
        for (int i = 0; i < 4; ++i) vc_check(vc_lt(proj - thr, dot_of(g[i])), "the vertices of the face are at the extreme within tolerance");
        auto n = b.get_face_normal(idx);
        for (int i = 0; i < 3; ++i) vc_check(vc_le(ab(d[i]), sdot(n, d)), "the face is the one best aligned with the direction");
    }
    // the support face has the extreme vertex; a smaller feature is only chosen when the rest of the face is beyond the tolerance
    auto face = b.get_face(b.support_face_index(d));
    size_t near = 0;
    for (int i = 0; i < 4; ++i) if (dot_of(face[i]) > proj - thr) ++near;
    vc_check((near == 1) == (f == box_feature::vertex), "a vertex exactly when no other vertex of the support face is within tolerance");
    vc_check((near == 4) == (f == box_feature::face), "a face exactly when all its vertices are within tolerance");
}
VC_CONTRACT(box_feature_world) {
    auto h = any_half(); auto d = any_vec3("d"), pos = any_vec3("pos"), o = any_vec3("o"); auto q = any_quat("q"); auto thr = any_gt("thr", 0);
    auto l = named3(conj_rot(q, d), "lx", "ly", "lz");
    vc_assume(all(vc_or(l.x != 0, vc_or(l.y != 0, l.z != 0)), h.x * l.x < BIG, h.x * l.x > -BIG, h.y * l.y < BIG, h.y * l.y > -BIG, h.z * l.z < BIG, h.z * l.z > -BIG));
    vc_assume(all(0 < l.x, 0 < l.y, 0 < l.z, l.y < l.x, l.z < l.x));   // the other cases differ only inside the object space query
    box_shape b{h};
    box_feature f0 = box_feature::face, f1 = f0, f2 = f0; size_t i0 = 99, i1 = 99, i2 = 99; scalar p0 = 0, p1 = 0;
    b.support_feature(l, f0, i0, p0, thr);
    b.support_feature(pos, q, o, d, f1, i1, p1, thr);
    b.support_feature(pos, q, d, f2, i2, thr);
    vc_cover("reach");
    vc_check(vc_and(f0 == f1, i0 == i1), "world space query gives the feature of the rotated direction");
    vc_check(vc_and(f0 == f2, i0 == i2), "world space query without projection gives the feature of the rotated direction");
    vc_check(vc_eq(p1, p0 + sdot(ssub(pos, o), d)), "projection relative to the axis position");
}

VC_CONTRACT(cylinder_feature) {
    auto axis = any_axis("axis"); int a = (int)axis, i = (a + 1) % 3, j = (a + 2) % 3;
    auto d = any_vec3("d"), pos = any_vec3("pos"); auto radius = any_gt("radius", 0), hl = any_gt("hl", 0), thr = any_gt("thr", 0);
    cylinder_shape sh{radius, hl, axis};
    cylinder_feature f = cylinder_feature::face; size_t idx = 9;
    sh.support_feature(d, f, idx, thr);
    vc_cover("reach");
    auto cap2 = 4 * radius * radius * (d[i] * d[i] + d[j] * d[j]);
    auto side = ab(2 * hl * d[a]);
    vc_check((f == cylinder_feature::face) == (cap2 < thr * thr), "a cap exactly when its extent along the direction is within tolerance");
    vc_check((f == cylinder_feature::side_edge) == (!(cap2 < thr * thr) && side < thr), "a side edge exactly when its extent along the direction is within tolerance and no cap is");
    if (f != cylinder_feature::side_edge) {
        vc_check(idx < 2, "index of a cap");
        vc_check(vc_implies(d[a] != 0, vc_lt(0, (idx == 0 ? 1 : -1) * d[a])), "the cap on the side of the direction");
    }
}
VC_CONTRACT(cylinder_feature_world) {
    auto d = any_vec3("d"), pos = any_vec3("pos"); auto q = any_quat("q"); auto radius = any_gt("radius", 0), hl = any_gt("hl", 0), thr = any_gt("thr", 0);
    auto axis = any_axis("axis");
    auto l = named3(conj_rot(q, d), "lx", "ly", "lz");
    cylinder_shape sh{radius, hl, axis};
    cylinder_feature f = cylinder_feature::face, g = f; size_t i = 9, j = 9;
    sh.support_feature(l, f, i, thr);
    sh.support_feature(pos, q, d, g, j, thr);
    vc_cover("reach");
    vc_check(vc_and(f == g, i == j), "world space query gives the feature of the rotated direction");
}
