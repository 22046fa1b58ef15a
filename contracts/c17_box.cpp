// C17: the vertices, edges and faces of a box agree with each other and with the box's geometry.
#include "vc.hpp"
#include <edyn/shapes/box_shape.hpp>
#include <edyn/math/transform.hpp>

namespace {
vector3 any_half() { vector3 h; h.x = any_gt("hx", 0); h.y = any_gt("hy", 0); h.z = any_gt("hz", 0); return h; }
bool comp_is_extent(scalar v, scalar h) { return vc_or(vc_eq(v, h), vc_eq(v, -h)); }
vector3 axis_of(size_t face) { vector3 n{0, 0, 0}; n[face / 2] = face % 2 == 0 ? 1 : -1; return n; }
bool same(const vector3 &a, const vector3 &b) { return eq3(a, b); }
scalar comp(const vector3 &v, size_t i) { return i == 0 ? v.x : i == 1 ? v.y : v.z; }
vector3 world(const vector3 &v, const vector3 &pos, const quaternion &q) { return sadd(pos, srot(q, v)); }
}

VC_CONTRACT(vertices) {
    box_shape b{any_half()};
    auto i = vc_int("i", 0, 7), j = vc_int("j", 0, 7);
    auto v = b.get_vertex(i), w = b.get_vertex(j);
    vc_cover("reach");
    vc_check(all(comp_is_extent(v.x, b.half_extents.x), comp_is_extent(v.y, b.half_extents.y), comp_is_extent(v.z, b.half_extents.z)), "a vertex is a corner of the box");
    vc_check(vc_implies(i != j, vc_not(vc_and(v.x == w.x, vc_and(v.y == w.y, v.z == w.z)))), "distinct indices name distinct corners");
    vc_check(get_box_num_features(box_feature::vertex) == 8, "eight vertices");
    vc_check(get_box_num_features(box_feature::edge) == 12, "twelve edges");
    vc_check(get_box_num_features(box_feature::face) == 6, "six faces");
    vc_check(get_box_feature_num_vertices(box_feature::vertex) == 1 && get_box_feature_num_vertices(box_feature::edge) == 2 && get_box_feature_num_vertices(box_feature::face) == 4, "vertices of each kind of feature");
}
VC_CONTRACT(edges) {
    box_shape b{any_half()};
    auto i = vc_int("i", 0, 11), j = vc_int("j", 0, 11);
    auto e = b.get_edge(i), g = b.get_edge(j);
    int differ = 0;
    for (size_t k = 0; k < 3; ++k) if (comp(e[0], k) != comp(e[1], k)) ++differ;
    vc_cover("reach");
    vc_check(differ == 1, "the ends of an edge differ along exactly one axis");
    bool corner = true;
    for (size_t k = 0; k < 3; ++k) corner = vc_and(corner, vc_and(comp_is_extent(comp(e[0], k), comp(b.half_extents, k)), comp_is_extent(comp(e[1], k), comp(b.half_extents, k))));
    vc_check(corner, "the ends of an edge are corners of the box");
    vc_check(vc_implies(i != j, vc_not(vc_or(vc_and(same(e[0], g[0]), same(e[1], g[1])), vc_and(same(e[0], g[1]), same(e[1], g[0]))))), "distinct indices name distinct edges");
    auto a = box_shape::edge_indices[i * 2], c = box_shape::edge_indices[i * 2 + 1];
    vc_check(vc_and(same(b.get_vertex(a), e[0]), same(b.get_vertex(c), e[1])), "edge_indices name the ends of the edge");
    vc_check(vc_and(b.get_edge_index(a, c) == i, b.get_edge_index(c, a) == i), "get_edge_index finds the edge from its vertices in either order");
}
VC_CONTRACT(faces) {
    box_shape b{any_half()};
    auto f = vc_int("f", 0, 5);
    auto g = b.get_face(f);
    auto n = b.get_face_normal(f);
    auto h = comp(b.half_extents, f / 2);
    vc_cover("reach");
    vc_check(same(n, axis_of(f)), "the face normal is the outward axis of the face");
    for (size_t k = 0; k < 4; ++k) {
        vc_check(vc_eq(sdot(g[k], n), h), "the vertices of a face are on its plane");
        vc_check(same(g[k], b.get_vertex(b.get_vertex_index_from_face(f, k))), "get_vertex_index_from_face names the vertices of the face");
        auto e0 = ssub(g[(k + 1) % 4], g[k]), e1 = ssub(g[(k + 2) % 4], g[(k + 1) % 4]);
        vc_check(vc_lt(0, sdot(scross(e0, e1), n)), "the vertices wind counter-clockwise about the outward normal");
        int differ = 0;
        for (size_t c = 0; c < 3; ++c) if (comp(g[k], c) != comp(g[(k + 1) % 4], c)) ++differ;
        vc_check(differ == 1, "consecutive vertices of a face are joined by an edge");
        auto ei = b.get_face_edge_index(f, k);
        vc_check(ei < 12, "get_face_edge_index gives an edge");
        vc_assume(ei < 12);
        auto e = b.get_edge(ei);
        vc_check(vc_and(vc_eq(sdot(e[0], n), h), vc_eq(sdot(e[1], n), h)), "the edges of a face are on its plane");
        for (size_t m = 0; m < k; ++m) vc_check(b.get_face_edge_index(f, m) != ei, "the edges of a face are distinct");
    }
}
VC_CONTRACT(edge_faces) {
    box_shape b{any_half()};
    auto i = vc_int("i", 0, 11);
    auto e = b.get_edge(i);
    auto f = b.get_edge_face_indices(i);
    vc_cover("reach");
    vc_check(vc_and(f[0] < 6, vc_and(f[1] < 6, f[0] != f[1])), "two distinct faces");
    vc_assume(vc_and(f[0] < 6, f[1] < 6));
    auto ns = b.get_edge_face_normals(i);
    auto q = any_quat("q");
    auto ws = b.get_edge_face_normals(i, q);
    for (int k = 0; k < 2; ++k) {
        auto n = b.get_face_normal(f[k]);
        auto h = comp(b.half_extents, f[k] / 2);
        vc_check(vc_and(vc_eq(sdot(e[0], n), h), vc_eq(sdot(e[1], n), h)), "the edge lies on both faces");
        vc_check(same(ns[k], n), "get_edge_face_normals gives the normals of these faces");
        vc_check(same(ws[k], srot(q, n)), "the rotated normals are those of the rotated faces");
    }
}
VC_CONTRACT(world_vertex) {
    box_shape b{any_half()};
    auto pos = any_vec3("pos"); auto q = any_quat("q");
    auto i = vc_int("i", 0, 7);
    vc_cover("reach");
    vc_check(same(b.get_vertex(i, pos, q), world(b.get_vertex(i), pos, q)), "vertex in world space");
}
VC_CONTRACT(world_edge) {
    box_shape b{any_half()};
    auto pos = any_vec3("pos"); auto q = any_quat("q");
    auto j = vc_int("j", 0, 11);
    vc_cover("reach");
    auto e = b.get_edge(j), ew = b.get_edge(j, pos, q);
    vc_check(vc_and(same(ew[0], world(e[0], pos, q)), same(ew[1], world(e[1], pos, q))), "edge in world space");
}
VC_CONTRACT(world_face) {
    box_shape b{any_half()};
    auto pos = any_vec3("pos"); auto q = any_quat("q");
    auto f = vc_int("f", 0, 5);
    vc_cover("reach");
    auto g = b.get_face(f), gw = b.get_face(f, pos, q);
    for (int k = 0; k < 4; ++k) vc_check(same(gw[k], world(g[k], pos, q)), "face in world space");
    auto n = b.get_face_normal(f);
    vc_check(same(b.get_face_normal(f, q), srot(q, n)), "face normal in world space");
    auto c = smul(sadd(sadd(g[0], g[1]), sadd(g[2], g[3])), scalar(0.25));
    vc_check(same(b.get_face_center(f, pos, q), world(c, pos, q)), "the face center is the mean of its vertices");
}
VC_CONTRACT(face_basis) {
    box_shape b{any_half()};
    auto q = any_quat("q");
    auto f = vc_int("f", 0, 5);
    auto m = b.get_face_basis(f, q);
    auto he = b.get_face_half_extents(f);
    auto n = b.get_face_normal(f);
    vector3 x{m.row[0].x, m.row[1].x, m.row[2].x}, y{m.row[0].y, m.row[1].y, m.row[2].y}, z{m.row[0].z, m.row[1].z, m.row[2].z};
    vc_cover("reach");
    vc_check(same(y, srot(q, n)), "the second column is the face normal");
    // the basis of the unrotated box, and its rotation
    auto l = b.get_face_basis(f, quaternion{0, 0, 0, 1});
    vector3 lx{l.row[0].x, l.row[1].x, l.row[2].x}, ly{l.row[0].y, l.row[1].y, l.row[2].y}, lz{l.row[0].z, l.row[1].z, l.row[2].z};
    vc_check(all(vc_eq(slen2(lx), 1), vc_eq(slen2(lz), 1), vc_eq(sdot(lx, ly), 0), vc_eq(sdot(ly, lz), 0), vc_eq(sdot(lx, lz), 0)), "the basis is orthonormal");
    vc_check(same(scross(lx, ly), lz), "the basis is right handed");
    vc_check(all(same(x, srot(q, lx)), same(y, srot(q, ly)), same(z, srot(q, lz))), "the basis rotates with the box");
    auto g = b.get_face(f);
    for (int k = 0; k < 4; ++k) {
        vc_check(vc_and(comp_is_extent(sdot(g[k], lx), he.x), comp_is_extent(sdot(g[k], lz), he.y)), "the half extents are those of the face along the basis");
    }
}
namespace {
scalar ab(scalar v) { return v < 0 ? -v : v; }
}
VC_CONTRACT(closest_feature) {
    box_shape b{any_half()};
    auto h = b.half_extents;
    auto f = vc_int("f", 0, 5);
    auto tol = any_gt("tol", 0);
    vector3 p; p.x = any_in("px", -1, 1) * h.x; p.y = any_in("py", -1, 1) * h.y; p.z = any_in("pz", -1, 1) * h.z;
    vc_assume(all(tol < h.x, tol < h.y, tol < h.z));
    auto n = axis_of(f);
    vc_assume(sdot(p, n) > 0);
    auto r = b.get_closest_feature_on_face(f, p, tol);
    // in-plane coordinates within the tolerance of the border of the face
    bool near[3];
    int count = 0;
    for (size_t k = 0; k < 3; ++k) { near[k] = k != f / 2 && ab(comp(p, k)) > comp(h, k) - tol; if (near[k]) ++count; }
    vc_cover("reach");
    vc_check((r.first == box_feature::face) == (count == 0), "the face exactly when the point is not near its border");
    vc_check((r.first == box_feature::edge) == (count == 1), "an edge exactly when the point is near one border");
    vc_check((r.first == box_feature::vertex) == (count == 2), "a vertex exactly when the point is near two borders");
    auto fits = [&](const vector3 &v) {
        bool ok = vc_eq(sdot(v, n), comp(h, f / 2));
        for (size_t k = 0; k < 3; ++k) if (near[k]) ok = vc_and(ok, vc_lt(0, comp(v, k) * comp(p, k)));
        return ok;
    };
    if (r.first == box_feature::face) { vc_check(r.second == f, "the face asked for"); }
    else if (r.first == box_feature::edge) {
        vc_check(r.second < 12, "an edge index");
        vc_assume(r.second < 12);
        auto e = b.get_edge(r.second);
        vc_check(vc_and(fits(e[0]), fits(e[1])), "the edge of this face on the side the point is near");
    } else {
        vc_check(r.second < 8, "a vertex index");
        vc_assume(r.second < 8);
        vc_check(fits(b.get_vertex(r.second)), "the vertex of this face in the corner the point is near");
    }
}
VC_CONTRACT(support_face) {
    box_shape b{any_half()};
    auto d = any_vec3("d");
    vc_assume(vc_or(d.x != 0, vc_or(d.y != 0, d.z != 0)));
    auto f = b.support_face_index(d);
    vc_cover("reach");
    vc_check(f < 6, "a face index");
    vc_assume(f < 6);
    auto n = b.get_face_normal(f);
    for (size_t k = 0; k < 3; ++k) vc_check(vc_le(ab(comp(d, k)), sdot(n, d)), "no other face is better aligned with the direction");
}
