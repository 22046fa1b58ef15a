// C16: triangle meshes - adjacency, normals, convexity, queries and per-vertex materials.
#include "vc.hpp"
#include <edyn/shapes/triangle_mesh.hpp>
#include <edyn/util/shape_util.hpp>
#include <edyn/math/triangle.hpp>

static triangle_mesh make(const std::vector<vector3> &v, const std::vector<uint32_t> &idx) {
    triangle_mesh m;
    m.insert_vertices(v.begin(), v.end());
    m.insert_indices(idx.begin(), idx.end());
    m.initialize();
    return m;
}
static bool same3(const vector3 &a, const vector3 &b) { return all(a.x == b.x, a.y == b.y, a.z == b.z); }

// combinatorial structure: what the adjacency queries say is what the list of triangles says
static void check_structure(const triangle_mesh &m, const std::vector<vector3> &v, const std::vector<uint32_t> &idx) {
    auto nf = idx.size() / 3;
    vc_check(m.num_vertices() == v.size(), "every vertex is kept");
    vc_check(m.num_triangles() == nf, "every triangle is kept");
    auto ne = m.num_edges();
    for (size_t f = 0; f < nf; ++f) {
        auto tv = m.get_triangle_vertices(f);
        for (size_t i = 0; i < 3; ++i) {
            auto a = idx[f * 3 + i], b = idx[f * 3 + (i + 1) % 3];
            vc_check(m.get_face_vertex_index(f, i) == a, "triangles keep the order of their vertices");
            vc_check(same3(tv[i], v[a]), "triangles keep the positions of their vertices");
            vc_check(same3(m.get_vertex_position(a), v[a]), "vertices keep their positions");
            auto e = m.get_face_edge_index(f, i);
            vc_check(e < ne, "edges of a triangle exist");
            auto ev = m.get_edge_vertex_indices(e);
            vc_check((ev[0] == a && ev[1] == b) || (ev[0] == b && ev[1] == a), "edge i of a triangle joins its vertices i and i + 1");
            auto ep = m.get_edge_vertices(e);
            vc_check(vc_and(same3(ep[0], v[ev[0]]), same3(ep[1], v[ev[1]])), "edges are at the positions of their vertices");
            vc_check(get_triangle_mesh_feature_index(m, f, triangle_feature::edge, i) == e, "edge feature of the mesh");
            vc_check(get_triangle_mesh_feature_index(m, f, triangle_feature::vertex, i) == a, "vertex feature of the mesh");
            vc_check(get_triangle_mesh_feature_index(m, f, triangle_feature::face, i) == f, "face feature of the mesh");
        }
    }
    for (size_t e = 0; e < ne; ++e) {
        auto ev = m.get_edge_vertex_indices(e);
        for (size_t g = 0; g < e; ++g) {
            auto gv = m.get_edge_vertex_indices(g);
            vc_check(!((gv[0] == ev[0] && gv[1] == ev[1]) || (gv[0] == ev[1] && gv[1] == ev[0])), "edges are distinct");
        }
        size_t users = 0;
        for (size_t f = 0; f < nf; ++f) for (size_t i = 0; i < 3; ++i) if (m.get_face_edge_index(f, i) == e) { ++users; break; }
        auto uses = [&](size_t f) { return m.get_face_edge_index(f, 0) == e || m.get_face_edge_index(f, 1) == e || m.get_face_edge_index(f, 2) == e; };
        vc_check(users >= 1, "every edge is that of a triangle");
        auto ef = m.get_edge_face_indices(e);
        vc_check(ef[0] < nf && ef[1] < nf && uses(ef[0]) && uses(ef[1]), "the faces of an edge have it");
        vc_check((users == 1) == (ef[0] == ef[1]), "an edge has two faces when two triangles share it");
        vc_check(m.is_boundary_edge(e) == (users == 1), "an edge is at the boundary exactly when a single triangle has it");
        if (users == 1) vc_check(m.is_convex_edge(e), "boundary edges are convex");
    }
    size_t count = 0;
    m.visit_all([&](size_t i, const triangle_vertices &tv) {
        vc_check(i == count, "all triangles are visited in order");
        for (size_t k = 0; k < 3; ++k) vc_check(same3(tv[k], v[idx[i * 3 + k]]), "visited triangles have their vertices");
        ++count;
    });
    vc_check(count == nf, "all triangles are visited");
}
// the normal of a triangle is perpendicular to it, of unit length and on the side from where it is counter-clockwise
static void check_normals(const triangle_mesh &m, const std::vector<vector3> &v, const std::vector<uint32_t> &idx) {
    for (size_t f = 0; f < idx.size() / 3; ++f) {
        auto &a = v[idx[f * 3]], &b = v[idx[f * 3 + 1]], &c = v[idx[f * 3 + 2]];
        auto n = m.get_triangle_normal(f);
        vc_check(vc_eq(slen2(n), 1), "normals have unit length");
        vc_check(vc_eq(sdot(n, ssub(b, a)), 0), "normals are perpendicular to the first edge");
        vc_check(vc_eq(sdot(n, ssub(c, a)), 0), "normals are perpendicular to the third edge");
        vc_check(vc_lt(0, sdot(n, scross(ssub(b, a), ssub(c, a)))), "triangles are counter-clockwise about their normals");
    }
}
static void check_adjacent(const triangle_mesh &m, const std::vector<vector3> &v, const std::vector<uint32_t> &idx) {
    for (size_t f = 0; f < idx.size() / 3; ++f) {
        auto n = m.get_triangle_normal(f);
        for (size_t i = 0; i < 3; ++i) {
            auto e = m.get_face_edge_index(f, i);
            auto ef = m.get_edge_face_indices(e);
            auto adj = m.get_adjacent_face_normal(f, i);
            if (m.is_boundary_edge(e)) {
                auto &a = v[idx[f * 3 + i]], &b = v[idx[f * 3 + (i + 1) % 3]], &c = v[idx[f * 3 + (i + 2) % 3]];
                auto d = ssub(b, a);
                vc_check(vc_eq(slen2(adj), 1), "adjacent normal at the boundary has unit length");
                vc_check(vc_lt(sdot(adj, n), 0), "adjacent normal at the boundary faces away");
                vc_check(vc_lt(sdot(adj, scross(n, d)), 0), "adjacent normal at the boundary points out of the triangle");
                vc_check(vc_eq(sdot(adj, d), 0), "adjacent normal at the boundary is perpendicular to the edge");
                (void)c;
            } else {
                auto o = ef[0] == f ? ef[1] : ef[0];
                if (ef[0] == f || ef[1] == f) vc_check(same3(adj, m.get_triangle_normal(o)), "adjacent normal is that of the other triangle of the edge");
            }
        }
    }
}

static const vector3 fixed_pos[6] = {{0, 0, 0}, {1, 0, 0}, {0, 0, -1}, {1, scalar(0.25), -1}, {scalar(0.5), scalar(-0.5), 1}, {-1, scalar(0.125), 1}};

// no three on a line
static const vector3 flat_pos[5] = {{0, 0, 0}, {4, 0, 0}, {0, 0, -3}, {3, 0, -4}, {1, 0, 2}};

// every way in which a second triangle can meet the first: apart, at a vertex, at an edge in either direction, at all three vertices
static void pairs(uint32_t a) {
    std::vector<vector3> v(flat_pos, flat_pos + 5);
    for (uint32_t b = 0; b < 5; ++b) for (uint32_t c = 0; c < 5; ++c) {
        if (a == b || b == c || a == c) continue;
        std::vector<uint32_t> idx {0, 1, 2, a, b, c};
        auto m = make(v, idx);
        check_structure(m, v, idx);
        check_adjacent(m, v, idx);
    }
    vc_cover("all pairs");
}
VC_CONTRACT(adjacency_pairs_0) { pairs(0); }
VC_CONTRACT(adjacency_pairs_1) { pairs(1); }
VC_CONTRACT(adjacency_pairs_2) { pairs(2); }
VC_CONTRACT(adjacency_pairs_3) { pairs(3); }
VC_CONTRACT(adjacency_pairs_4) { pairs(4); }
// three triangles: strips, fans, triangles around a vertex
static void triples(size_t second_triangle) {
    std::vector<vector3> v(flat_pos, flat_pos + 5);
    const uint32_t second[4][3] = {{1, 0, 3}, {2, 1, 3}, {3, 0, 4}, {3, 4, 1}};
    auto &s = second[second_triangle];
    for (uint32_t a = 0; a < 5; ++a) for (uint32_t b = 0; b < 5; ++b) for (uint32_t c = 0; c < 5; ++c) {
        if (a == b || b == c || a == c || a > b || a > c) continue;
        std::vector<uint32_t> idx {0, 1, 2, s[0], s[1], s[2], a, b, c};
        // at most two triangles share an edge
        bool manifold = true;
        for (int p = 0; p < 5; ++p) for (int q = p + 1; q < 5; ++q) {
            int n = 0;
            for (int f = 0; f < 3; ++f) {
                int k = 0;
                for (int i = 0; i < 3; ++i) k += idx[f * 3 + i] == uint32_t(p) || idx[f * 3 + i] == uint32_t(q);
                n += k == 2;
            }
            manifold = manifold && n <= 2;
        }
        if (!manifold) continue;
        auto m = make(v, idx);
        check_structure(m, v, idx);
        check_adjacent(m, v, idx);
    }
    vc_cover("all triples");
}
VC_CONTRACT(adjacency_triples_0) { triples(0); }
VC_CONTRACT(adjacency_triples_1) { triples(1); }
VC_CONTRACT(adjacency_triples_2) { triples(2); }
VC_CONTRACT(adjacency_triples_3) { triples(3); }
// closed mesh: no boundary, every edge convex for an apex above the base
VC_CONTRACT(tetrahedron) {
    scalar h = any_in("height", scalar(0.1), 10);
    std::vector<vector3> v {{0, 0, 0}, {4, 0, 0}, {0, 0, -4}, {1, h, -1}};
    std::vector<uint32_t> idx {0, 2, 1, 0, 1, 3, 1, 2, 3, 2, 0, 3};
    auto m = make(v, idx);
    vc_check(m.num_edges() == 6, "a tetrahedron has six edges");
    check_structure(m, v, idx);
    check_normals(m, v, idx);
    check_adjacent(m, v, idx);
    for (size_t e = 0; e < 6; ++e) {
        vc_check(!m.is_boundary_edge(e), "a closed mesh has no boundary");
        vc_check(m.is_convex_edge(e), "edges of a tetrahedron are convex");
    }
    vc_cover("tetrahedron");
}
// a triangle whose first edge is along an axis
static std::vector<vector3> axis_triangle(int axis) {
    vector3 a = any_vec3("a"), e {0, 0, 0}, g = any_vec3("g");
    scalar l = any_in("l", scalar(0.1), 100);
    e[axis] = l;
    scalar y = g[(axis + 1) % 3], z = g[(axis + 2) % 3];
    vc_assume(y * y + z * z > scalar(0.01));
    return {a, sadd(a, e), sadd(a, g)};
}
static void single(int axis) {
    auto v = axis_triangle(axis);
    std::vector<uint32_t> idx {0, 1, 2};
    auto m = make(v, idx);
    check_structure(m, v, idx);
    check_normals(m, v, idx);
    auto box = m.get_aabb();
    for (auto &p : v) vc_check(all(box.min.x <= p.x, box.min.y <= p.y, box.min.z <= p.z, p.x <= box.max.x, p.y <= box.max.y, p.z <= box.max.z), "bounds enclose the vertices");
    for (int k = 0; k < 3; ++k) {
        vc_check(vc_or(box.min[k] == v[0][k], vc_or(box.min[k] == v[1][k], box.min[k] == v[2][k])), "lower bound is attained");
        vc_check(vc_or(box.max[k] == v[0][k], vc_or(box.max[k] == v[1][k], box.max[k] == v[2][k])), "upper bound is attained");
    }
    vc_cover("triangle");
}
VC_CONTRACT(single_triangle_x) { single(0); }
VC_CONTRACT(single_triangle_y) { single(1); }
VC_CONTRACT(single_triangle_z) { single(2); }
VC_CONTRACT(single_triangle_boundary) {
    // at the origin, in the plane of its first edge and an arbitrary third vertex
    scalar l = any_in("l", scalar(0.1), 100), x = any("x"), y = any_gt("y", scalar(0.01));
    std::vector<vector3> v {{0, 0, 0}, {l, 0, 0}, {x, y, 0}};
    std::vector<uint32_t> idx {0, 1, 2};
    auto m = make(v, idx);
    check_adjacent(m, v, idx);
    vc_cover("boundary");
}
// two triangles that share an edge: convex exactly when the apex of the second lies below the plane of the first
static void convexity(int order) {
    scalar l = any_in("length", scalar(0.1), 10);
    scalar wx = any_in("wx", -10, 10), wy = any_in("wy", -10, 10), wz = any_in("wz", scalar(0.01), 10);
    std::vector<vector3> v {{0, 0, 0}, {l, 0, 0}, {0, 0, -1}, {wx, wy, wz}};
    std::vector<uint32_t> a {0, 1, 2}, b {1, 0, 3}, idx;
    if (order & 2) b = {0, 3, 1};
    if (order & 4) a = {2, 0, 1};
    auto &first = order & 1 ? b : a, &second = order & 1 ? a : b;
    idx.insert(idx.end(), first.begin(), first.end());
    idx.insert(idx.end(), second.begin(), second.end());
    auto m = make(v, idx);
    size_t shared = m.num_edges();
    for (size_t e = 0; e < m.num_edges(); ++e) {
        if (!m.is_boundary_edge(e)) shared = e;
        else vc_check(m.is_convex_edge(e), "boundary edges are convex");
    }
    vc_check(shared < m.num_edges(), "the triangles share an edge");
    bool convex = m.is_convex_edge(shared);
    vc_check(vc_implies(wy < scalar(-0.001), convex), "an edge is convex when the second triangle falls away");
    vc_check(vc_implies(wy >= 0, vc_not(convex)), "an edge is not convex when the second triangle rises or is level");
    auto n0 = m.get_triangle_normal(0), n1 = m.get_triangle_normal(1);
    for (size_t i = 0; i < 3; ++i) {
        if (m.get_face_edge_index(0, i) == shared) vc_check(eq3(m.get_adjacent_face_normal(0, i), n1), "adjacent normal of the first triangle");
        if (m.get_face_edge_index(1, i) == shared) vc_check(eq3(m.get_adjacent_face_normal(1, i), n0), "adjacent normal of the second triangle");
    }
    vc_cover("convexity");
}
VC_CONTRACT(convexity_0) { convexity(0); }
VC_CONTRACT(convexity_1) { convexity(1); }
VC_CONTRACT(convexity_2) { convexity(2); }
VC_CONTRACT(convexity_5) { convexity(5); }

// visiting
static std::vector<uint32_t> strip() { return {0, 1, 2, 1, 3, 2, 1, 0, 4}; }
VC_CONTRACT(visit_box) {
    std::vector<vector3> v(fixed_pos, fixed_pos + 5);
    auto m = make(v, strip());
    AABB q;
    q.min = any_vec3("min");
    vector3 e = any_vec3("ext");
    if (!vc_symbolic()) { e.x = std::abs(e.x); e.y = std::abs(e.y); e.z = std::abs(e.z); }
    vc_assume(all(0 <= e.x, 0 <= e.y, 0 <= e.z));
    q.max = sadd(q.min, e);
    std::vector<int> count(3, 0);
    m.visit_triangles(q, [&](size_t i) { vc_check(i < 3, "visited triangles exist"); ++count[i]; });
    for (size_t i = 0; i < 3; ++i) {
        auto tv = m.get_triangle_vertices(i);
        bool hit = true;
        for (int k = 0; k < 3; ++k) {
            auto lo = std::min(tv[0][k], std::min(tv[1][k], tv[2][k])), hi = std::max(tv[0][k], std::max(tv[1][k], tv[2][k]));
            hit = vc_and(hit, vc_and(q.min[k] <= hi, lo <= q.max[k]));
        }
        vc_check(vc_implies(hit, count[i] == 1), "every triangle whose bounds intersect the box is visited once");
        vc_check(vc_implies(vc_not(hit), count[i] == 0), "no other triangle is visited");
    }
    vc_cover("visit");
}
// a segment through a point of a triangle visits it
static void ray(size_t f, bool line) {
    std::vector<vector3> v(fixed_pos, fixed_pos + 5);
    auto m = make(v, strip());
    auto tv = m.get_triangle_vertices(f);
    scalar s = any_in("s", 0, 1), t = scalar(0.25);
    if (!line) t = any_in("t", 0, 1);
    vc_assume(s + t <= 1);
    vector3 p = sadd(tv[0], sadd(smul(ssub(tv[1], tv[0]), s), smul(ssub(tv[2], tv[0]), t)));
    scalar k = any_in("k", 0, 1), len = any_in("len", scalar(0.5), 10);
    vector3 p0 = p, p1 = p;
    p0.y = p.y + len * k; p1.y = p.y - len * (1 - k);
    std::vector<int> count(3, 0);
    m.raycast(p0, p1, [&](size_t i) { vc_check(i < 3, "visited triangles exist"); ++count[i]; });
    vc_check(count[f] == 1, "a ray visits every triangle it hits, once");
    for (auto c : count) vc_check(c <= 1, "a ray visits no triangle twice");
    vc_cover("ray");
}
VC_CONTRACT(ray_0) { ray(0, true); }
VC_CONTRACT(ray_1) { ray(1, true); }
VC_CONTRACT(ray_2) { ray(2, true); }
VC_CONTRACT(thorough_ray_0) { ray(0, false); }
VC_CONTRACT(thorough_ray_1) { ray(1, false); }
VC_CONTRACT(thorough_ray_2) { ray(2, false); }

// per-vertex values
struct planar { triangle_mesh m; std::vector<vector3> v; scalar f[3]; };
static planar any_triangle(bool restitution) {
    planar r;
    r.v = axis_triangle(restitution ? 0 : 1);
    std::vector<uint32_t> idx {0, 1, 2};
    r.m.insert_vertices(r.v.begin(), r.v.end());
    r.m.insert_indices(idx.begin(), idx.end());
    for (int i = 0; i < 3; ++i) r.f[i] = vc_real("f", i);
    if (restitution) r.m.insert_restitution_coefficients(r.f, r.f + 3); else r.m.insert_friction_coefficients(r.f, r.f + 3);
    r.m.initialize();
    return r;
}
static void face_values(bool rest) {
    auto t = any_triangle(rest);
    scalar s = any("s"), u = any("u"), h = any("h");
    vector3 n = t.m.get_triangle_normal(0);
    vector3 p = sadd(t.v[0], sadd(sadd(smul(ssub(t.v[1], t.v[0]), s), smul(ssub(t.v[2], t.v[0]), u)), smul(n, h)));
    auto bc = t.m.barycentric_coordinates(0, p);
    vc_check(vc_eq(bc.y, s), "barycentric coordinate of the second vertex");
    vc_check(vc_eq(bc.z, u), "barycentric coordinate of the third vertex");
    vc_check(vc_eq(bc.x, 1 - s - u), "barycentric coordinate of the first vertex");
    vector3 vals {t.f[0], t.f[1], t.f[2]};
    scalar want = t.f[0] * (1 - s - u) + t.f[1] * s + t.f[2] * u;
    vc_check(vc_eq(t.m.interpolate_triangle(0, p, vals), want), "interpolation is affine in the point");
    vc_check(vc_eq(rest ? t.m.get_face_restitution(0, p) : t.m.get_face_friction(0, p), want), "value on a face interpolates those of its vertices");
    vc_check(t.m.has_per_vertex_friction() == !rest && t.m.has_per_vertex_restitution() == rest && !t.m.has_per_vertex_material_id(), "per-vertex values are present once given");
    for (size_t i = 0; i < 3; ++i) vc_check((rest ? t.m.get_vertex_restitution(i) : t.m.get_vertex_friction(i)) == t.f[i], "vertices have the values given");
    vc_cover("face");
}
VC_CONTRACT(face_friction) { face_values(false); }
VC_CONTRACT(face_restitution) { face_values(true); }
static void edge_values(bool rest) {
    auto t = any_triangle(rest);
    scalar k = any("k");
    for (size_t e = 0; e < 3; ++e) {
        auto ev = t.m.get_edge_vertex_indices(e);
        auto want = t.f[ev[0]] + (t.f[ev[1]] - t.f[ev[0]]) * k;
        vc_check(vc_eq(rest ? t.m.get_edge_restitution(e, k) : t.m.get_edge_friction(e, k), want), "value at a fraction of an edge");
        auto p = slerp3(t.v[ev[0]], t.v[ev[1]], k);
        vc_check(vc_eq(rest ? t.m.get_edge_restitution(e, p) : t.m.get_edge_friction(e, p), want), "value at a point of an edge interpolates those of its vertices");
    }
    vc_cover("edge");
}
VC_CONTRACT(edge_friction) { edge_values(false); }
VC_CONTRACT(edge_restitution) { edge_values(true); }
// separating axes are clipped to the region of the feature they belong to: two triangles hinged at an edge with the second rising or falling
static void clip_edge(scalar wy, int turn) {
    std::vector<vector3> v {{0, 0, 0}, {2, 0, 0}, {0, 0, -1}, {1, wy, 4}};
    std::vector<uint32_t> idx {0, 1, 2, 1, 0, 3};
    if (turn == 1) idx = {1, 2, 0, 0, 3, 1};
    if (turn == 2) idx = {2, 0, 1, 3, 1, 0};
    auto m = make(v, idx);
    auto axis = any_vec3("axis");
    for (size_t f = 0; f < 2; ++f) {
        auto n = m.get_triangle_normal(f);
        auto tv = m.get_triangle_vertices(f);
        for (size_t i = 0; i < 3; ++i) {
            auto adj = m.get_adjacent_face_normal(f, i);
            auto out = scross(ssub(tv[(i + 1) % 3], tv[i]), adj);        // in the plane of the adjacent triangle, pointing over it
            auto r = clip_triangle_separating_axis(axis, m, f, tv, n, triangle_feature::edge, i);
            auto boundary = m.is_boundary_edge(m.get_face_edge_index(f, i));
            if (!boundary && wy >= 0) vc_check(eq3(r, n), "the axis of an edge that is not convex is the normal of the triangle");
            else {
                vc_check(vc_le(sdot(r, out), 0), "the axis of a convex edge does not lean over the adjacent triangle");
                vc_check(vc_implies(sdot(axis, out) < 0, eq3(r, axis)), "an axis in the region of the edge stays");
                vc_check(vc_implies(sdot(axis, out) > 0, eq3(r, adj)), "an axis outside is turned to the adjacent normal");
            }
            auto g = clip_triangle_separating_axis(axis, m, f, tv, n, triangle_feature::face, i);
            vc_check(eq3(g, n), "the axis of a face is its normal");
        }
    }
    vc_cover("edge");
}
VC_CONTRACT(clip_edge_convex_0) { clip_edge(-3, 0); }
VC_CONTRACT(clip_edge_convex_1) { clip_edge(-3, 1); }
VC_CONTRACT(clip_edge_convex_2) { clip_edge(-3, 2); }
VC_CONTRACT(clip_edge_concave) { clip_edge(3, 0); }
VC_CONTRACT(clip_edge_concave_1) { clip_edge(3, 1); }
VC_CONTRACT(clip_edge_flat) { clip_edge(0, 0); }
static void clip_vertex(scalar wy, int turn) {
    std::vector<vector3> v {{0, 0, 0}, {2, 0, 0}, {0, 0, -1}, {1, wy, 4}};
    std::vector<uint32_t> idx {0, 1, 2, 1, 0, 3};
    if (turn == 1) idx = {1, 2, 0, 0, 3, 1};
    auto m = make(v, idx);
    auto axis = any_vec3("axis");
    for (size_t f = 0; f < 2; ++f) {
        auto n = m.get_triangle_normal(f);
        auto tv = m.get_triangle_vertices(f);
        for (size_t i = 0; i < 3; ++i) {
            // the edges that meet at vertex i are i and the one before it
            size_t e[2] = {i, (i + 2) % 3};
            vector3 adj[2], out[2]; bool convex[2];
            for (int k = 0; k < 2; ++k) {
                adj[k] = m.get_adjacent_face_normal(f, e[k]);
                out[k] = scross(ssub(tv[(e[k] + 1) % 3], tv[e[k]]), adj[k]);
                convex[k] = wy < 0 || m.is_boundary_edge(m.get_face_edge_index(f, e[k]));
            }
            auto r = clip_triangle_separating_axis(axis, m, f, tv, n, triangle_feature::vertex, i);
            scalar d0 = sdot(axis, out[0]), d1 = sdot(axis, out[1]);
            for (int k = 0; k < 2; ++k) {
                bool closer = k == 0 ? d0 > d1 : d1 > d0;
                scalar d = k == 0 ? d0 : d1;
                if (!convex[k]) vc_check(vc_implies(closer, eq3(r, n)), "the normal of the triangle when the closer edge is not convex");
                else {
                    vc_check(vc_implies(vc_and(closer, d < 0), eq3(r, axis)), "an axis in the region of the vertex stays");
                    vc_check(vc_implies(vc_and(closer, d > 0), eq3(r, adj[k])), "an axis outside is turned to the normal adjacent to the closer edge");
                }
            }
        }
    }
    vc_cover("vertex");
}
VC_CONTRACT(clip_vertex_convex) { clip_vertex(-3, 0); }
VC_CONTRACT(clip_vertex_convex_1) { clip_vertex(-3, 1); }
VC_CONTRACT(clip_vertex_concave) { clip_vertex(3, 0); }
VC_CONTRACT(clip_vertex_concave_1) { clip_vertex(3, 1); }
VC_CONTRACT(thickness) {
    triangle_mesh m;
    vc_check(vc_lt(0, m.get_thickness()), "default thickness is positive");
    scalar t = any("t");
    m.set_thickness(t);
    vc_check(m.get_thickness() == t, "thickness is what was set");
    vc_cover("thickness");
}
