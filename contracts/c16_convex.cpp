// C16: convex meshes - normals, edges, neighbours, relevant directions, rotation, and the support query over neighbours.
#include "vc.hpp"
#include <edyn/shapes/convex_mesh.hpp>
#include <edyn/sys/update_rotated_meshes.hpp>
#include <edyn/util/shape_util.hpp>
#include <edyn/math/shape_volume.hpp>
#include <edyn/config/constants.hpp>
#include <limits>

static bool same3(const vector3 &a, const vector3 &b) { return all(a.x == b.x, a.y == b.y, a.z == b.z); }

static void check_normals(const convex_mesh &m) {
    vc_check(m.normals.size() == m.num_faces(), "one normal for each face");
    for (size_t f = 0; f < m.num_faces(); ++f) {
        auto n = m.normals[f];
        vc_check(vc_eq(slen2(n), 1), "normals have unit length");
        auto &p = m.vertices[m.first_vertex_index(f)];
        for (size_t i = 0; i < m.face_vertex_count(f); ++i) {
            vc_check(m.face_vertex_index(f, i) == m.indices[m.faces[f * 2] + i], "vertices of a face");
            vc_check(vc_eq(sdot(n, ssub(m.vertices[m.face_vertex_index(f, i)], p)), 0), "normals are perpendicular to their face");
        }
        for (auto &v : m.vertices) vc_check(vc_le(sdot(n, ssub(v, p)), 0), "normals point outwards");
    }
}
// closed meshes
static void check_edges(const convex_mesh &m) {
    auto ne = m.num_edges();
    vc_check(m.edge_faces.size() == 2 * ne && m.edge_vertices.size() == 2 * ne && m.edge_normals.size() == 2 * ne, "arrays of the edges have one entry for each");
    size_t sides = 0;
    for (size_t f = 0; f < m.num_faces(); ++f) sides += m.face_vertex_count(f);
    vc_check(2 * ne == sides, "every edge is shared by two faces");
    for (size_t e = 0; e < ne; ++e) {
        auto v = m.get_edge_vertices(e);
        auto f = m.get_edge_faces(e);
        auto p = m.get_edge(e);
        auto n = m.get_edge_face_normals(e);
        vc_check(f[0] < m.num_faces() && f[1] < m.num_faces() && f[0] != f[1], "the faces of an edge are two");
        for (size_t g = 0; g < e; ++g) {
            auto w = m.get_edge_vertices(g);
            vc_check(!((w[0] == v[0] && w[1] == v[1]) || (w[0] == v[1] && w[1] == v[0])), "edges are distinct");
        }
        for (int k = 0; k < 2; ++k) {
            bool found = false;
            auto c = m.face_vertex_count(f[k]);
            for (size_t i = 0; i < c; ++i) {
                auto a = m.face_vertex_index(f[k], i), b = m.face_vertex_index(f[k], (i + 1) % c);
                found = found || (k == 0 ? a == v[0] && b == v[1] : a == v[1] && b == v[0]);
            }
            vc_check(found, k == 0 ? "the first face of an edge goes along it" : "the second face of an edge goes against it");
            vc_check(same3(p[k], m.vertices[v[k]]), "edges are at the positions of their vertices");
            vc_check(same3(n[k], m.normals[f[k]]), "normals of the faces of an edge");
            vc_check(same3(m.edge_normals[e * 2 + k], m.normals[f[k]]), "cached normals of the faces of an edge");
            vc_check(same3(m.edge_vertices[e * 2 + k], m.vertices[v[k]]), "cached vertices of an edge");
        }
        auto d = m.get_edge_direction(e);
        vc_check(eq3(d, ssub(p[1], p[0])), "direction of an edge goes from its first to its second vertex");
    }
}
static void check_neighbors(const convex_mesh &m) {
    vc_check(m.neighbors_start.size() == m.vertices.size() + 1, "every vertex has a range of neighbours");
    vc_check(m.neighbors_start[0] == 0 && m.neighbors_start.back() == m.neighbor_indices.size(), "ranges of neighbours cover all of them");
    vc_check(m.neighbor_indices.size() == 2 * m.num_edges(), "two neighbours for each edge");
    for (size_t i = 0; i < m.vertices.size(); ++i) {
        auto a = m.neighbors_start[i], b = m.neighbors_start[i + 1];
        vc_check(a <= b, "ranges are in order");
        for (auto k = a; k < b; ++k) {
            auto j = m.neighbor_indices[k];
            bool edge = false;
            for (size_t e = 0; e < m.num_edges(); ++e) {
                auto v = m.get_edge_vertices(e);
                edge = edge || (v[0] == i && v[1] == j) || (v[1] == i && v[0] == j);
            }
            vc_check(edge, "neighbours share an edge");
            for (auto l = a; l < k; ++l) vc_check(m.neighbor_indices[l] != j, "neighbours are distinct");
        }
    }
}
static void check_relevant(const convex_mesh &m) {
    vc_check(m.relevant_normals.size() == m.relevant_faces.size(), "one normal for each relevant face");
    for (size_t i = 0; i < m.relevant_faces.size(); ++i) {
        vc_check(m.relevant_faces[i] < m.num_faces(), "relevant faces exist");
        vc_check(same3(m.relevant_normals[i], m.normals[m.relevant_faces[i]]), "normals of the relevant faces");
        for (size_t k = 0; k < i; ++k) vc_check(m.relevant_faces[k] != m.relevant_faces[i], "relevant faces are distinct");
    }
    for (size_t i = 0; i < m.relevant_edges.size(); ++i) {
        vc_check(m.relevant_edges[i] < m.num_edges(), "relevant edges exist");
        for (size_t k = 0; k < i; ++k) vc_check(m.relevant_edges[k] != m.relevant_edges[i], "relevant edges are distinct");
    }
}
// every face has a relevant one with its direction, and every edge one parallel to it
static void check_covered(const convex_mesh &m, size_t faces, size_t edges) {
    vc_check(m.relevant_faces.size() == faces, "number of distinct face directions");
    vc_check(m.relevant_edges.size() == edges, "number of distinct edge directions");
    for (size_t f = 0; f < m.num_faces(); ++f) {
        bool found = false;
        for (auto r : m.relevant_faces) found = vc_or(found, eq3(m.normals[r], m.normals[f]));
        vc_check(found, "every face direction is among the relevant ones");
    }
    for (size_t e = 0; e < m.num_edges(); ++e) {
        bool found = false;
        for (auto r : m.relevant_edges) found = vc_or(found, eq3(scross(m.get_edge_direction(r), m.get_edge_direction(e)), vector3{0, 0, 0}));
        vc_check(found, "every edge direction is among the relevant ones");
    }
}
static void check_all(const convex_mesh &m) { check_normals(m); check_edges(m); check_neighbors(m); check_relevant(m); }

static convex_mesh any_box() {
    convex_mesh m;
    vector3 h;
    h.x = any_in("hx", scalar(0.1), 10); h.y = any_in("hy", scalar(0.1), 10); h.z = any_in("hz", scalar(0.1), 10);
    make_box_mesh(h, m.vertices, m.indices, m.faces);
    return m;
}
VC_CONTRACT(box) {
    auto m = any_box();
    m.update_calculated_properties();
    check_all(m);
    check_covered(m, 6, 3);
    vc_check(m.num_edges() == 12 && m.num_faces() == 6 && m.vertices.size() == 8, "elements of a box");
    vc_check(m.validate(), "a box is valid");
    vc_cover("box");
}
// calculating again gives the same again
VC_CONTRACT(update_twice) {
    auto m = any_box();
    m.update_calculated_properties();
    m.update_calculated_properties();
    check_edges(m);
    check_neighbors(m);
    check_relevant(m);
    check_covered(m, 6, 3);
    vc_cover("again");
}
VC_CONTRACT(tetrahedron) {
    convex_mesh m;
    scalar h = any_in("h", 1, 4);
    m.vertices = {{0, 0, 0}, {4, 0, 0}, {0, 0, -4}, {0, h, 0}};
    m.indices = {0, 2, 1, 0, 1, 3, 1, 2, 3, 2, 0, 3};
    m.faces = {0, 3, 3, 3, 6, 3, 9, 3};
    m.calculate_normals();
    m.calculate_edges();
    m.calculate_neighbors();
    check_normals(m);
    check_edges(m);
    check_neighbors(m);
    vc_cover("tetrahedron");
}
// a face with a vertex in the middle of its first side
VC_CONTRACT(collinear_side) {
    convex_mesh m;
    scalar h = any_in("h", 1, 4);
    m.vertices = {{0, 0, 0}, {2, 0, 0}, {4, 0, 0}, {0, 0, -4}, {0, h, 0}};
    m.indices = {1, 0, 3, 2, 0, 1, 2, 4, 2, 3, 4, 3, 0, 4};
    m.faces = {0, 4, 4, 4, 8, 3, 11, 3};
    m.calculate_normals();
    m.calculate_edges();
    m.calculate_neighbors();
    check_normals(m);
    check_edges(m);
    check_neighbors(m);
    vc_cover("collinear");
}
// a vertex above a face is not convex, a vertex out of its face's plane is not flat
VC_CONTRACT(validate_dent) {
    convex_mesh m;
    scalar h = any_in("h", -2, 2);
    vc_assume(vc_or(h > scalar(0.01), h < scalar(-0.01)));
    // pyramid over a quad whose corner is lifted by h
    m.vertices = {{-2, 0, 2}, {2, h, 2}, {2, 0, -2}, {-2, 0, -2}, {0, 4, 0}};
    m.indices = {3, 2, 1, 0, 0, 1, 4, 1, 2, 4, 2, 3, 4, 3, 0, 4};
    m.faces = {0, 4, 4, 3, 7, 3, 10, 3, 13, 3};
    m.calculate_normals();
    vc_check(!m.validate(), "a mesh with a bent face is not valid");
    vc_cover("bent");
}
VC_CONTRACT(validate_concave) {
    convex_mesh m;
    scalar h = any_in("h", scalar(0.1), 4);
    // inside out
    m.vertices = {{0, 0, 0}, {4, 0, 0}, {0, 0, -4}, {0, h, 0}};
    m.indices = {1, 2, 0, 3, 1, 0, 3, 2, 1, 3, 0, 2};
    m.faces = {0, 3, 3, 3, 6, 3, 9, 3};
    m.calculate_normals();
    vc_check(!m.validate(), "a mesh that is inside out is not valid");
    vc_cover("inside out");
}
// shifting puts the centroid at the origin and moves all vertices alike
VC_CONTRACT(shift) {
    convex_mesh m = any_box();
    vector3 o = any_vec3("o");
    auto before = m.vertices;
    for (auto &v : m.vertices) v = sadd(v, o);
    m.shift_to_centroid();
    for (size_t i = 0; i < before.size(); ++i) vc_check(eq3(m.vertices[i], before[i]), "the centroid becomes the origin");
    vc_cover("shift");
}
VC_CONTRACT(initialize_box) {
    convex_mesh m = any_box();
    vector3 o = any_vec3("o");
    auto before = m.vertices;
    for (auto &v : m.vertices) v = sadd(v, o);
    m.initialize();
    for (size_t i = 0; i < before.size(); ++i) vc_check(eq3(m.vertices[i], before[i]), "the centroid becomes the origin");
    check_edges(m);
    check_neighbors(m);
    check_relevant(m);
    check_covered(m, 6, 3);
    vc_cover("initialize");
}
static void check_rotated(const rotated_mesh &r, const convex_mesh &m, const quaternion &q) {
    vc_check(r.vertices.size() == m.vertices.size() && r.normals.size() == m.normals.size() && r.relevant_normals.size() == m.relevant_normals.size() &&
             r.edge_vertices.size() == m.edge_vertices.size() && r.edge_normals.size() == m.edge_normals.size(), "a rotated mesh has the elements of the mesh");
    for (size_t i = 0; i < m.vertices.size(); ++i) vc_check(eq3(r.vertices[i], srot(q, m.vertices[i])), "vertices are rotated");
    for (size_t i = 0; i < m.normals.size(); ++i) vc_check(eq3(r.normals[i], srot(q, m.normals[i])), "normals are rotated");
    for (size_t i = 0; i < m.relevant_normals.size(); ++i) vc_check(eq3(r.relevant_normals[i], srot(q, m.relevant_normals[i])), "relevant normals are rotated");
    for (size_t e = 0; e < m.num_edges(); ++e) {
        auto v = m.get_edge(e), rv = m.get_rotated_edge(r, e), gv = r.get_edge_vertices(e);
        auto n = m.get_edge_face_normals(e), gn = r.get_edge_normals(e);
        for (int k = 0; k < 2; ++k) {
            vc_check(eq3(rv[k], srot(q, v[k])), "edges are rotated");
            vc_check(eq3(gv[k], srot(q, v[k])), "edges of the rotated mesh are rotated");
            vc_check(eq3(gn[k], srot(q, n[k])), "normals of edges are rotated");
        }
        vc_check(eq3(m.get_rotated_edge_direction(r, e), srot(q, m.get_edge_direction(e))), "edge directions are rotated");
    }
}
VC_CONTRACT(rotated) {
    auto m = any_box();
    m.update_calculated_properties();
    auto q = any_quat("q"), q2 = any_quat("q2");
    auto r = make_rotated_mesh(m, q);
    check_rotated(r, m, q);
    update_rotated_mesh(r, m, q2);
    check_rotated(r, m, q2);
    vc_cover("rotated");
}
// walking along neighbours finds the extreme vertex of a convex mesh
VC_CONTRACT(support_box) {
    convex_mesh m;
    make_box_mesh({1, 2, 4}, m.vertices, m.indices, m.faces);
    m.update_calculated_properties();
    auto d = any_vec3("d");
    auto s = polyhedron_support_projection(m.vertices, m.neighbors_start, m.neighbor_indices, d);
    bool attained = false;
    for (auto &v : m.vertices) {
        vc_check(vc_le(sdot(v, d), s), "no vertex is farther");
        attained = vc_or(attained, vc_eq(sdot(v, d), s));
    }
    vc_check(attained, "a vertex is as far");
    vc_cover("support");
}
VC_CONTRACT(support_tetrahedron) {
    convex_mesh m;
    m.vertices = {{0, 0, 0}, {4, 0, 0}, {0, 0, -4}, {1, 4, -1}};
    m.indices = {0, 2, 1, 0, 1, 3, 1, 2, 3, 2, 0, 3};
    m.faces = {0, 3, 3, 3, 6, 3, 9, 3};
    m.update_calculated_properties();
    auto d = any_vec3("d");
    auto s = polyhedron_support_projection(m.vertices, m.neighbors_start, m.neighbor_indices, d);
    bool attained = false;
    for (auto &v : m.vertices) {
        vc_check(vc_le(sdot(v, d), s), "no vertex is farther");
        attained = vc_or(attained, vc_eq(sdot(v, d), s));
    }
    vc_check(attained, "a vertex is as far");
    vc_cover("support");
}
