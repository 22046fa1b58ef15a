// C07: volume, centroid and moment of inertia.
#include "vc.hpp"
#include <edyn/math/shape_volume.hpp>
#include <edyn/util/shape_util.hpp>
#include <edyn/shapes/convex_mesh.hpp>
#include <edyn/shapes/polyhedron_shape.hpp>
#include <edyn/shapes/compound_shape.hpp>
#include <edyn/shapes/box_shape.hpp>
#include <edyn/shapes/capsule_shape.hpp>
#include <edyn/shapes/cylinder_shape.hpp>
#include <edyn/shapes/sphere_shape.hpp>
#include <edyn/math/constants.hpp>
#include <memory>

// |a - b| <= 1e-5 * b for b >= 0: constants such as pi or 2/3 are rounded in the source
static bool near_pos(scalar a, scalar b) { return vc_and(vc_le(a - b, scalar(1e-5) * b), vc_le(b - a, scalar(1e-5) * b)); }
static const scalar PI = scalar(3.14159265358979);

static scalar det3(const vector3 &a, const vector3 &b, const vector3 &c) { return sdot(a, scross(b, c)); }

static void add_face(convex_mesh &m, std::initializer_list<uint32_t> idx) {
    m.faces.push_back(uint32_t(m.indices.size()));
    m.faces.push_back(uint32_t(idx.size()));
    for (auto i : idx) m.indices.push_back(i);
}

VC_CONTRACT(primitive_volumes) {
    scalar r = any_gt("r", 0), l = any_ge("l", 0);
    vector3 e; e.x = any_gt("ex", 0); e.y = any_gt("ey", 0); e.z = any_gt("ez", 0);
    vc_cover("reached");
    vc_check(near_pos(cylinder_volume(r, l), PI * r * r * l), "cylinder volume is pi r^2 l");
    vc_check(near_pos(sphere_volume(r), PI * r * r * r * 4 / 3), "sphere volume is 4/3 pi r^3");
    vc_check(vc_eq(box_volume(e), e.x * e.y * e.z), "box volume is the product of the extents");
    vc_check(vc_eq(shape_volume(box_shape{e}), 8 * e.x * e.y * e.z), "box shape volume from half extents");
    vc_check(near_pos(shape_volume(sphere_shape{r}), PI * r * r * r * 4 / 3), "sphere shape volume");
    for (int a = 0; a < 3; ++a) {
        auto ax = a == 0 ? coordinate_axis::x : a == 1 ? coordinate_axis::y : coordinate_axis::z;
        cylinder_shape cy; cy.radius = r; cy.half_length = l; cy.axis = ax;
        capsule_shape ca; ca.radius = r; ca.half_length = l; ca.axis = ax;
        vc_check(near_pos(shape_volume(cy), 2 * PI * r * r * l), "cylinder shape volume does not depend on its axis");
        vc_check(near_pos(shape_volume(ca), 2 * PI * r * r * l + PI * r * r * r * 4 / 3), "capsule shape volume is cylinder plus sphere");
    }
}

// every tetrahedron, wherever its four vertices are
VC_CONTRACT(tetrahedron) {
    vector3 p = any_vec3("p"), a = any_vec3("a"), b = any_vec3("b"), c = any_vec3("c");
    scalar d = det3(a, b, c);
    vc_assume(d > scalar(0.001));
    convex_mesh m;
    m.vertices = {p, sadd(p, a), sadd(p, b), sadd(p, c)};
    unsigned long s0 = vc_int("s0", 0, 2), s1 = vc_int("s1", 0, 2);
    uint32_t f0[3] = {0, 2, 1}, f1[3] = {1, 2, 3};
    add_face(m, {f0[s0], f0[(s0 + 1) % 3], f0[(s0 + 2) % 3]});
    add_face(m, {0, 1, 3});
    add_face(m, {f1[s1], f1[(s1 + 1) % 3], f1[(s1 + 2) % 3]});
    add_face(m, {0, 3, 2});
    vc_cover("reached");
    vc_check(vc_eq(mesh_volume(m) * 6, d), "volume of a tetrahedron is a sixth of the triple product of its edges");
    vector3 g = mesh_centroid(m.vertices, m.indices, m.faces);
    vector3 e = sadd(p, smul(sadd(a, sadd(b, c)), scalar(0.25)));
    vc_check(vc_eq(g.x * 4, e.x * 4), "centroid.x of a tetrahedron is the mean of its vertices");
    vc_check(vc_eq(g.y * 4, e.y * 4), "centroid.y of a tetrahedron is the mean of its vertices");
    vc_check(vc_eq(g.z * 4, e.z * 4), "centroid.z of a tetrahedron is the mean of its vertices");
}

// parallelepiped with quadrilateral faces, any placement, every face starting at any of its corners
VC_CONTRACT(parallelepiped) {
    vector3 p = any_vec3("p"), a = any_vec3("a"), b = any_vec3("b"), c = any_vec3("c");
    scalar d = det3(a, b, c);
    vc_assume(d > scalar(0.001));
    convex_mesh m;
    for (int i = 0; i < 8; ++i) {
        vector3 v = p;
        if (i & 1) v = sadd(v, a);
        if (i & 2) v = sadd(v, b);
        if (i & 4) v = sadd(v, c);
        m.vertices.push_back(v);
    }
    uint32_t f[6][4] = {{0, 2, 3, 1}, {4, 5, 7, 6}, {0, 1, 5, 4}, {2, 6, 7, 3}, {0, 4, 6, 2}, {1, 3, 7, 5}};
    unsigned long s = vc_int("s", 0, 3);
    for (int i = 0; i < 6; ++i) {
        unsigned long k = s + i;
        add_face(m, {f[i][k % 4], f[i][(k + 1) % 4], f[i][(k + 2) % 4], f[i][(k + 3) % 4]});
    }
    vc_cover("reached");
    vc_check(vc_eq(mesh_volume(m), d), "volume of a parallelepiped is the triple product of its edges");
    vector3 g = mesh_centroid(m.vertices, m.indices, m.faces);
    vector3 e = sadd(smul(p, 2), sadd(a, sadd(b, c)));
    vc_check(vc_eq(g.x * 2, e.x), "centroid.x of a parallelepiped is its centre");
    vc_check(vc_eq(g.y * 2, e.y), "centroid.y of a parallelepiped is its centre");
    vc_check(vc_eq(g.z * 2, e.z), "centroid.z of a parallelepiped is its centre");
}

// pentagonal prism in any affine frame, its two large faces starting at any of their corners
VC_CONTRACT(pentagonal_prism) {
    vector3 p = any_vec3("p"), a = any_vec3("a"), b = any_vec3("b"), c = any_vec3("c");
    scalar d = det3(a, b, c);
    vc_assume(d > scalar(0.001));
    // area 6 and centroid (11/9, 11/9) in the plane of a and b
    scalar q[5][2] = {{0, 0}, {2, 0}, {3, 1}, {1, 3}, {0, 2}};
    convex_mesh m;
    for (int k = 0; k < 2; ++k)
        for (int i = 0; i < 5; ++i) {
            vector3 v = sadd(p, sadd(smul(a, q[i][0]), smul(b, q[i][1])));
            m.vertices.push_back(k ? sadd(v, c) : v);
        }
    uint32_t s = uint32_t(vc_int("s", 0, 4));
    add_face(m, {(s + 4) % 5, (s + 3) % 5, (s + 2) % 5, (s + 1) % 5, s});
    add_face(m, {5 + s, 5 + (s + 1) % 5, 5 + (s + 2) % 5, 5 + (s + 3) % 5, 5 + (s + 4) % 5});
    for (uint32_t i = 0; i < 5; ++i) add_face(m, {i, (i + 1) % 5, (i + 1) % 5 + 5, i + 5});
    vc_cover("reached");
    vc_check(vc_eq(mesh_volume(m), d * 6), "volume of a prism is base times height");
    vector3 g = mesh_centroid(m.vertices, m.indices, m.faces);
    vector3 e = sadd(smul(p, 18), sadd(smul(sadd(a, b), 22), smul(c, 9)));
    vc_check(vc_eq(g.x * 18, e.x), "centroid.x of a prism with pentagonal base");
    vc_check(vc_eq(g.y * 18, e.y), "centroid.y of a prism with pentagonal base");
    vc_check(vc_eq(g.z * 18, e.z), "centroid.z of a prism with pentagonal base");
}

// an octahedron with six arbitrary vertices: volume and centroid move with the mesh
VC_CONTRACT(octahedron_translation) {
    vector3 v[6];
    const char *n[6] = {"v0", "v1", "v2", "v3", "v4", "v5"};
    for (int i = 0; i < 6; ++i) v[i] = any_vec3(n[i]);
    vector3 t = any_vec3("t");
    convex_mesh m, k;
    for (int i = 0; i < 6; ++i) { m.vertices.push_back(v[i]); k.vertices.push_back(sadd(v[i], t)); }
    for (auto *q : {&m, &k}) {
        add_face(*q, {0, 2, 4}); add_face(*q, {2, 1, 4}); add_face(*q, {1, 3, 4}); add_face(*q, {3, 0, 4});
        add_face(*q, {2, 0, 5}); add_face(*q, {1, 2, 5}); add_face(*q, {3, 1, 5}); add_face(*q, {0, 3, 5});
    }
    vc_cover("reached");
    vc_check(vc_eq(mesh_volume(m), mesh_volume(k)), "volume of a closed mesh does not change under translation");
    polyhedron_shape sh(std::make_shared<convex_mesh>(m));
    vc_check(vc_eq(mesh_volume(m), shape_volume(sh)), "polyhedron shape volume is that of its mesh");
}

VC_CONTRACT(box_mesh) {
    vector3 h; h.x = any_gt("hx", scalar(0.01)); h.y = any_gt("hy", scalar(0.01)); h.z = any_gt("hz", scalar(0.01));
    convex_mesh m;
    make_box_mesh(h, m.vertices, m.indices, m.faces);
    vc_cover("reached");
    vc_check(m.vertices.size() == 8, "a box mesh has 8 vertices");
    vc_check(m.faces.size() == 12, "a box mesh has 6 faces");
    vc_check(vc_eq(mesh_volume(m), 8 * h.x * h.y * h.z), "box mesh volume");
    vector3 g = mesh_centroid(m.vertices, m.indices, m.faces);
    vc_check(all(vc_eq(g.x, 0), vc_eq(g.y, 0), vc_eq(g.z, 0)), "box mesh is centred at the origin");
    for (auto &v : m.vertices) {
        vc_check(vc_and(vc_or(vc_eq(v.x, h.x), vc_eq(v.x, -h.x)), vc_and(vc_or(vc_eq(v.y, h.y), vc_eq(v.y, -h.y)), vc_or(vc_eq(v.z, h.z), vc_eq(v.z, -h.z)))),
                 "box mesh vertices are the corners of the box");
    }
    int edge[8][8] = {};
    for (size_t f = 0; f < m.faces.size(); f += 2) {
        vc_check(m.faces[f + 1] == 4, "box faces have 4 vertices");
        vc_check(m.faces[f] + 4 <= m.indices.size(), "box face range lies in the index array");
        vector3 n, c = vector3_zero;
        uint32_t id[4];
        for (int k = 0; k < 4; ++k) { id[k] = m.indices[m.faces[f] + k]; vc_check(id[k] < 8, "box mesh index in range"); c = sadd(c, m.vertices[id[k]]); }
        for (int k = 0; k < 4; ++k) edge[id[k]][id[(k + 1) % 4]]++;
        n = scross(ssub(m.vertices[id[1]], m.vertices[id[0]]), ssub(m.vertices[id[2]], m.vertices[id[1]]));
        vc_check(vc_lt(0, sdot(n, c)), "box mesh faces are wound counter-clockwise seen from outside");
        vc_check(vc_eq(sdot(n, ssub(m.vertices[id[3]], m.vertices[id[0]])), 0), "box mesh faces are planar");
    }
    bool closed = true;
    for (int i = 0; i < 8; ++i) for (int j = 0; j < 8; ++j) closed = closed && edge[i][j] == edge[j][i] && edge[i][j] <= 1;
    vc_check(closed, "box mesh is closed: every edge is shared by two faces, in opposite directions");
}

static void plane_mesh(size_t nx, size_t nz) {
    scalar ex = any_gt("ex", scalar(0.01)), ez = any_gt("ez", scalar(0.01));
    std::vector<vector3> v;
    std::vector<uint32_t> idx;
    make_plane_mesh(ex, ez, nx, nz, v, idx);
    vc_cover("reached");
    vc_check(v.size() == nx * nz, "plane mesh vertex count");
    vc_check(idx.size() == 6 * (nx - 1) * (nz - 1), "plane mesh has two triangles per cell");
    scalar area2 = 0;
    vector3 lo = v[0], hi = v[0];
    for (auto &p : v) {
        vc_check(vc_eq(p.y, 0), "plane mesh lies in y = 0");
        vc_check(all(vc_le(-ex / 2, p.x), vc_le(p.x, ex / 2), vc_le(-ez / 2, p.z), vc_le(p.z, ez / 2)), "plane mesh lies within its extents");
    }
    std::vector<int> edge(v.size() * v.size(), 0);
    bool ok = true;
    for (size_t i = 0; i < idx.size(); i += 3) {
        for (int k = 0; k < 3; ++k) {
            vc_check(idx[i + k] < v.size(), "plane mesh index in range");
            int &e = edge[idx[i + k] * v.size() + idx[i + (k + 1) % 3]];
            ok = ok && e == 0;
            e++;
        }
        vector3 n = scross(ssub(v[idx[i + 1]], v[idx[i]]), ssub(v[idx[i + 2]], v[idx[i]]));
        vc_check(vc_lt(0, n.y), "plane mesh triangles face up");
        area2 += n.y;
    }
    vc_check(ok, "no directed edge of a plane mesh is used twice");
    vc_check(vc_eq(area2, 2 * ex * ez), "plane mesh triangles cover the plane exactly once");
}
VC_CONTRACT(plane_mesh_2x2) { plane_mesh(2, 2); }
VC_CONTRACT(plane_mesh_3x2) { plane_mesh(3, 2); }
VC_CONTRACT(plane_mesh_2x4) { plane_mesh(2, 4); }
VC_CONTRACT(plane_mesh_3x3) { plane_mesh(3, 3); }
VC_CONTRACT(plane_mesh_4x3) { plane_mesh(4, 3); }

VC_CONTRACT(compound_volume) {
    scalar r = any_gt("r", 0), l = any_ge("l", 0);
    vector3 h; h.x = any_gt("hx", 0); h.y = any_gt("hy", 0); h.z = any_gt("hz", 0);
    vector3 p = any_vec3("p"), q = any_vec3("q");
    quaternion o = any_quat("o");
    box_shape bs{h};
    sphere_shape ss{r};
    cylinder_shape cy; cy.radius = r; cy.half_length = l; cy.axis = coordinate_axis::y;
    capsule_shape ca; ca.radius = r; ca.half_length = l; ca.axis = coordinate_axis::z;
    compound_shape c;
    c.add_shape(bs, p, o);
    c.add_shape(ss, q, quaternion_identity);
    c.add_shape(cy, p, o);
    c.add_shape(ca, q, o);
    c.add_shape(bs, q, o);
    vc_cover("reached");
    scalar w = 16 * h.x * h.y * h.z + PI * r * r * r * 8 / 3 + 4 * PI * r * r * l;
    vc_check(near_pos(shape_volume(c), w), "compound volume is the sum over its shapes, wherever they are placed");
    vc_check(c.nodes.size() == 5, "every added shape is kept");
}
