// C07: moments of inertia (moment_of_inertia.cpp, compiled against the EnTT stand-in headers).
#include "vc.hpp"
#include <edyn/dynamics/moment_of_inertia.hpp>
#include <edyn/util/shape_util.hpp>
#include <edyn/shapes/shapes.hpp>
#include <memory>

static bool near_pos(scalar a, scalar b) { return vc_and(vc_le(a - b, scalar(1e-5) * b), vc_le(b - a, scalar(1e-5) * b)); }
static scalar det3(const vector3 &a, const vector3 &b, const vector3 &c) { return sdot(a, scross(b, c)); }
static coordinate_axis axis_of(int a) { return a == 0 ? coordinate_axis::x : a == 1 ? coordinate_axis::y : coordinate_axis::z; }
static bool diag_is(const matrix3x3 &m, const vector3 &d) {
    bool r = true;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r = vc_and(r, vc_eq(m[i][j], i == j ? d[i] : scalar(0)));
    return r;
}

VC_CONTRACT(simple_solids) {
    scalar m = any_gt("m", 0), r = any_gt("r", 0), l = any_ge("l", 0), ri = any_ge("ri", 0);
    vector3 e; e.x = any_gt("ex", 0); e.y = any_gt("ey", 0); e.z = any_gt("ez", 0);
    vc_cover("reached");
    vector3 b = moment_of_inertia_solid_box(m, e);
    vc_check(near_pos(b.x, m * (e.y * e.y + e.z * e.z) / 12), "box Ixx");
    vc_check(near_pos(b.y, m * (e.x * e.x + e.z * e.z) / 12), "box Iyy");
    vc_check(near_pos(b.z, m * (e.x * e.x + e.y * e.y) / 12), "box Izz");
    vc_check(near_pos(moment_of_inertia_solid_sphere(m, r), m * r * r * 2 / 5), "solid sphere 2/5 m r^2");
    vc_check(near_pos(moment_of_inertia_hollow_sphere(m, r), m * r * r * 2 / 3), "hollow sphere 2/3 m r^2");
    for (int a = 0; a < 3; ++a) {
        vector3 c = moment_of_inertia_solid_cylinder(m, l, r, axis_of(a));
        vector3 h = moment_of_inertia_hollow_cylinder(m, l, ri, r, axis_of(a));
        for (int i = 0; i < 3; ++i) {
            vc_check(near_pos(c[i], i == a ? m * r * r / 2 : m * (3 * r * r + l * l) / 12), "solid cylinder inertia about and across its axis");
            vc_check(near_pos(h[i], i == a ? m * (ri * ri + r * r) / 2 : m * (3 * (ri * ri + r * r) + l * l) / 12), "hollow cylinder inertia about and across its axis");
        }
        cylinder_shape cs; cs.radius = r; cs.half_length = l; cs.axis = axis_of(a);
        vc_check(diag_is(moment_of_inertia(cs, m), moment_of_inertia_solid_cylinder(m, 2 * l, r, axis_of(a))), "cylinder shape tensor");
    }
    vector3 s; s.x = s.y = s.z = moment_of_inertia_solid_sphere(m, r);
    vc_check(diag_is(moment_of_inertia(sphere_shape{r}, m), s), "sphere shape tensor");
    vc_check(diag_is(moment_of_inertia(box_shape{e}, m), moment_of_inertia_solid_box(m, smul(e, 2))), "box shape tensor");
    shapes_variant_t var = box_shape{e};
    vc_check(diag_is(moment_of_inertia(var, m), moment_of_inertia_solid_box(m, smul(e, 2))), "variant tensor is that of the shape it holds");
}

// solid capsule: cylinder plus two hemispheres of a uniform solid, hemisphere centroid at 3r/8 from its flat side
VC_CONTRACT(capsule) {
    scalar m = any_gt("m", 0), r = any_gt("r", scalar(0.001)), l = any_ge("l", 0);
    // masses by volume: cylinder r^2 l, sphere 4/3 r^3 (pi cancels)
    scalar mc = m * l / (l + r * 4 / 3);
    scalar ms = m * (r * 4 / 3) / (l + r * 4 / 3);
    scalar along = mc * r * r / 2 + ms * r * r * 2 / 5;
    scalar across = mc * (3 * r * r + l * l) / 12 + ms * (r * r * 2 / 5 + l * l / 4 + l * r * 3 / 8);
    vc_cover("reached");
    for (int a = 0; a < 3; ++a) {
        vector3 c = moment_of_inertia_solid_capsule(m, l, r, axis_of(a));
        for (int i = 0; i < 3; ++i) {
            vc_check(near_pos(c[i], i == a ? along : across), i == a ? "capsule inertia about its axis" : "capsule inertia across its axis");
        }
        capsule_shape cs; cs.radius = r; cs.half_length = l; cs.axis = axis_of(a);
        vc_check(diag_is(moment_of_inertia(cs, m), moment_of_inertia_solid_capsule(m, 2 * l, r, axis_of(a))), "capsule shape tensor");
    }
}

// tetrahedron with a vertex at the origin... and any other: the tensor about the origin of a uniform solid is tr(C) 1 - C
VC_CONTRACT(tetrahedron_tensor) {
    vector3 a = any_vec3("a"), b = any_vec3("b"), c = any_vec3("c");
    scalar mass = any_gt("mass", 0);
    scalar d = det3(a, b, c);
    vc_assume(d > scalar(0.001));
    std::vector<vector3> v = {vector3_zero, a, b, c};
    std::vector<uint32_t> idx = {0, 2, 1, 0, 1, 3, 1, 2, 3, 0, 3, 2}, faces = {0, 3, 3, 3, 6, 3, 9, 3};
    vc_cover("reached");
    matrix3x3 t = moment_of_inertia_polyhedron(mass, v, idx, faces);
    vector3 s = sadd(a, sadd(b, c));
    scalar C[3][3];
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) C[i][j] = a[i] * a[j] + b[i] * b[j] + c[i] * c[j] + s[i] * s[j];
    for (int i = 0; i < 3; ++i) {
        for (int j = 0; j < 3; ++j) {
            scalar e = i == j ? C[(i + 1) % 3][(i + 1) % 3] + C[(i + 2) % 3][(i + 2) % 3] : -C[i][j];
            vc_check(vc_eq(t[i][j] * 20, mass * e), i == j ? "diagonal of the polyhedron tensor" : "products of inertia of the polyhedron tensor");
        }
    }
}

VC_CONTRACT(box_polyhedron_tensor) {
    vector3 h; h.x = any_gt("hx", scalar(0.01)); h.y = any_gt("hy", scalar(0.01)); h.z = any_gt("hz", scalar(0.01));
    scalar mass = any_gt("mass", 0);
    auto mesh = std::make_shared<convex_mesh>();
    make_box_mesh(h, mesh->vertices, mesh->indices, mesh->faces);
    polyhedron_shape sh(mesh);
    vc_cover("reached");
    matrix3x3 t = moment_of_inertia(sh, mass);
    for (int i = 0; i < 3; ++i) {
        scalar u = h[(i + 1) % 3], w = h[(i + 2) % 3];
        vc_check(vc_eq(t[i][i] * 3, mass * (u * u + w * w)), "a box as polyhedron has the inertia of the box");
        for (int j = 0; j < 3; ++j) if (j != i) vc_check(vc_eq(t[i][j], 0), "a box as polyhedron has no products of inertia");
    }
}

VC_CONTRACT(parallel_axis) {
    matrix3x3 I;
    const char *n[3] = {"r0", "r1", "r2"};
    for (int i = 0; i < 3; ++i) I[i] = any_vec3(n[i]);
    scalar m = any_gt("m", 0);
    vector3 d = any_vec3("d");
    vc_cover("reached");
    matrix3x3 t = shift_moment_of_inertia(I, m, d);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
        vc_check(vc_eq(t[i][j], I[i][j] + m * ((i == j ? sdot(d, d) : scalar(0)) - d[i] * d[j])), "parallel axis theorem");
}

// two boxes, the first one rotated and moved: sum of rotated tensors shifted by the parallel axis theorem, mass split by volume
VC_CONTRACT(compound_tensor) {
    vector3 h; h.x = any_gt("hx", scalar(0.01)); h.y = any_gt("hy", scalar(0.01)); h.z = any_gt("hz", scalar(0.01));
    scalar r = any_gt("r", scalar(0.01));
    vector3 p = any_vec3("p"), q = any_vec3("q");
    scalar mass = any_gt("mass", 0);
    quaternion o = any_quat("o");
    compound_shape c;
    c.add_shape(box_shape{h}, p, o);
    c.add_shape(box_shape{h}, q, quaternion_identity);
    vc_cover("reached");
    matrix3x3 t = moment_of_inertia(c, mass);
    scalar m = mass / 2;
    vector3 D = moment_of_inertia_solid_box(m, smul(h, 2));
    vector3 ex = srot(o, vector3{1, 0, 0}), ey = srot(o, vector3{0, 1, 0}), ez = srot(o, vector3{0, 0, 1});
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
        scalar w = D.x * ex[i] * ex[j] + D.y * ey[i] * ey[j] + D.z * ez[i] * ez[j]
                 + m * ((i == j ? sdot(p, p) : scalar(0)) - p[i] * p[j])
                 + (i == j ? D[i] + m * sdot(q, q) : scalar(0)) - m * q[i] * q[j];
        vc_check(vc_eq(t[i][j], w), "compound tensor is the sum of its parts' tensors, rotated and shifted");
    }
}
