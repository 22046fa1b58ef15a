// C01: rotations are rigid and their representations agree.
#include "vc.hpp"
#include <edyn/math/transform.hpp>
#include <edyn/math/geom.hpp>
#include <edyn/math/coordinate_axis.hpp>
#include <cmath>

namespace {
quaternion qmul(const quaternion &a, const quaternion &b) { // Hamilton product, spelled out from i,j,k
    quaternion r;
    r.w = a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z;
    r.x = a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y;
    r.y = a.w * b.y - a.x * b.z + a.y * b.w + a.z * b.x;
    r.z = a.w * b.z + a.x * b.y - a.y * b.x + a.z * b.w;
    return r;
}
bool eqq(const quaternion &a, const quaternion &b) { return all(vc_eq(a.x, b.x), vc_eq(a.y, b.y), vc_eq(a.z, b.z), vc_eq(a.w, b.w)); }
vector3 mcol(const matrix3x3 &m, int j) { vector3 v; for (int i = 0; i < 3; ++i) (&v.x)[i] = (&m.row[i].x)[j]; return v; }
vector3 mrow(const matrix3x3 &m, int i) { return m.row[i]; }
vector3 mmul(const matrix3x3 &m, const vector3 &v) { vector3 r; r.x = sdot(m.row[0], v); r.y = sdot(m.row[1], v); r.z = sdot(m.row[2], v); return r; }
vector3 axis(int i) { vector3 v; v.x = i == 0; v.y = i == 1; v.z = i == 2; return v; }
// rotation of p about unit axis n by the angle with cosine c and sine s (Rodrigues)
vector3 rodrigues(const vector3 &n, scalar c, scalar s, const vector3 &p) {
    return sadd(smul(p, c), sadd(smul(scross(n, p), s), smul(n, sdot(n, p) * (1 - c))));
}
}

VC_CONTRACT(rotate) {
    auto q = any_quat("q");
    auto v = any_vec3("v"), u = any_vec3("u");
    auto r = rotate(q, v);
    vc_cover("reach");
    vc_check(eq3(r, srot(q, v)), "rotate(q,v) is q v q*");
    vc_check(vc_eq(slen2(r), slen2(v)), "rotate preserves length");
    vc_check(vc_eq(sdot(r, rotate(q, u)), sdot(v, u)), "rotate preserves dot products");
    vc_check(eq3(rotate(q, scross(v, u)), scross(r, rotate(q, u))), "rotate preserves cross products (orientation)");
    vc_check(eq3(rotate(conjugate(q), r), v), "conjugate undoes the rotation");
    vc_check(eq3(quaternion_x(q), srot(q, axis(0))), "quaternion_x");
    vc_check(eq3(quaternion_y(q), srot(q, axis(1))), "quaternion_y");
    vc_check(eq3(quaternion_z(q), srot(q, axis(2))), "quaternion_z");
    for (int i = 0; i < 3; ++i) {
        vc_check(eq3(coordinate_axis_vector(static_cast<coordinate_axis>(i)), axis(i)), "coordinate axis");
        vc_check(eq3(coordinate_axis_vector(static_cast<coordinate_axis>(i), q), srot(q, axis(i))), "rotated coordinate axis");
    }
}
VC_CONTRACT(quat_product) {
    auto p = any_raw_quat("p"), q = any_raw_quat("q");
    auto v = any_vec3("v");
    vc_cover("reach");
    vc_check(eqq(p * q, qmul(p, q)), "quaternion product");
    auto s = p; s *= q;
    vc_check(eqq(s, qmul(p, q)), "quaternion product assignment");
    quaternion w; w.x = v.x; w.y = v.y; w.z = v.z; w.w = 0;
    vc_check(eqq(p * v, qmul(p, w)), "quaternion times vector");
    vc_check(eqq(v * p, qmul(w, p)), "vector times quaternion");
    vc_check(vc_eq(qlen2(p * q), qlen2(p) * qlen2(q)), "product of lengths");
    vc_check(vc_eq(length_sqr(p), qlen2(p)), "length_sqr");
    vc_check(vc_eq(dot(p, q), p.x * q.x + p.y * q.y + p.z * q.z + p.w * q.w), "dot");
    auto c = conjugate(p);
    quaternion e; e.x = e.y = e.z = 0; e.w = qlen2(p);
    vc_check(eqq(qmul(p, c), e), "p times its conjugate is |p|^2");
    auto d = quaternion_derivative(p, v);
    auto h = qmul(w, p); h.x *= 0.5f; h.y *= 0.5f; h.z *= 0.5f; h.w *= 0.5f;
    vc_check(eqq(d, h), "quaternion_derivative is w q / 2");
    auto k = any("k");
    auto a = p + q, b = p - q, f = p * k, g = k * p;
    for (int i = 0; i < 4; ++i) {
        auto pi = (&p.x)[i], qi = (&q.x)[i];
        vc_check(all(vc_eq((&a.x)[i], pi + qi), vc_eq((&b.x)[i], pi - qi), vc_eq((&f.x)[i], pi * k), vc_eq((&g.x)[i], pi * k)), "component-wise operators");
    }
    auto a2 = p; a2 += q; auto b2 = p; b2 -= q;
    vc_check(vc_and(eqq(a2, a), eqq(b2, b)), "compound assignment");
    vc_check(eqq(quaternion_identity * p, p), "identity on the left");
    vc_check(eqq(p * quaternion_identity, p), "identity on the right");
}
VC_CONTRACT(quat_compose) {
    auto p = any_quat("p"), q = any_quat("q");
    auto v = any_vec3("v");
    vc_cover("reach");
    vc_check(eq3(rotate(p * q, v), srot(p, srot(q, v))), "product of quaternions composes rotations");
}
VC_CONTRACT(quat_normalize) {
    auto q = any_raw_quat("q");
    vc_assume(qlen2(q) > scalar(0.0001));
    auto n = normalize(q);
    vc_cover("reach");
    vc_check(vc_eq(qlen2(n), 1), "unit length");
    auto l = length(q);
    vc_check(vc_and(vc_le(0, l), vc_eq(l * l, qlen2(q))), "length");
    vc_check(all(vc_eq(n.x * l, q.x), vc_eq(n.y * l, q.y), vc_eq(n.z * l, q.z), vc_eq(n.w * l, q.w)), "same direction");
    auto k = any_gt("k", 0);
    auto d = q / k;
    vc_check(all(vc_eq(d.x * k, q.x), vc_eq(d.y * k, q.y), vc_eq(d.z * k, q.z), vc_eq(d.w * k, q.w)), "division by scalar");
}
VC_CONTRACT(to_matrix) {
    auto q = any_quat("q");
    auto v = any_vec3("v");
    auto m = to_matrix3x3(q);
    vc_cover("reach");
    vc_check(eq3(mmul(m, v), srot(q, v)), "matrix of q acts as q v q*");
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
        vc_check(vc_eq(sdot(mcol(m, i), mcol(m, j)), i == j), "columns orthonormal");
    vc_check(vc_eq(sdot(mcol(m, 0), scross(mcol(m, 1), mcol(m, 2))), 1), "determinant 1");
}
VC_CONTRACT(to_matrix_any_length) {
    auto q = any_raw_quat("q");
    vc_assume(qlen2(q) > scalar(0.0001));
    auto v = any_vec3("v");
    auto m = to_matrix3x3(q);
    vc_cover("reach");
    vc_check(eq3(smul(mmul(m, v), qlen2(q)), srot(q, v)), "matrix of a non-unit quaternion is its rotation");
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
        vc_check(vc_eq(sdot(mcol(m, i), mcol(m, j)), i == j), "columns orthonormal");
}
VC_CONTRACT(matrix_quaternion_roundtrip) {
    auto q = any_quat("q");
    auto v = any_vec3("v");
    // a rotation matrix, written from the definition
    matrix3x3 m;
    for (int j = 0; j < 3; ++j) { auto c = srot(q, axis(j)); for (int i = 0; i < 3; ++i) (&m.row[i].x)[j] = (&c.x)[i]; }
    auto r = to_quaternion(m);
    vc_cover("reach");
    vc_check(vc_eq(qlen2(r), 1), "unit quaternion");
    for (int i = 0; i < 4; ++i) for (int j = i; j < 4; ++j)
        vc_check(vc_eq((&r.x)[i] * (&r.x)[j], (&q.x)[i] * (&q.x)[j]), "to_quaternion returns plus or minus q");
}
VC_CONTRACT(transforms) {
    auto q = any_quat("q");
    auto pos = any_vec3("pos"), p = any_vec3("p");
    matrix3x3 m;
    for (int j = 0; j < 3; ++j) { auto c = srot(q, axis(j)); for (int i = 0; i < 3; ++i) (&m.row[i].x)[j] = (&c.x)[i]; }
    auto w = to_world_space(p, pos, q), wm = to_world_space(p, pos, m);
    auto o = to_object_space(p, pos, q), om = to_object_space(p, pos, m);
    vc_cover("reach");
    vc_check(eq3(w, sadd(pos, srot(q, p))), "to_world_space(q) = pos + q p q*");
    vc_check(eq3(wm, sadd(pos, srot(q, p))), "to_world_space(basis) agrees");
    vc_check(eq3(sadd(pos, srot(q, o)), p), "to_object_space(q) is the inverse");
    vc_check(eq3(sadd(pos, srot(q, om)), p), "to_object_space(basis) is the inverse");
    vc_check(eq3(to_object_space(w, pos, q), p), "world then object is the identity");
    vc_check(eq3(to_object_space(wm, pos, m), p), "world then object is the identity (basis)");
}
VC_CONTRACT(axis_angle) {
    auto h = any("h");
    auto n = any_unit3("n");
    auto p = any_vec3("p");
    auto q = quaternion_axis_angle_unit(n, 2 * h);
    vc_cover("reach");
    vc_check(vc_eq(qlen2(q), 1), "unit quaternion");
    vc_check(eq3(srot(q, p), rodrigues(n, std::cos(2 * h), std::sin(2 * h), p)), "rotation by the angle about the axis");
    vc_check(vc_eq(q.w, std::cos(h)), "scalar part is the cosine of half the angle");
}
VC_CONTRACT(axis_angle_any) {
    auto h = any("h");
    auto v = any_vec3("v");
    vc_assume(slen2(v) > scalar(0.0001));
    auto q = quaternion_axis_angle(v, 2 * h);
    vc_cover("reach");
    vc_check(vc_eq(qlen2(q), 1), "unit quaternion");
    auto l = std::sqrt(slen2(v));
    vc_check(vc_eq(q.w, std::cos(h)), "scalar part is the cosine of half the angle");
    vc_check(all(vc_eq(q.x * l, v.x * std::sin(h)), vc_eq(q.y * l, v.y * std::sin(h)), vc_eq(q.z * l, v.z * std::sin(h))), "vector part is the unit axis times sine of half the angle");
}
VC_CONTRACT(angle_and_axis) {
    auto q = any_quat("q");
    auto ang = quaternion_angle(q);
    auto n = quaternion_axis(q);
    vc_cover("reach");
    vc_check(vc_eq(std::cos(ang * scalar(0.5)), q.w), "quaternion_angle: cosine of half the angle is w");
    vc_check(vc_eq(slen2(n), 1), "quaternion_axis has unit length");
    auto s2 = 1 - q.w * q.w;
    if (s2 > scalar(0.01)) {
        vc_check(eq3(smul(n, std::sqrt(s2)), vector3{q.x, q.y, q.z}), "quaternion_axis times the sine of half the angle is the vector part");
    }
}
VC_CONTRACT(integrate) {
    auto q = any_quat("q");
    auto w = any_vec3("w");
    auto dt = any_in("dt", 0, 1);
    vc_opt("nosafety", "1");
    auto r = integrate(q, w, dt);
    vc_cover("reach");
    vc_check(vc_eq(qlen2(r), 1), "integrated orientation has unit length");
}
VC_CONTRACT(integrate_regular) {
    auto q = any_quat("q");
    auto w = any_vec3("w");
    auto dt = any_in("dt", 0, 1);
    vc_assume(slen2(w) > scalar(0.0001));
    auto r = integrate(q, w, dt);
    auto ws = std::sqrt(slen2(w));
    auto a = scalar(0.5) * ws * dt;
    quaternion e; auto k = std::sin(a) / ws; e.x = w.x * k; e.y = w.y * k; e.z = w.z * k; e.w = std::cos(a);
    vc_cover("reach");
    vc_check(eqq(r, qmul(e, q)), "integration is the exact rotation by |w| dt about w, applied after q");
}
VC_CONTRACT(shortest_arc) {
    auto a = any_unit3("a"), b = any_unit3("b");
    auto d = sdot(a, b);
    vc_assume(d > scalar(-0.999));
    vc_assume(d <= 1);
    auto q = shortest_arc(a, b);
    vc_cover("reach");
    vc_check(vc_eq(qlen2(q), 1), "unit quaternion");
    vc_check(eq3(srot(q, a), b), "takes the first direction to the second");
    vc_check(vc_le(0, q.w), "along the shorter arc");
    vc_check(vc_and(vc_eq(q.x * a.x + q.y * a.y + q.z * a.z, 0), vc_eq(q.x * b.x + q.y * b.y + q.z * b.z, 0)), "axis perpendicular to both");
}
VC_CONTRACT(shortest_arc_opposite) {
    auto a = any_unit3("a");
    auto b = smul(a, -1);
    auto q = shortest_arc(a, b);
    vc_cover("reach");
    vc_check(vc_eq(qlen2(q), 1), "unit quaternion");
    vc_check(eq3(srot(q, a), b), "takes the direction to its opposite");
}
VC_CONTRACT(slerp) {
    auto p = any_quat("p"), q = any_quat("q");
    auto s = any_in("s", 0, 1);
    auto d = p.x * q.x + p.y * q.y + p.z * q.z + p.w * q.w;
    vc_assume(vc_and(d < scalar(0.999), d > scalar(-0.999)));
    auto sg = scalar(1);
    if (d < 0) sg = scalar(-1);
    auto r = slerp(p, q, s);
    vc_cover("reach");
    vc_check(vc_eq(qlen2(r), 1), "unit length");
    auto e0 = slerp(p, q, 0), e1 = slerp(p, q, 1);
    vc_check(eqq(e0, p), "s = 0 gives the first quaternion");
    quaternion q2; q2.x = sg * q.x; q2.y = sg * q.y; q2.z = sg * q.z; q2.w = sg * q.w;
    vc_check(eqq(e1, q2), "s = 1 gives the second rotation along the shorter path");
}
VC_CONTRACT(angle_between) {
    auto p = any_quat("p"), q = any_quat("q");
    vc_opt("nosafety", "1");
    auto a = angle_between(p, q);
    vc_cover("reach");
    vc_check(vc_eq(std::cos(a * scalar(0.5)), p.x * q.x + p.y * q.y + p.z * q.z + p.w * q.w), "cosine of half the angle is the dot product");
}
VC_CONTRACT(rotation_matrices) {
    auto ax = any("ax"), ay = any("ay"), az = any("az");
    auto v = any_vec3("v");
    vc_cover("reach");
    auto X = rotation_matrix_x(ax), Y = rotation_matrix_y(ay), Z = rotation_matrix_z(az);
    vc_check(eq3(mmul(X, v), rodrigues(axis(0), std::cos(ax), std::sin(ax), v)), "rotation_matrix_x");
    vc_check(eq3(mmul(Y, v), rodrigues(axis(1), std::cos(ay), std::sin(ay), v)), "rotation_matrix_y");
    vc_check(eq3(mmul(Z, v), rodrigues(axis(2), std::cos(az), std::sin(az), v)), "rotation_matrix_z");
    auto M = rotation_matrix_xyz(ax, ay, az);
    auto rx = [&](vector3 u) { return rodrigues(axis(0), std::cos(ax), std::sin(ax), u); };
    auto ry = [&](vector3 u) { return rodrigues(axis(1), std::cos(ay), std::sin(ay), u); };
    auto rz = [&](vector3 u) { return rodrigues(axis(2), std::cos(az), std::sin(az), u); };
    vc_check(eq3(mmul(M, v), rx(ry(rz(v)))), "rotation_matrix_xyz is the product X Y Z");
}
VC_CONTRACT(euler) {
    auto q = any_quat("q");
    matrix3x3 m;
    for (int j = 0; j < 3; ++j) { auto c = srot(q, axis(j)); for (int i = 0; i < 3; ++i) (&m.row[i].x)[j] = (&c.x)[i]; }
    vc_assume(vc_and(m.row[0].z < scalar(0.999), m.row[0].z > scalar(-0.999)));
    auto e = get_euler_angles_xyz(m);
    vc_cover("reach");
    auto k = std::sqrt(1 - m.row[0].z * m.row[0].z);
    vc_check(vc_eq(std::sin(e.y), m.row[0].z), "sin y");
    vc_check(vc_eq(k * std::sin(e.x), -m.row[1].z), "sin x");
    vc_check(vc_eq(k * std::cos(e.x), m.row[2].z), "cos x");
    vc_check(vc_eq(k * std::sin(e.z), -m.row[0].y), "sin z");
    vc_check(vc_eq(k * std::cos(e.z), m.row[0].x), "cos z");
}
