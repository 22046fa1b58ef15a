// C09: the two friction rows of a contact: the friction circle.
#include "vc.hpp"
#include <edyn/constraints/constraint_row.hpp>
#include <edyn/constraints/constraint_row_friction.hpp>
#include <edyn/comp/delta_linvel.hpp>
#include <edyn/comp/delta_angvel.hpp>

namespace {
matrix3x3 any_mat(const char *n) {
    matrix3x3 m;
    for (int i = 0; i < 3; ++i) { m.row[i].x = vc_real(n, 3 * i); m.row[i].y = vc_real(n, 3 * i + 1); m.row[i].z = vc_real(n, 3 * i + 2); }
    return m;
}
vector3 mv(const matrix3x3 &m, const vector3 &v) { return vector3{sdot(m.row[0], v), sdot(m.row[1], v), sdot(m.row[2], v)}; }
struct world { delta_linvel dvA, dvB; delta_angvel dwA, dwB; };
struct setup { std::vector<constraint_row> rows; constraint_row_friction f; world w; constraint_row normal; };
void make(setup &x) {
    x.rows.resize(2);
    auto k = vc_bool("second") ? 1 : 0;
    for (int i = 0; i < 2; ++i) {
        auto &r = x.rows[i];
        r.J[0] = r.J[1] = r.J[2] = r.J[3] = vector3{0, 0, 0};
        r.eff_mass = any(i ? "neff" : "meff"); r.rhs = any(i ? "nrhs" : "mrhs"); r.lower_limit = 0; r.upper_limit = 100;
        r.impulse = any_ge(i ? "nimp" : "mimp", 0);
        r.inv_mA = any(i ? "nma" : "mma"); r.inv_mB = any(i ? "nmb" : "mmb");
        r.inv_IA = any_mat(i ? "nIA" : "mIA"); r.inv_IB = any_mat(i ? "nIB" : "mIB");
        r.dvA = &x.w.dvA; r.dvB = &x.w.dvB; r.dwA = &x.w.dwA; r.dwB = &x.w.dwB;
    }
    static_cast<vector3 &>(x.w.dvA) = any_vec3("dvA"); static_cast<vector3 &>(x.w.dvB) = any_vec3("dvB");
    static_cast<vector3 &>(x.w.dwA) = any_vec3("dwA"); static_cast<vector3 &>(x.w.dwB) = any_vec3("dwB");
    for (int i = 0; i < 2; ++i) {
        auto &r = x.f.row[i];
        r.J[0] = any_vec3(i ? "bJ0" : "aJ0"); r.J[1] = any_vec3(i ? "bJ1" : "aJ1"); r.J[2] = any_vec3(i ? "bJ2" : "aJ2"); r.J[3] = any_vec3(i ? "bJ3" : "aJ3");
        r.eff_mass = any(i ? "beff" : "aeff"); r.rhs = any(i ? "brhs" : "arhs"); r.impulse = any(i ? "bimp" : "aimp");
    }
    x.f.friction_coefficient = any_ge("mu", 0);
    x.f.normal_row_index = k;
    x.normal = x.rows[k];
}
scalar speed(const constraint_row_friction::individual_row &r, const world &w) { return sdot(r.J[0], w.dvA) + sdot(r.J[1], w.dwA) + sdot(r.J[2], w.dvB) + sdot(r.J[3], w.dwB); }
bool kept(const constraint_row_friction &a, const constraint_row_friction &b) {
    bool ok = vc_and(vc_eq(a.friction_coefficient, b.friction_coefficient), a.normal_row_index == b.normal_row_index);
    for (int i = 0; i < 2; ++i) {
        ok = all(ok, vc_eq(a.row[i].eff_mass, b.row[i].eff_mass), vc_eq(a.row[i].rhs, b.row[i].rhs), eq3(a.row[i].J[0], b.row[i].J[0]), eq3(a.row[i].J[1], b.row[i].J[1]));
        ok = all(ok, eq3(a.row[i].J[2], b.row[i].J[2]), eq3(a.row[i].J[3], b.row[i].J[3]));
    }
    return ok;
}
void applied(const constraint_row_friction &f, const constraint_row &n, const world &w0, const world &w, scalar d0, scalar d1) {
    auto &a = f.row[0], &b = f.row[1];
    vc_check(eq3(w.dvA, sadd(w0.dvA, smul(sadd(smul(a.J[0], d0), smul(b.J[0], d1)), n.inv_mA))), "linear A receives the change of both impulses");
    vc_check(eq3(w.dwA, sadd(w0.dwA, sadd(smul(mv(n.inv_IA, a.J[1]), d0), smul(mv(n.inv_IA, b.J[1]), d1)))), "angular A receives the change of both impulses");
    vc_check(eq3(w.dvB, sadd(w0.dvB, smul(sadd(smul(a.J[2], d0), smul(b.J[2], d1)), n.inv_mB))), "linear B receives the change of both impulses");
    vc_check(eq3(w.dwB, sadd(w0.dwB, sadd(smul(mv(n.inv_IB, a.J[3]), d0), smul(mv(n.inv_IB, b.J[3]), d1)))), "angular B receives the change of both impulses");
}
}

VC_CONTRACT(solve_circle) {
    setup x; make(x);
    auto f0 = x.f; auto w0 = x.w; auto n = x.normal;
    // the unlimited impulses
    auto t0 = vc_name(f0.row[0].impulse + (f0.row[0].rhs - speed(f0.row[0], w0)) * f0.row[0].eff_mass, "t0");
    auto t1 = vc_name(f0.row[1].impulse + (f0.row[1].rhs - speed(f0.row[1], w0)) * f0.row[1].eff_mass, "t1");
    auto limit = f0.friction_coefficient * n.impulse;
    auto len2 = t0 * t0 + t1 * t1;
    bool beyond = len2 > limit * limit;
    solve_friction(x.f, x.rows);
    auto p = x.f.row[0].impulse, q = x.f.row[1].impulse;
    vc_check(vc_le(p * p + q * q, limit * limit), "the friction impulse is within the friction circle");
    vc_check(vc_implies(vc_not(beyond), vc_and(vc_eq(p, t0), vc_eq(q, t1))), "within the circle, the impulse meets the target");
    vc_check(vc_implies(vc_and(beyond, len2 > scalar(0.001)), vc_eq(p * p + q * q, limit * limit)), "beyond it, the impulse is on the circle");
    vc_check(vc_implies(vc_and(beyond, len2 > scalar(0.001)), vc_and(vc_eq(p * t1, q * t0), vc_le(0, p * t0 + q * t1))), "in the direction of the target");
    applied(f0, n, w0, x.w, p - f0.row[0].impulse, q - f0.row[1].impulse);
    vc_check(kept(x.f, f0), "the rows are kept");
    vc_check(vc_eq(x.rows[f0.normal_row_index].impulse, n.impulse), "the normal row is kept");
    vc_cover("reach");
}
VC_CONTRACT(warm_circle) {
    setup x; make(x);
    auto f0 = x.f; auto w0 = x.w; auto n = x.normal;
    warm_start(x.f, x.rows);
    applied(f0, n, w0, x.w, f0.row[0].impulse, f0.row[1].impulse);
    vc_check(all(kept(x.f, f0), vc_eq(x.f.row[0].impulse, f0.row[0].impulse), vc_eq(x.f.row[1].impulse, f0.row[1].impulse)), "the rows are kept");
    vc_cover("reach");
}
