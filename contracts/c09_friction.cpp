// C09: friction impulses are limited by the normal load.
#include "vc.hpp"
#include <edyn/constraints/constraint_row.hpp>
#include <edyn/constraints/constraint_row_spin_friction.hpp>
#include <edyn/comp/delta_linvel.hpp>
#include <edyn/comp/delta_angvel.hpp>

namespace {
matrix3x3 any_mat(const char *n) {
    matrix3x3 m;
    for (int i = 0; i < 3; ++i) { m.row[i].x = vc_real(n, 3 * i); m.row[i].y = vc_real(n, 3 * i + 1); m.row[i].z = vc_real(n, 3 * i + 2); }
    return m;
}
vector3 mv(const matrix3x3 &m, const vector3 &v) { return vector3{sdot(m.row[0], v), sdot(m.row[1], v), sdot(m.row[2], v)}; }
struct world { delta_linvel dvA, dvB; delta_angvel dwA, dwB; };
struct setup {
    std::vector<constraint_row> rows;
    constraint_row_spin_friction s;
    world w;
    constraint_row normal;   // copy of the row the friction refers to
};
void make(setup &x) {
    x.rows.resize(2);
    auto k = vc_int("normal_row", 0, 1);
    for (int i = 0; i < 2; ++i) {
        auto &r = x.rows[i];
        r.J[0] = any_vec3(i ? "nJ0" : "mJ0"); r.J[1] = any_vec3(i ? "nJ1" : "mJ1"); r.J[2] = any_vec3(i ? "nJ2" : "mJ2"); r.J[3] = any_vec3(i ? "nJ3" : "mJ3");
        r.eff_mass = any(i ? "neff" : "meff"); r.rhs = any(i ? "nrhs" : "mrhs"); r.lower_limit = any(i ? "nlo" : "mlo"); r.upper_limit = any(i ? "nhi" : "mhi");
        r.impulse = any_ge(i ? "nimp" : "mimp", 0);
        r.inv_mA = any(i ? "nma" : "mma"); r.inv_mB = any(i ? "nmb" : "mmb");
        r.inv_IA = any_mat(i ? "nIA" : "mIA"); r.inv_IB = any_mat(i ? "nIB" : "mIB");
        r.dvA = &x.w.dvA; r.dvB = &x.w.dvB; r.dwA = &x.w.dwA; r.dwB = &x.w.dwB;
    }
    static_cast<vector3 &>(x.w.dvA) = any_vec3("dvA"); static_cast<vector3 &>(x.w.dvB) = any_vec3("dvB");
    static_cast<vector3 &>(x.w.dwA) = any_vec3("dwA"); static_cast<vector3 &>(x.w.dwB) = any_vec3("dwB");
    auto &s = x.s;
    s.J[0] = any_vec3("sJ0"); s.J[1] = any_vec3("sJ1"); s.eff_mass = any("seff"); s.rhs = any("srhs"); s.impulse = any("simp");
    s.friction_coefficient = any_ge("mu", 0);
    s.normal_row_index = k;
    x.normal = x.rows[k];
}
bool eqm(const matrix3x3 &a, const matrix3x3 &b) { return all(eq3(a.row[0], b.row[0]), eq3(a.row[1], b.row[1]), eq3(a.row[2], b.row[2])); }
bool row_kept(const constraint_row_spin_friction &a, const constraint_row_spin_friction &b) {
    return all(eq3(a.J[0], b.J[0]), eq3(a.J[1], b.J[1]), vc_eq(a.eff_mass, b.eff_mass), vc_eq(a.rhs, b.rhs), vc_eq(a.friction_coefficient, b.friction_coefficient), a.normal_row_index == b.normal_row_index);
}
}

VC_CONTRACT(solve_spin) {
    setup x; make(x);
    vc_cover("reach");
    auto s0 = x.s; auto w0 = x.w;
    auto n = x.normal;
    solve_spin_friction(x.s, x.rows);
    auto limit = s0.friction_coefficient * n.impulse;
    auto want = s0.impulse + (s0.rhs - sdot(s0.J[0], w0.dwA) - sdot(s0.J[1], w0.dwB)) * s0.eff_mass;
    auto d = x.s.impulse - s0.impulse;
    vc_check(vc_and(vc_le(-limit, x.s.impulse), vc_le(x.s.impulse, limit)), "spin impulse limited by the normal load");
    vc_check(vc_eq(x.s.impulse, vc_sel(want < -limit, -limit, vc_sel(want > limit, limit, want))), "accumulated spin impulse is the clamped target");
    vc_check(eq3(x.w.dwA, sadd(w0.dwA, smul(mv(n.inv_IA, s0.J[0]), d))), "angular A receives the change of impulse");
    vc_check(eq3(x.w.dwB, sadd(w0.dwB, smul(mv(n.inv_IB, s0.J[1]), d))), "angular B receives the change of impulse");
    vc_check(vc_and(eq3(x.w.dvA, w0.dvA), eq3(x.w.dvB, w0.dvB)), "linear velocities kept");
    vc_check(row_kept(x.s, s0), "row kept");
    vc_check(vc_eq(x.rows[s0.normal_row_index].impulse, n.impulse), "normal row kept");
}

VC_CONTRACT(warm_spin) {
    setup x; make(x);
    vc_cover("reach");
    auto s0 = x.s; auto w0 = x.w;
    auto n = x.normal;
    warm_start(x.s, x.rows);
    auto d = s0.impulse;
    vc_check(eq3(x.w.dwA, sadd(w0.dwA, smul(mv(n.inv_IA, s0.J[0]), d))), "angular A receives the stored impulse");
    vc_check(eq3(x.w.dwB, sadd(w0.dwB, smul(mv(n.inv_IB, s0.J[1]), d))), "angular B receives the stored impulse");
    vc_check(vc_and(eq3(x.w.dvA, w0.dvA), eq3(x.w.dvB, w0.dvB)), "linear velocities kept");
    vc_check(vc_and(row_kept(x.s, s0), vc_eq(x.s.impulse, s0.impulse)), "row kept");
}
