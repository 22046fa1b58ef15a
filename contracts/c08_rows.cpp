// C08: constraint rows - effective mass, right hand side, impulse clamping and impulse application.
#include "vc.hpp"
#include <edyn/constraints/constraint_row.hpp>
#include <edyn/constraints/constraint_row_options.hpp>
#include <edyn/comp/delta_linvel.hpp>
#include <edyn/comp/delta_angvel.hpp>

namespace {
matrix3x3 any_mat(const char *n) {
    matrix3x3 m;
    for (int i = 0; i < 3; ++i) { m.row[i].x = vc_real(n, 3 * i); m.row[i].y = vc_real(n, 3 * i + 1); m.row[i].z = vc_real(n, 3 * i + 2); }
    return m;
}
vector3 mv(const matrix3x3 &m, const vector3 &v) {
    return vector3{sdot(m.row[0], v), sdot(m.row[1], v), sdot(m.row[2], v)};
}
bool eqm(const matrix3x3 &a, const matrix3x3 &b) { return all(eq3(a.row[0], b.row[0]), eq3(a.row[1], b.row[1]), eq3(a.row[2], b.row[2])); }
struct world {
    delta_linvel dvA, dvB;
    delta_angvel dwA, dwB;
};
void make(constraint_row &r, world &w) {
    r.J[0] = any_vec3("J0"); r.J[1] = any_vec3("J1"); r.J[2] = any_vec3("J2"); r.J[3] = any_vec3("J3");
    r.eff_mass = any("eff_mass"); r.rhs = any("rhs");
    r.lower_limit = any("lower"); r.upper_limit = any("upper"); r.impulse = any("impulse");
    r.inv_mA = any_ge("inv_mA", 0); r.inv_mB = any_ge("inv_mB", 0);
    r.inv_IA = any_mat("inv_IA"); r.inv_IB = any_mat("inv_IB");
    static_cast<vector3 &>(w.dvA) = any_vec3("dvA"); static_cast<vector3 &>(w.dvB) = any_vec3("dvB");
    static_cast<vector3 &>(w.dwA) = any_vec3("dwA"); static_cast<vector3 &>(w.dwB) = any_vec3("dwB");
    r.dvA = &w.dvA; r.dvB = &w.dvB; r.dwA = &w.dwA; r.dwB = &w.dwB;
}
scalar jv(const constraint_row &r, const vector3 &va, const vector3 &wa, const vector3 &vb, const vector3 &wb) {
    return sdot(r.J[0], va) + sdot(r.J[1], wa) + sdot(r.J[2], vb) + sdot(r.J[3], wb);
}
scalar k_mass(const constraint_row &r) {
    return slen2(r.J[0]) * r.inv_mA + sdot(mv(r.inv_IA, r.J[1]), r.J[1]) + slen2(r.J[2]) * r.inv_mB + sdot(mv(r.inv_IB, r.J[3]), r.J[3]);
}
bool same_config(const constraint_row &a, const constraint_row &b) {
    return all(eq3(a.J[0], b.J[0]), eq3(a.J[1], b.J[1]), eq3(a.J[2], b.J[2]), eq3(a.J[3], b.J[3]),
        vc_eq(a.lower_limit, b.lower_limit), vc_eq(a.upper_limit, b.upper_limit), vc_eq(a.inv_mA, b.inv_mA), vc_eq(a.inv_mB, b.inv_mB),
        eqm(a.inv_IA, b.inv_IA), eqm(a.inv_IB, b.inv_IB), a.dvA == b.dvA, a.dvB == b.dvB, a.dwA == b.dwA, a.dwB == b.dwB);
}
bool same_world(const world &a, const world &b) {
    return all(eq3(a.dvA, b.dvA), eq3(a.dvB, b.dvB), eq3(a.dwA, b.dwA), eq3(a.dwB, b.dwB));
}
}

VC_CONTRACT(prepare) {
    constraint_row r; world w; make(r, w);
    constraint_row_options o;
    o.error = any("error"); o.erp = any("erp"); o.restitution = any("restitution");
    auto va = any_vec3("va"), wa = any_vec3("wa"), vb = any_vec3("vb"), wb = any_vec3("wb");
    vc_assume(0 < k_mass(r));
    vc_cover("reach");
    auto r0 = r; auto w0 = w;
    prepare_row(r, o, va, wa, vb, wb);
    vc_check(vc_eq(r.eff_mass * k_mass(r0), 1), "effective mass is the inverse of J M^-1 J^T");
    vc_check(vc_lt(0, r.eff_mass), "effective mass is positive");
    vc_check(vc_eq(r.rhs, -(o.error * o.erp) - (1 + o.restitution) * jv(r0, va, wa, vb, wb)), "right hand side corrects velocity with restitution and error");
    vc_check(vc_eq(r.impulse, r0.impulse), "accumulated impulse kept");
    vc_check(same_config(r, r0), "row configuration kept");
    vc_check(same_world(w, w0), "delta velocities kept");
}

VC_CONTRACT(apply) {
    constraint_row r; world w; make(r, w);
    auto i = any("i");
    vc_cover("reach");
    auto r0 = r; auto w0 = w;
    apply_row_impulse(i, r);
    vc_check(eq3(w.dvA, sadd(w0.dvA, smul(r0.J[0], r0.inv_mA * i))), "linear A");
    vc_check(eq3(w.dvB, sadd(w0.dvB, smul(r0.J[2], r0.inv_mB * i))), "linear B");
    vc_check(eq3(w.dwA, sadd(w0.dwA, smul(mv(r0.inv_IA, r0.J[1]), i))), "angular A");
    vc_check(eq3(w.dwB, sadd(w0.dwB, smul(mv(r0.inv_IB, r0.J[3]), i))), "angular B");
    vc_check(all(same_config(r, r0), vc_eq(r.impulse, r0.impulse), vc_eq(r.rhs, r0.rhs), vc_eq(r.eff_mass, r0.eff_mass)), "row kept");
    vc_check(vc_eq(jv(r0, w.dvA, w.dwA, w.dvB, w.dwB), jv(r0, w0.dvA, w0.dwA, w0.dvB, w0.dwB) + k_mass(r0) * i), "relative velocity changes by J M^-1 J^T times the impulse");
}

VC_CONTRACT(apply_momentum) {
    // opposite linear Jacobians: total linear momentum is conserved, and a static body (zero inverse mass) does not move
    constraint_row r; world w; make(r, w);
    r.J[2] = smul(r.J[0], -1);
    r.inv_mA = any_gt("pA", 0); r.inv_mB = any_gt("pB", 0);
    auto i = any("i");
    vc_cover("reach");
    auto w0 = w;
    apply_row_impulse(i, r);
    auto pa = smul(ssub(w.dvA, w0.dvA), 1 / r.inv_mA), pb = smul(ssub(w.dvB, w0.dvB), 1 / r.inv_mB);
    vc_check(eq3(sadd(pa, pb), vector3{0, 0, 0}), "momentum conserved");
}

VC_CONTRACT(warm) {
    constraint_row r; world w; make(r, w);
    vc_cover("reach");
    auto r0 = r; auto w0 = w;
    auto i = r0.impulse;
    warm_start(r);
    vc_check(eq3(w.dvA, sadd(w0.dvA, smul(r0.J[0], r0.inv_mA * i))), "linear A");
    vc_check(eq3(w.dvB, sadd(w0.dvB, smul(r0.J[2], r0.inv_mB * i))), "linear B");
    vc_check(eq3(w.dwA, sadd(w0.dwA, smul(mv(r0.inv_IA, r0.J[1]), i))), "angular A");
    vc_check(eq3(w.dwB, sadd(w0.dwB, smul(mv(r0.inv_IB, r0.J[3]), i))), "angular B");
    vc_check(all(same_config(r, r0), vc_eq(r.impulse, r0.impulse), vc_eq(r.rhs, r0.rhs), vc_eq(r.eff_mass, r0.eff_mass)), "row kept");
}

VC_CONTRACT(solve) {
    constraint_row r; world w; make(r, w);
    if (!vc_symbolic() && r.lower_limit > r.upper_limit) { auto t = r.lower_limit; r.lower_limit = r.upper_limit; r.upper_limit = t; }
    vc_assume(r.lower_limit <= r.upper_limit);
    vc_cover("reach");
    auto r0 = r; auto w0 = w;
    auto d = solve(r);
    auto want = r0.impulse + (r0.rhs - jv(r0, w0.dvA, w0.dwA, w0.dvB, w0.dwB)) * r0.eff_mass;
    vc_check(vc_and(vc_le(r0.lower_limit, r.impulse), vc_le(r.impulse, r0.upper_limit)), "impulse within limits");
    vc_check(vc_eq(d, r.impulse - r0.impulse), "returned impulse is the change of the accumulated impulse");
    vc_check(vc_eq(r.impulse, vc_sel(want < r0.lower_limit, r0.lower_limit, vc_sel(want > r0.upper_limit, r0.upper_limit, want))), "accumulated impulse is the clamped target");
    vc_check(all(same_config(r, r0), vc_eq(r.rhs, r0.rhs), vc_eq(r.eff_mass, r0.eff_mass)), "row kept");
    vc_check(same_world(w, w0), "delta velocities kept");
}

VC_CONTRACT(solve_then_apply) {
    // A prepared row, solved without hitting a limit, meets its velocity target exactly.
    constraint_row r; world w; make(r, w);
    vc_assume(vc_and(r.lower_limit <= r.upper_limit, 0 < k_mass(r)));
    constraint_row_options o;
    o.error = any("error"); o.erp = any("erp"); o.restitution = any("restitution");
    auto va = any_vec3("va"), wa = any_vec3("wa"), vb = any_vec3("vb"), wb = any_vec3("wb");
    prepare_row(r, o, va, wa, vb, wb);
    auto before = jv(r, w.dvA, w.dwA, w.dvB, w.dwB);
    auto d = solve(r);
    apply_row_impulse(d, r);
    vc_cover("reach");
    auto after = jv(r, w.dvA, w.dwA, w.dvB, w.dwB);
    vc_check(vc_implies(vc_and(r.lower_limit < r.impulse, r.impulse < r.upper_limit), vc_eq(after, r.rhs)), "velocity target met when no limit is active");
    vc_check(vc_implies(r.impulse < r.upper_limit, vc_le(r.rhs, after)), "below the upper limit the row never falls short of its target");
    vc_check(vc_implies(r.impulse > r.lower_limit, vc_le(after, r.rhs)), "above the lower limit the row never overshoots its target");
}
