// C05: tangent bases are orthonormal and right handed.
#include "vc.hpp"
#include <edyn/math/geom.hpp>

namespace {
void basis(const vector3 &n, const vector3 &p, const vector3 &q) {
    vc_check(vc_and(vc_eq(slen2(p), 1), vc_eq(slen2(q), 1)), "tangents have unit length");
    vc_check(vc_and(vc_eq(sdot(n, p), 0), vc_eq(sdot(n, q), 0)), "tangents perpendicular to the normal");
    vc_check(vc_eq(sdot(p, q), 0), "tangents perpendicular to each other");
    vc_check(eq3(scross(n, p), q), "second tangent is normal x first tangent");
}
}
VC_CONTRACT(plane_space) {
    auto n = any_unit3("n");
    vector3 p, q;
    plane_space(n, p, q);
    vc_cover("reach");
    basis(n, p, q);
}
VC_CONTRACT(tangent_basis) {
    auto n = any_unit3("n");
    auto m = make_tangent_basis(n);
    vc_cover("reach");
    vector3 c[3];
    for (int i = 0; i < 3; ++i) c[i] = vector3{m.row[0][i], m.row[1][i], m.row[2][i]};
    vc_check(eq3(c[1], n), "the normal is the second column");
    basis(n, c[0], c[2]);
}
