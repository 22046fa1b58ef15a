// C02: vector and matrix algebra means what it says.
#include "vc.hpp"
#include <edyn/math/math.hpp>
#include <edyn/math/vector2_3_util.hpp>
#include <cmath>

namespace {
matrix3x3 any_mat(const char *n) { matrix3x3 m; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) (&m.row[i].x)[j] = vc_real(n, 10 + 3 * i + j); return m; }
scalar at(const matrix3x3 &m, int i, int j) { return (&m.row[i].x)[j]; }
scalar at(const vector3 &v, int i) { return (&v.x)[i]; }
scalar sdet(const matrix3x3 &m) {
    return at(m,0,0) * (at(m,1,1) * at(m,2,2) - at(m,1,2) * at(m,2,1)) - at(m,0,1) * (at(m,1,0) * at(m,2,2) - at(m,1,2) * at(m,2,0))
         + at(m,0,2) * (at(m,1,0) * at(m,2,1) - at(m,1,1) * at(m,2,0));
}
scalar prod(const matrix3x3 &a, const matrix3x3 &b, int i, int j) { return at(a,i,0) * at(b,0,j) + at(a,i,1) * at(b,1,j) + at(a,i,2) * at(b,2,j); }
template<typename F> bool each(const matrix3x3 &m, F f) {
    bool r = true;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r = vc_and(r, vc_eq(at(m, i, j), f(i, j)));
    return r;
}
template<typename F> bool each3(const vector3 &v, F f) { return vc_and(vc_eq(v.x, f(0)), vc_and(vc_eq(v.y, f(1)), vc_eq(v.z, f(2)))); }
}

VC_CONTRACT(mat_ops) {
    auto a = any_mat("a"), b = any_mat("b");
    auto v = any_vec3("v");
    auto k = any("k");
    vc_cover("reach");
    vc_check(each(a + b, [&](int i, int j) { return at(a,i,j) + at(b,i,j); }), "sum");
    vc_check(each(a - b, [&](int i, int j) { return at(a,i,j) - at(b,i,j); }), "difference");
    vc_check(each(a * b, [&](int i, int j) { return prod(a, b, i, j); }), "matrix product");
    vc_check(each(a * k, [&](int i, int j) { return at(a,i,j) * k; }), "matrix times scalar");
    vc_check(each(k * a, [&](int i, int j) { return at(a,i,j) * k; }), "scalar times matrix");
    vc_check(each3(a * v, [&](int i) { return at(a,i,0) * v.x + at(a,i,1) * v.y + at(a,i,2) * v.z; }), "matrix times vector");
    vc_check(each3(v * a, [&](int i) { return at(a,0,i) * v.x + at(a,1,i) * v.y + at(a,2,i) * v.z; }), "vector times matrix");
    auto c = a; c += b; auto d = a; d -= b; auto e = a; e *= b;
    vc_check(each(c, [&](int i, int j) { return at(a,i,j) + at(b,i,j); }), "+=");
    vc_check(each(d, [&](int i, int j) { return at(a,i,j) - at(b,i,j); }), "-=");
    vc_check(each(e, [&](int i, int j) { return prod(a, b, i, j); }), "*=");
    vc_check(each(transpose(a), [&](int i, int j) { return at(a,j,i); }), "transpose");
    vc_check(each(matrix3x3_columns(a.row[0], a.row[1], a.row[2]), [&](int i, int j) { return at(a,j,i); }), "from columns");
    for (int i = 0; i < 3; ++i) {
        vc_check(each3(a.column(i), [&](int r) { return at(a,r,i); }), "column");
        vc_check(vc_eq(a.column_dot(i, v), at(a,0,i) * v.x + at(a,1,i) * v.y + at(a,2,i) * v.z), "column_dot");
        vc_check(each3(a[i], [&](int j) { return at(a,i,j); }), "row access");
    }
    vc_check(vc_eq(a.determinant(), sdet(a)), "determinant");
    vc_check(each(diagonal_matrix(v), [&](int i, int j) { return i == j ? at(v, i) : scalar(0); }), "diagonal matrix");
    vc_check(each3(get_diagonal(a), [&](int i) { return at(a,i,i); }), "diagonal of a matrix");
    vc_check(each(scale_matrix(a, v), [&](int i, int j) { return at(a,i,j) * at(v,j); }), "scale_matrix");
    auto u = any_vec3("u");
    auto s = skew_matrix(v);
    auto x = scross(v, u);
    vc_check(each3(x, [&](int i) { return at(s,i,0) * u.x + at(s,i,1) * u.y + at(s,i,2) * u.z; }), "skew matrix is the cross product");
    vc_check(each(matrix3x3_identity, [](int i, int j) { return scalar(i == j); }), "identity");
    vc_check(each(matrix3x3_zero, [](int i, int j) { return scalar(0); }), "zero");
}
VC_CONTRACT(adjugate) {
    auto m = any_mat("m");
    auto a = adjugate_matrix(m);
    vc_cover("reach");
    auto det = sdet(m);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
        vc_check(vc_eq(prod(m, a, i, j), i == j ? det : scalar(0)), "m adj(m) = det I");
        vc_check(vc_eq(prod(a, m, i, j), i == j ? det : scalar(0)), "adj(m) m = det I");
    }
}
VC_CONTRACT(inverse) {
    auto m = any_mat("m");
    auto a = inverse_matrix(m);
    vc_cover("reach");
    auto det = sdet(m);
    auto ad = det < 0 ? -det : det;
    if (ad > EDYN_EPSILON) {
        vc_cover("invertible");
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
            vc_check(vc_eq(prod(m, a, i, j), i == j), "m inverse(m) = I");
            vc_check(vc_eq(prod(a, m, i, j), i == j), "inverse(m) m = I");
        }
    } else {
        vc_cover("singular");
        vc_check(each(a, [](int, int) { return scalar(0); }), "zero matrix when not invertible");
    }
}
VC_CONTRACT(inverse_symmetric) {
    matrix3x3 m;
    auto d = any_vec3("d"), o = any_vec3("o");
    m.row[0].x = d.x; m.row[1].y = d.y; m.row[2].z = d.z;
    m.row[0].y = m.row[1].x = o.x; m.row[0].z = m.row[2].x = o.y; m.row[1].z = m.row[2].y = o.z;
    auto det = sdet(m);
    vc_assume(vc_or(det > scalar(0.0001), det < scalar(-0.0001)));
    auto a = inverse_matrix_symmetric(m);
    vc_cover("reach");
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
        vc_check(vc_eq(prod(m, a, i, j), i == j), "m inverse(m) = I");
        vc_check(vc_eq(at(a, i, j), at(a, j, i)), "inverse is symmetric");
    }
}
VC_CONTRACT(mat_compare) {
    auto a = any_mat("a"), b = any_mat("b");
    bool e = true, l = true, le = true;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
        e = vc_and(e, at(a,i,j) == at(b,i,j)); l = vc_and(l, at(a,i,j) < at(b,i,j)); le = vc_and(le, at(a,i,j) <= at(b,i,j));
    }
    vc_cover("reach");
    vc_check((a == b) == e, "==");
    vc_check((a != b) == !e, "!=");
    vc_check((a < b) == l, "<");
    vc_check((b > a) == l, ">");
    vc_check((a <= b) == le, "<=");
    vc_check((b >= a) == le, ">=");
}
VC_CONTRACT(vec3_ops) {
    auto a = any_vec3("a"), b = any_vec3("b"), c = any_vec3("c");
    auto k = any("k");
    vc_cover("reach");
    vc_check(each3(a + b, [&](int i) { return at(a,i) + at(b,i); }), "sum");
    vc_check(each3(a - b, [&](int i) { return at(a,i) - at(b,i); }), "difference");
    vc_check(each3(-a, [&](int i) { return -at(a,i); }), "negation");
    vc_check(each3(a * b, [&](int i) { return at(a,i) * at(b,i); }), "component-wise product");
    vc_check(each3(a * k, [&](int i) { return at(a,i) * k; }), "times scalar");
    vc_check(each3(k * a, [&](int i) { return at(a,i) * k; }), "scalar times");
    auto t = a; t += b; auto u = a; u -= b; auto v = a; v *= k; auto w = a; w *= b;
    vc_check(each3(t, [&](int i) { return at(a,i) + at(b,i); }), "+=");
    vc_check(each3(u, [&](int i) { return at(a,i) - at(b,i); }), "-=");
    vc_check(each3(v, [&](int i) { return at(a,i) * k; }), "*= scalar");
    vc_check(each3(w, [&](int i) { return at(a,i) * at(b,i); }), "*= vector");
    vc_check(vc_eq(dot(a, b), sdot(a, b)), "dot");
    vc_check(eq3(cross(a, b), scross(a, b)), "cross");
    vc_check(vc_eq(triple_product(a, b, c), sdot(a, scross(b, c))), "triple product");
    vc_check(vc_eq(length_sqr(a), slen2(a)), "length_sqr");
    vc_check(vc_eq(distance_sqr(a, b), sdist2(a, b)), "distance_sqr");
    auto l = length(a), d = distance(a, b);
    vc_check(vc_and(vc_le(0, l), vc_eq(l * l, slen2(a))), "length");
    vc_check(vc_and(vc_le(0, d), vc_eq(d * d, sdist2(a, b))), "distance");
    for (int i = 0; i < 3; ++i) vc_check(vc_eq(a[i], at(a, i)), "component access");
    vc_check(all(vc_eq(vector3_x.x, 1), vc_eq(vector3_x.y, 0), vc_eq(vector3_x.z, 0), vc_eq(vector3_y.x, 0), vc_eq(vector3_y.y, 1), vc_eq(vector3_y.z, 0),
                 vc_eq(vector3_z.x, 0), vc_eq(vector3_z.y, 0), vc_eq(vector3_z.z, 1), vc_eq(vector3_zero.x, 0), vc_eq(vector3_zero.y, 0), vc_eq(vector3_zero.z, 0),
                 vc_eq(vector3_one.x, 1), vc_eq(vector3_one.y, 1), vc_eq(vector3_one.z, 1)), "constants");
}
VC_CONTRACT(vec3_divide) {
    auto a = any_vec3("a"), b = any_vec3("b");
    b.x = any_gt("bx", 0); b.y = any_gt("by", 0); b.z = any_gt("bz", 0);
    auto k = any_gt("k", 0);
    auto sg = vc_sel(vc_bool("neg"), -1, 1);
    auto ks = k * sg; auto bs = smul(b, sg);
    vc_cover("reach");
    vc_check(each3(a / ks, [&](int i) { return at(a,i) / ks; }), "divide by scalar");
    vc_check(each3(ks / bs, [&](int i) { return ks / at(bs,i); }), "scalar divided by vector");
    vc_check(each3(a / bs, [&](int i) { return at(a,i) / at(bs,i); }), "component-wise division");
    auto t = a; t /= ks; auto u = a; u /= bs;
    vc_check(each3(t, [&](int i) { return at(a,i) / ks; }), "/= scalar");
    vc_check(each3(u, [&](int i) { return at(a,i) / at(bs,i); }), "/= vector");
}
VC_CONTRACT(vec3_compare) {
    auto a = any_vec3("a"), b = any_vec3("b");
    vc_cover("reach");
    auto e = all(a.x == b.x, a.y == b.y, a.z == b.z);
    vc_check((a == b) == e, "==");
    vc_check((a != b) == !e, "!=");
    vc_check((a < b) == all(a.x < b.x, a.y < b.y, a.z < b.z), "<");
    vc_check((a > b) == all(a.x > b.x, a.y > b.y, a.z > b.z), ">");
    vc_check((a <= b) == all(a.x <= b.x, a.y <= b.y, a.z <= b.z), "<=");
    vc_check((a >= b) == all(a.x >= b.x, a.y >= b.y, a.z >= b.z), ">=");
}
VC_CONTRACT(vec3_select) {
    auto a = any_vec3("a"), b = any_vec3("b");
    vc_cover("reach");
    auto mn = edyn::min(a, b), mx = edyn::max(a, b), ab = edyn::abs(a);
    for (int i = 0; i < 3; ++i) {
        auto x = at(a, i), y = at(b, i);
        vc_check(vc_eq(at(mn, i), vc_sel(x < y, x, y)), "element-wise minimum");
        vc_check(vc_eq(at(mx, i), vc_sel(x < y, y, x)), "element-wise maximum");
        vc_check(vc_eq(at(ab, i), vc_sel(x < 0, -x, x)), "element-wise absolute value");
    }
    auto i0 = min_index(a), i1 = max_index(a), i2 = min_index_abs(a), i3 = max_index_abs(a);
    vc_check(vc_and(vc_and(i0 < 3, i1 < 3), vc_and(i2 < 3, i3 < 3)), "index in range");
    for (int i = 0; i < 3; ++i) {
        vc_check(vc_le(a[i0], at(a, i)), "min_index is the lowest coordinate");
        vc_check(vc_le(at(a, i), a[i1]), "max_index is the greatest coordinate");
        vc_check(vc_le(ab[i2], at(ab, i)), "min_index_abs is the lowest absolute coordinate");
        vc_check(vc_le(at(ab, i), ab[i3]), "max_index_abs is the greatest absolute coordinate");
    }
}
VC_CONTRACT(vec3_normalize) {
    auto a = any_vec3("a");
    vc_assume(slen2(a) > scalar(0.000001));
    auto n = normalize(a);
    auto l = std::sqrt(slen2(a));
    vc_cover("reach");
    vc_check(eq3(smul(n, l), a), "same direction");
    vc_check(vc_eq(slen2(n), 1), "unit length");
    auto t = a;
    auto r = try_normalize(t);
    vc_check(r, "try_normalize succeeds on a non-zero vector");
    vc_check(eq3(t, n), "try_normalize normalizes");
}
VC_CONTRACT(vec3_try_normalize_zero) {
    vector3 t; t.x = t.y = t.z = 0;
    auto k = any("k");
    vc_cover("reach");
    auto r = try_normalize(t);
    vc_check(!r, "the zero vector is not normalized");
    vc_check(all(vc_eq(t.x, 0), vc_eq(t.y, 0), vc_eq(t.z, 0)), "and is left unchanged");
}
VC_CONTRACT(projections) {
    auto v = any_vec3("v"), q = any_vec3("q");
    auto n = any_unit3("n");
    vc_cover("reach");
    auto p = project_direction(v, n);
    vc_check(vc_eq(sdot(p, n), 0), "projected direction lies in the plane");
    vc_check(eq3(scross(ssub(v, p), n), vector3{0, 0, 0}), "direction moves along the normal only");
    auto r = project_plane(v, q, n);
    vc_check(vc_eq(sdot(ssub(r, q), n), 0), "projected point lies on the plane");
    vc_check(eq3(scross(ssub(v, r), n), vector3{0, 0, 0}), "point moves along the normal only");
}
VC_CONTRACT(vec2_ops) {
    auto a = any_vec2("a"), b = any_vec2("b");
    auto k = any_gt("k", 0);
    vc_cover("reach");
    auto two = [](scalar x, scalar y) { vector2 v; v.x = x; v.y = y; return v; };
    vc_check(eq2(a + b, two(a.x + b.x, a.y + b.y)), "sum");
    vc_check(eq2(a - b, two(a.x - b.x, a.y - b.y)), "difference");
    vc_check(eq2(-a, two(-a.x, -a.y)), "negation");
    vc_check(eq2(a * k, two(a.x * k, a.y * k)), "times scalar");
    vc_check(eq2(k * a, two(a.x * k, a.y * k)), "scalar times");
    vc_check(eq2(a / k, two(a.x / k, a.y / k)), "divide");
    auto t = a; t += b; auto u = a; u -= b; auto v = a; v *= k; auto w = a; w /= k;
    vc_check(eq2(t, two(a.x + b.x, a.y + b.y)), "+=");
    vc_check(eq2(u, two(a.x - b.x, a.y - b.y)), "-=");
    vc_check(eq2(v, two(a.x * k, a.y * k)), "*=");
    vc_check(eq2(w, two(a.x / k, a.y / k)), "/=");
    vc_check(vc_eq(dot(a, b), a.x * b.x + a.y * b.y), "dot");
    vc_check(vc_eq(length_sqr(a), a.x * a.x + a.y * a.y), "length_sqr");
    vc_check(vc_eq(distance_sqr(a, b), (a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y)), "distance_sqr");
    auto l = length(a), d = distance(a, b);
    vc_check(vc_and(vc_le(0, l), vc_eq(l * l, a.x * a.x + a.y * a.y)), "length");
    vc_check(vc_and(vc_le(0, d), vc_eq(d * d, (a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y))), "distance");
    vc_check(vc_eq(perp_product(a, b), a.x * b.y - a.y * b.x), "perp product");
    auto o = orthogonal(a);
    vc_check(vc_and(vc_eq(sdot2(a, o), 0), vc_eq(o.x * o.x + o.y * o.y, a.x * a.x + a.y * a.y)), "orthogonal vector");
}
VC_CONTRACT(vec2_more) {
    auto a = any_vec2("a"), b = any_vec2("b");
    auto k = any("k");
    auto two = [](scalar x, scalar y) { vector2 v; v.x = x; v.y = y; return v; };
    vc_cover("reach");
    vc_check(eq2(a * b, two(a.x * b.x, a.y * b.y)), "component-wise product");
    const auto c = a;
    vc_check(vc_and(c[0] == a.x, c[1] == a.y), "indexing");
    auto m = a; m[0] = b.x; m[1] = k;
    vc_check(eq2(m, two(b.x, k)), "assignment by index");
    vc_check(all(eq2(vector2_zero, two(0, 0)), eq2(vector2_one, two(1, 1)), eq2(vector2_x, two(1, 0)), eq2(vector2_y, two(0, 1))), "constants");
}
VC_CONTRACT(vec2_divide) {
    vector2 a; a.x = any_gt("ax", 0); a.y = any_gt("ay", 0);
    auto k = any("k");
    vc_cover("reach");
    auto d = k / a;
    vc_check(vc_and(vc_eq(d.x * a.x, k), vc_eq(d.y * a.y, k)), "scalar over vector");
    vector2 n; n.x = -a.x; n.y = a.y;
    auto e = k / n;
    vc_check(vc_and(vc_eq(e.x * a.x, -k), vc_eq(e.y * a.y, k)), "scalar over vector with a negative element");
}
VC_CONTRACT(vec2_normalize) {
    auto a = any_vec2("a");
    vc_assume(a.x * a.x + a.y * a.y > scalar(0.0001));
    vc_cover("reach");
    auto n = normalize(a);
    vc_check(vc_eq(n.x * n.x + n.y * n.y, 1), "unit length");
    vc_check(vc_eq(n.x * a.y, n.y * a.x), "same line");
    vc_check(vc_lt(0, n.x * a.x + n.y * a.y), "same direction");
}
VC_CONTRACT(quat_compare) {
    auto a = any_raw_quat("a"), b = any_raw_quat("b");
    bool e = all(a.x == b.x, a.y == b.y, a.z == b.z, a.w == b.w);
    vc_cover("reach");
    vc_check((a == b) == e, "==");
    vc_check((a != b) == !e, "!=");
    vc_check(a == a, "reflexive");
    const auto c = a;
    vc_check(all(c[0] == a.x, c[1] == a.y, c[2] == a.z, c[3] == a.w), "indexing");
}
VC_CONTRACT(quat_divide) {
    quaternion a; a.x = any_gt("ax", 0); a.y = any_gt("ay", 0); a.z = any_gt("az", 0); a.w = any_gt("aw", 0);
    auto k = any("k");
    vc_cover("reach");
    auto d = k / a;
    vc_check(all(vc_eq(d.x * a.x, k), vc_eq(d.y * a.y, k), vc_eq(d.z * a.z, k), vc_eq(d.w * a.w, k)), "scalar over quaternion");
}
VC_CONTRACT(vec3_round) {
    auto v = any_vec3("v");
    vc_cover("reach");
    auto f = floor(v), c = ceil(v);
    for (int i = 0; i < 3; ++i) {
        vc_check(vc_and(f[i] <= v[i], v[i] < f[i] + 1), "floor is the integer below");
        vc_check(vc_and(c[i] >= v[i], v[i] > c[i] - 1), "ceil is the integer above");
        vc_check(vc_and(std::floor(f[i]) == f[i], std::floor(c[i]) == c[i]), "floor and ceil are integers");
    }
}
VC_CONTRACT(angle_normalize) {
    auto s = any_in("s", -100, 100);
    vc_cover("reach");
    auto r = normalize_angle(s);
    vc_check(vc_and(vc_le(-pi, r), vc_le(r, pi)), "between -pi and pi");
    auto t = (s - r) / pi2;
    vc_check(vc_eq(std::floor(t + scalar(0.5)), t), "differs by full turns");
}
VC_CONTRACT(vec2_vec3) {
    auto v = any_vec3("v");
    vc_cover("reach");
    auto z = [](vector3 a) { return a; };
    vc_check(eq3(to_vector3_xy(to_vector2_xy(v)), vector3{v.x, v.y, 0}), "xy");
    vc_check(eq3(to_vector3_xz(to_vector2_xz(v)), vector3{v.x, 0, v.z}), "xz");
    vc_check(eq3(to_vector3_yz(to_vector2_yz(v)), vector3{0, v.y, v.z}), "yz");
    vc_check(eq3(to_vector3_yx(to_vector2_yx(v)), vector3{v.x, v.y, 0}), "yx");
    vc_check(eq3(to_vector3_zx(to_vector2_zx(v)), vector3{v.x, 0, v.z}), "zx");
    vc_check(eq3(to_vector3_zy(to_vector2_zy(v)), vector3{0, v.y, v.z}), "zy");
}
VC_CONTRACT(scalars) {
    auto a = any("a"), b = any("b"), s = any("s");
    vc_cover("reach");
    vc_check(vc_eq(lerp(a, b, s), a + (b - a) * s), "lerp");
    vc_check(vc_eq(square(a), a * a), "square");
    vc_check(vc_eq(clamp_unit(a), vc_sel(a < 0, 0, vc_sel(a > 1, 1, a))), "clamp_unit");
    vc_check(vc_eq(to_sign(true), 1), "to_sign(true)");
    vc_check(vc_eq(to_sign(false), -1), "to_sign(false)");
    vc_check(vc_eq(to_radians(to_degrees(a)), a), "degrees and radians are inverse");
    vc_check(vc_eq(to_degrees(a) * pi, a * 180), "to_degrees");
    vc_check(vc_eq(to_Nm_per_degree(to_Nm_per_radian(a)), a), "torque unit conversions are inverse");
    vc_check(vc_eq(to_Nm_per_radian(a) * pi, a * 180), "to_Nm_per_radian");
    std::array<scalar, 4> arr{a, b, s, any("t")};
    vc_check(vc_eq(average(arr) * 4, arr[0] + arr[1] + arr[2] + arr[3]), "average");
}
