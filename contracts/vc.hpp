#ifndef VC_HPP
#define VC_HPP
// Contract language shared by the verifier (symbolic execution of the LLVM IR) and the native replay program.
// In the verifier the vc_* functions are intercepted; natively they are defined in vc_native.cpp.
#include <edyn/config/config.h>
#include <edyn/math/scalar.hpp>
#include <edyn/math/vector2.hpp>
#include <edyn/math/vector3.hpp>
#include <edyn/math/quaternion.hpp>
#include <edyn/math/matrix3x3.hpp>
#include <edyn/comp/aabb.hpp>
#include <cstdint>
#include <cstddef>
#include <vector>

using namespace edyn;

using vc_scalar = edyn::scalar;
extern "C" {
vc_scalar vc_real(const char *name, int comp);
unsigned long vc_int(const char *name, unsigned long lo, unsigned long hi);
bool vc_bool(const char *name);
void vc_assume(bool c);
void vc_check(bool c, const char *label);   // postcondition clause
void vc_lemma(bool c, const char *label);   // proved, then available to later clauses
void vc_cover(const char *label);           // must be reachable
void vc_hint(vc_scalar v);
vc_scalar vc_name(vc_scalar v, const char *name);  // verifier: values equal to v are handled as one opaque symbol (with its definition as fallback)
vc_scalar vc_rewrite(vc_scalar v, vc_scalar w, const char *name);  // verifier: proves v == w, then writes w for values equal to v
void vc_opt(const char *key, const char *value);
bool vc_eq(vc_scalar a, vc_scalar b);               // exact in the verifier, with tolerance natively
bool vc_le(vc_scalar a, vc_scalar b);
bool vc_lt(vc_scalar a, vc_scalar b);
bool vc_and(bool a, bool b);
bool vc_or(bool a, bool b);
bool vc_not(bool a);
bool vc_implies(bool a, bool b);
vc_scalar vc_sel(bool c, vc_scalar a, vc_scalar b);
unsigned long vc_sel_int(bool c, unsigned long a, unsigned long b);
void vc_unit(vc_scalar *p, int n);              // verifier: assume the n components have unit length; natively: normalise
void vc_replace(void *real, void *spec);
bool vc_symbolic();
}

#define VC_CONTRACT(name) extern "C" __attribute__((used)) void vc_contract_##name()

namespace vc {

inline scalar any(const char *n) { return vc_real(n, -1); }
inline vector2 any_vec2(const char *n) { vector2 v; v.x = vc_real(n, 0); v.y = vc_real(n, 1); return v; }
inline vector3 any_vec3(const char *n) { vector3 v; v.x = vc_real(n, 0); v.y = vc_real(n, 1); v.z = vc_real(n, 2); return v; }
inline quaternion any_raw_quat(const char *n) { quaternion q; q.x = vc_real(n, 0); q.y = vc_real(n, 1); q.z = vc_real(n, 2); q.w = vc_real(n, 3); return q; }

// spec-side algebra: written out here independently of the repository's own operators
inline scalar sdot(const vector3 &a, const vector3 &b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline scalar sdot2(const vector2 &a, const vector2 &b) { return a.x * b.x + a.y * b.y; }
inline vector3 ssub(const vector3 &a, const vector3 &b) { vector3 r; r.x = a.x - b.x; r.y = a.y - b.y; r.z = a.z - b.z; return r; }
inline vector3 sadd(const vector3 &a, const vector3 &b) { vector3 r; r.x = a.x + b.x; r.y = a.y + b.y; r.z = a.z + b.z; return r; }
inline vector3 smul(const vector3 &a, scalar k) { vector3 r; r.x = a.x * k; r.y = a.y * k; r.z = a.z * k; return r; }
inline vector3 scross(const vector3 &a, const vector3 &b) { vector3 r; r.x = a.y * b.z - a.z * b.y; r.y = a.z * b.x - a.x * b.z; r.z = a.x * b.y - a.y * b.x; return r; }
inline scalar slen2(const vector3 &a) { return sdot(a, a); }
inline scalar sdist2(const vector3 &a, const vector3 &b) { return slen2(ssub(a, b)); }
inline vector3 slerp3(const vector3 &a, const vector3 &b, scalar t) { return sadd(a, smul(ssub(b, a), t)); }

inline bool eq3(const vector3 &a, const vector3 &b) { return vc_and(vc_eq(a.x, b.x), vc_and(vc_eq(a.y, b.y), vc_eq(a.z, b.z))); }
inline bool eq2(const vector2 &a, const vector2 &b) { return vc_and(vc_eq(a.x, b.x), vc_eq(a.y, b.y)); }

// rotation of v by unit quaternion q, from the definition q v q*, expanded by hand
inline vector3 srot(const quaternion &q, const vector3 &v) {
    vector3 u; u.x = q.x; u.y = q.y; u.z = q.z;
    vector3 a = smul(u, 2 * sdot(u, v));
    vector3 b = smul(v, q.w * q.w - sdot(u, u));
    vector3 c = smul(scross(u, v), 2 * q.w);
    return sadd(a, sadd(b, c));
}
inline scalar qlen2(const quaternion &q) { return q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w; }

inline vector3 any_unit3(const char *n) { vector3 v = any_vec3(n); vc_unit(&v.x, 3); return v; }
inline vector2 any_unit2(const char *n) { vector2 v = any_vec2(n); vc_unit(&v.x, 2); return v; }
inline quaternion any_quat(const char *n) { quaternion q = any_raw_quat(n); vc_unit(&q.x, 4); return q; }
inline scalar any_in(const char *n, scalar lo, scalar hi) {
    scalar v = vc_real(n, -1);
    if (!vc_symbolic()) { if (v < lo || v > hi) { v = v < 0 ? -v : v; v = lo + (hi - lo) * (v - (int)v); } }
    vc_assume(vc_and(lo <= v, v <= hi));
    return v;
}
// any value > lo
inline scalar any_gt(const char *n, scalar lo) {
    scalar v = vc_real(n, -1);
    if (!vc_symbolic()) { if (!(v > lo)) v = lo + (v == lo ? scalar(1) : lo - v); }
    vc_assume(lo < v);
    return v;
}
inline scalar any_ge(const char *n, scalar lo) {
    scalar v = vc_real(n, -1);
    if (!vc_symbolic()) { if (!(v >= lo)) v = lo + (lo - v); }
    vc_assume(lo <= v);
    return v;
}

template<typename A, typename... R> inline bool all(A a) { return a; }
template<typename A, typename B, typename... R> inline bool all(A a, B b, R... r) { return vc_and(a, all(b, r...)); }

}
using namespace vc;
#endif
