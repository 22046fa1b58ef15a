// C14: unordered pairs and material mixing.
#include "vc.hpp"
#include <cmath>
#include <algorithm>
#include <edyn/core/unordered_pair.hpp>
#include <edyn/dynamics/material_mixing.hpp>

namespace {
using pair = unordered_pair<uint16_t>;
pair any_pair(const char *a, const char *b) { return pair(vc_int(a, 0, 65535), vc_int(b, 0, 65535)); }
bool same(const pair &a, const pair &b) {
    return vc_or(vc_and(a.first == b.first, a.second == b.second), vc_and(a.first == b.second, a.second == b.first));
}
}

VC_CONTRACT(equality) {
    auto a = any_pair("a0", "a1"), b = any_pair("b0", "b1");
    vc_cover("reach");
    vc_check((a == b) == same(a, b), "equal exactly when the same two elements in either order");
    pair s(a.second, a.first);
    vc_check(a == s, "equal to its swap");
    vc_check(vc_and(a[0] == a.first, a[1] == a.second), "indexing");
}
VC_CONTRACT(order) {
    auto a = any_pair("a0", "a1"), b = any_pair("b0", "b1");
    vc_cover("reach");
    bool ab = a < b, ba = b < a;
    vc_check(!vc_and(ab, ba), "asymmetric");
    vc_check(vc_not(ab || ba) == same(a, b), "neither is less exactly when they are equal");
    vc_check(!(a < a), "irreflexive");
}
VC_CONTRACT(order_transitive) {
    auto a = any_pair("a0", "a1"), b = any_pair("b0", "b1"), c = any_pair("c0", "c1");
    vc_cover("reach");
    bool ab = a < b, bc = b < c, ac = a < c;
    vc_check(vc_implies(vc_and(ab, bc), ac), "transitive");
}
VC_CONTRACT(order_swap) {
    auto a = any_pair("a0", "a1"), b = any_pair("b0", "b1");
    pair sa(a.second, a.first), sb(b.second, b.first);
    vc_cover("reach");
    bool ab = a < b;
    vc_check(vc_and(ab == (sa < b), ab == (a < sb)), "order does not depend on the order of the elements");
}
VC_CONTRACT(mixing) {
    auto a = any_gt("a", 0), b = any_gt("b", 0);
    vc_cover("reach");
    auto r = material_mix_restitution(a, b);
    vc_check(all(vc_le(r, a), vc_le(r, b), vc_or(vc_eq(r, a), vc_eq(r, b)), vc_eq(r, material_mix_restitution(b, a))), "restitution is the smaller");
    auto f = material_mix_friction(a, b);
    vc_check(vc_and(vc_le(0, f), vc_eq(f * f, a * b)), "friction is the geometric mean");
    vc_check(vc_eq(f, material_mix_friction(b, a)), "friction symmetric");
    auto s = material_mix_spin_friction(a, b);
    vc_check(all(vc_le(a, s), vc_le(b, s), vc_or(vc_eq(s, a), vc_eq(s, b)), vc_eq(s, material_mix_spin_friction(b, a))), "spin friction is the larger");
    auto o = material_mix_roll_friction(a, b);
    vc_check(all(vc_le(a, o), vc_le(b, o), vc_or(vc_eq(o, a), vc_eq(o, b)), vc_eq(o, material_mix_roll_friction(b, a))), "rolling friction is the larger");
    auto k = material_mix_stiffness(a, b);
    vc_check(vc_and(vc_eq(k * (a + b), a * b), vc_eq(k, material_mix_stiffness(b, a))), "stiffness combines in series");
    vc_check(all(vc_lt(k, a), vc_lt(k, b), vc_lt(0, k)), "series stiffness is below both");
    auto d = material_mix_damping(a, b);
    vc_check(vc_and(vc_eq(d * (a + b), a * b), vc_eq(d, material_mix_damping(b, a))), "damping combines in series");
}

static material_base some(const char *n) { material_base m; m.restitution = any(n); m.friction = 0; return m; }
// the table of mixed materials is a map from unordered pairs: lookups find the last material inserted for either order
VC_CONTRACT(mix_table) {
    pair a(vc_int("a0", 0, 65534), vc_int("a1", 0, 65534)), b(vc_int("b0", 0, 65534), vc_int("b1", 0, 65534)), c(vc_int("c0", 0, 65534), vc_int("c1", 0, 65534));
    auto ma = some("ma"), mb = some("mb");
    material_mix_table t;
    vc_check(!t.contains(c) && t.try_get(c) == nullptr, "a new table is empty");
    t.insert(a, ma);
    t.insert(b, mb);
    const auto &ct = t;
    bool isb = same(c, b), isa = same(c, a);
    auto *p = t.try_get(c);
    auto *q = ct.try_get(c);
    vc_check((p != nullptr) == vc_or(isa, isb), "a material is found exactly for the pairs inserted");
    vc_check(p == q && t.contains(c) == (p != nullptr), "all lookups agree");
    if (p) {
        vc_check(vc_eq(p->restitution, vc_sel(isb, mb.restitution, ma.restitution)), "the last material inserted for the pair is found");
        vc_check(&t.get(c) == p && &ct.get(c) == p, "get finds the same material");
        vc_cover("found");
    } else vc_cover("absent");
}
VC_CONTRACT(mix_table_remove) {
    pair a(vc_int("a0", 0, 65534), vc_int("a1", 0, 65534)), b(vc_int("b0", 0, 65534), vc_int("b1", 0, 65534));
    auto ma = some("ma"), mb = some("mb");
    material_mix_table t;
    t.insert(a, ma);
    t.insert(b, mb);
    t.remove(pair(a.second, a.first));
    vc_check(!t.contains(a), "a removed pair is gone");
    vc_check(t.contains(b) == vc_not(same(a, b)), "only that pair is removed");
    if (auto *p = t.try_get(b)) vc_check(vc_eq(p->restitution, mb.restitution), "other pairs keep their material");
    t.remove(a);
    vc_check(!t.contains(a), "removing twice does nothing");
    t.insert(a, ma);
    vc_check(t.contains(a), "a removed pair can be inserted again");
    vc_check(vc_eq(t.get(a).restitution, ma.restitution), "with its material");
    vc_cover("remove");
}
