// C15: standard containers, shapes, components, constraints and packets survive a round trip through the archives.
#include "vc.hpp"
#include <cstdlib>
#include <cstring>
#include <edyn/serialization/memory_archive.hpp>
#include <edyn/serialization/math_s11n.hpp>
#include <edyn/serialization/std_s11n.hpp>
#include <edyn/serialization/entt_s11n.hpp>
#include <edyn/shapes/triangle_mesh.hpp>
#include <edyn/serialization/static_tree_s11n.hpp>
#include <edyn/serialization/triangle_mesh_s11n.hpp>
#include <edyn/collision/contact_point.hpp>
#include <edyn/collision/contact_manifold.hpp>
#include <edyn/collision/collision_feature.hpp>
#include <edyn/comp/action_list.hpp>
#include <edyn/networking/comp/action_history.hpp>
#include <edyn/networking/comp/entity_owner.hpp>
#include <edyn/networking/comp/asset_ref.hpp>
#include <edyn/networking/packet/query_entity.hpp>
#include <edyn/networking/packet/update_entity_map.hpp>
#include <edyn/networking/packet/destroy_entity.hpp>
#include <edyn/networking/packet/entity_exited.hpp>
#include <edyn/networking/packet/time_request.hpp>
#include <edyn/networking/packet/time_response.hpp>
#include <edyn/networking/packet/set_playout_delay.hpp>
#include <edyn/networking/packet/set_aabb_of_interest.hpp>
#include <edyn/networking/packet/client_created.hpp>
#include <edyn/comp/position.hpp>
#include <edyn/comp/orientation.hpp>
#include <edyn/comp/linvel.hpp>
#include <edyn/comp/angvel.hpp>
#include <edyn/comp/mass.hpp>
#include <edyn/comp/inertia.hpp>
#include <edyn/comp/gravity.hpp>
#include <edyn/comp/material.hpp>
#include <edyn/comp/center_of_mass.hpp>
#include <edyn/comp/collision_filter.hpp>
#include <edyn/comp/collision_exclusion.hpp>
#include <edyn/comp/roll_direction.hpp>
#include <edyn/comp/shape_index.hpp>
#include <edyn/comp/child_list.hpp>
#include <edyn/constraints/distance_constraint.hpp>
#include <edyn/constraints/soft_distance_constraint.hpp>
#include <edyn/constraints/point_constraint.hpp>
#include <edyn/constraints/hinge_constraint.hpp>
#include <edyn/constraints/generic_constraint.hpp>
#include <edyn/constraints/cone_constraint.hpp>
#include <edyn/constraints/cvjoint_constraint.hpp>
#include <edyn/constraints/gravity_constraint.hpp>
#include <edyn/constraints/contact_constraint.hpp>

// names of the inputs, handed out in order
static const char *const NAMES[] = {"n00","n01","n02","n03","n04","n05","n06","n07","n08","n09","n10","n11","n12","n13","n14","n15","n16","n17","n18","n19",
    "n20","n21","n22","n23","n24","n25","n26","n27","n28","n29","n30","n31","n32","n33","n34","n35","n36","n37","n38","n39",
    "n40","n41","n42","n43","n44","n45","n46","n47","n48","n49","n50","n51","n52","n53","n54","n55","n56","n57","n58","n59"};

// An "archive" that walks over the fields of an object given by hand: fills them with arbitrary values or compares two objects.
struct filler {
    int k = 0;
    const char *name() { return NAMES[k++]; }
    void operator()(bool &x) { x = vc_bool(name()); }
    void operator()(uint8_t &x) { x = uint8_t(vc_int(name(), 0, 255)); }
    void operator()(uint16_t &x) { x = uint16_t(vc_int(name(), 0, 65535)); }
    void operator()(uint32_t &x) { x = uint32_t(vc_int(name(), 0, UINT32_MAX)); }
    void operator()(uint64_t &x) { x = vc_int(name(), 0, UINT64_MAX); }
    void operator()(entt::entity &x) { x = entt::entity(vc_int(name(), 0, UINT32_MAX)); }
    void operator()(float &x) { x = float(any(name())); }
    void operator()(double &x) { x = any(name()); }
    void operator()(vector3 &x) { x = any_vec3(name()); }
    void operator()(quaternion &x) { x = any_raw_quat(name()); }
    void operator()(matrix3x3 &x) { for (auto &r : x.row) (*this)(r); }
    template<typename T, size_t N> void operator()(std::array<T, N> &x) { for (auto &e : x) (*this)(e); }
};
static bool same(bool a, bool b) { return a == b; }
static bool same(uint8_t a, uint8_t b) { return a == b; }
static bool same(uint16_t a, uint16_t b) { return a == b; }
static bool same(uint32_t a, uint32_t b) { return a == b; }
static bool same(uint64_t a, uint64_t b) { return a == b; }
static bool same(entt::entity a, entt::entity b) { return a == b; }
static bool same(float a, float b) { return a == b; }
static bool same(double a, double b) { return a == b; }
static bool same(const vector3 &a, const vector3 &b) { return all(a.x == b.x, a.y == b.y, a.z == b.z); }
static bool same(const quaternion &a, const quaternion &b) { return all(a.x == b.x, a.y == b.y, a.z == b.z, a.w == b.w); }
static bool same(const matrix3x3 &a, const matrix3x3 &b) { return all(same(a.row[0], b.row[0]), same(a.row[1], b.row[1]), same(a.row[2], b.row[2])); }
template<typename T, size_t N> bool same(const std::array<T, N> &a, const std::array<T, N> &b) { bool r = true; for (size_t i = 0; i < N; ++i) r = vc_and(r, same(a[i], b[i])); return r; }

// writes x, reads it into y, checks that exactly the written bytes are consumed
template<typename T> size_t trip(T &x, T &y) {
    std::vector<uint8_t> buf;
    auto out = memory_output_archive(buf);
    out(x);
    auto in = memory_input_archive(buf.data(), buf.size());
    in(y);
    vc_check(!in.failed(), "reading what was written does not fail");
    vc_check(in.eof(), "everything is consumed");
    return buf.size();
}
#define FIELD(f) fill(x.f);
#define SAME(f) vc_check(same(x.f, y.f), #f " is kept");

#define E1(M, a) M(a)
#define E2(M, a, b) M(a) M(b)
#define E3(M, a, ...) M(a) E2(M, __VA_ARGS__)
#define E4(M, a, ...) M(a) E3(M, __VA_ARGS__)
#define E5(M, a, ...) M(a) E4(M, __VA_ARGS__)
#define E6(M, a, ...) M(a) E5(M, __VA_ARGS__)
#define E7(M, a, ...) M(a) E6(M, __VA_ARGS__)
#define E8(M, a, ...) M(a) E7(M, __VA_ARGS__)
#define E9(M, a, ...) M(a) E8(M, __VA_ARGS__)
#define E10(M, a, ...) M(a) E9(M, __VA_ARGS__)
#define E11(M, a, ...) M(a) E10(M, __VA_ARGS__)
#define E12(M, a, ...) M(a) E11(M, __VA_ARGS__)
#define E13(M, a, ...) M(a) E12(M, __VA_ARGS__)
#define E14(M, a, ...) M(a) E13(M, __VA_ARGS__)
#define E15(M, a, ...) M(a) E14(M, __VA_ARGS__)
#define E16(M, a, ...) M(a) E15(M, __VA_ARGS__)
#define E17(M, a, ...) M(a) E16(M, __VA_ARGS__)
#define E18(M, a, ...) M(a) E17(M, __VA_ARGS__)
#define E19(M, a, ...) M(a) E18(M, __VA_ARGS__)
#define E20(M, a, ...) M(a) E19(M, __VA_ARGS__)
#define E21(M, a, ...) M(a) E20(M, __VA_ARGS__)
#define E22(M, a, ...) M(a) E21(M, __VA_ARGS__)
#define E23(M, a, ...) M(a) E22(M, __VA_ARGS__)
#define TRIP(name, type, n, ...) VC_CONTRACT(name) { type x {}, y {}; filler fill; E##n(FIELD, __VA_ARGS__) vc_cover("reached"); trip(x, y); E##n(SAME, __VA_ARGS__) }

// shapes
TRIP(box, box_shape, 1, half_extents)
TRIP(sphere, sphere_shape, 1, radius)
TRIP(plane, plane_shape, 2, normal, constant)
template<typename T> void rounded() {
    T x {}, y {};
    filler fill; fill(x.radius); fill(x.half_length);
    x.axis = coordinate_axis(vc_int("axis", 0, 2));
    y.axis = coordinate_axis::z;
    vc_cover("reached");
    trip(x, y);
    vc_check(same(x.radius, y.radius), "radius is kept"); vc_check(same(x.half_length, y.half_length), "half length is kept"); vc_check(x.axis == y.axis, "axis is kept");
}
VC_CONTRACT(capsule) { rounded<capsule_shape>(); }
VC_CONTRACT(cylinder) { rounded<cylinder_shape>(); }

// components
TRIP(aabb, AABB, 2, min, max)
TRIP(position, edyn::position, 3, x, y, z)
TRIP(orientation, edyn::orientation, 4, x, y, z, w)
TRIP(linvel, edyn::linvel, 3, x, y, z)
TRIP(angvel, edyn::angvel, 3, x, y, z)
TRIP(gravity, edyn::gravity, 3, x, y, z)
TRIP(center_of_mass, edyn::center_of_mass, 3, x, y, z)
TRIP(roll_direction, edyn::roll_direction, 3, x, y, z)
TRIP(mass, edyn::mass, 1, s)
TRIP(mass_inv, edyn::mass_inv, 1, s)
TRIP(inertia, edyn::inertia, 1, row)
TRIP(inertia_inv, edyn::inertia_inv, 1, row)
TRIP(inertia_world_inv, edyn::inertia_world_inv, 1, row)
TRIP(material, edyn::material, 6, restitution, friction, spin_friction, roll_friction, stiffness, damping)
TRIP(collision_filter, edyn::collision_filter, 2, group, mask)
TRIP(shape_index, edyn::shape_index, 1, value)
TRIP(parent, edyn::parent_comp, 1, child)
TRIP(child_list, edyn::child_list, 2, parent, next)
TRIP(entity_owner, edyn::entity_owner, 1, client_entity)

// contacts
TRIP(contact_point, edyn::contact_point, 4, pivotA, pivotB, normal, lifetime)
TRIP(contact_point_list, edyn::contact_point_list, 2, parent, next)
TRIP(contact_point_material, edyn::contact_point_material, 6, friction, spin_friction, roll_friction, restitution, stiffness, damping)
TRIP(contact_point_impulse, edyn::contact_point_impulse, 4, normal_impulse, friction_impulse, normal_restitution_impulse, friction_restitution_impulse)
TRIP(contact_point_spin, edyn::contact_point_spin_friction_impulse, 1, spin_friction_impulse)
TRIP(contact_point_roll, edyn::contact_point_roll_friction_impulse, 1, rolling_friction_impulse)
TRIP(contact_manifold, edyn::contact_manifold, 1, body)
TRIP(contact_manifold_state, edyn::contact_manifold_state, 2, num_points, contact_entity)
TRIP(contact, edyn::contact_constraint, 1, body)

// constraints
TRIP(distance, distance_constraint, 4, body, pivot, distance, applied_impulse)
TRIP(soft_distance, soft_distance_constraint, 7, body, pivot, distance, stiffness, damping, applied_spring_impulse, applied_damping_impulse)
TRIP(point, point_constraint, 5, body, pivot, friction_torque, applied_impulse, applied_friction_impulse)
TRIP(cone, cone_constraint, 9, body, pivot, frame, span_tan, restitution, bump_stop_stiffness, bump_stop_length, limit_impulse, bump_stop_impulse)
TRIP(gravity_con, gravity_constraint, 2, body, applied_impulse)
TRIP(hinge, hinge_constraint, 20, body, pivot, frame, angle_min, angle_max, limit_restitution, bump_stop_angle, bump_stop_stiffness, torque, speed, rest_angle, stiffness, damping, angle,
     applied_impulse.linear, applied_impulse.hinge, applied_impulse.limit, applied_impulse.bump_stop, applied_impulse.spring, applied_impulse.torque)
TRIP(cvjoint, cvjoint_constraint, 23, body, pivot, frame, twist_min, twist_max, twist_restitution, twist_angle, twist_bump_stop_angle, twist_bump_stop_stiffness, twist_friction_torque,
     twist_rest_angle, twist_stiffness, twist_damping, rest_direction, bend_stiffness, bend_friction_torque, bend_damping, applied_impulse.linear, applied_impulse.twist_limit, applied_impulse.twist_bump_stop,
     applied_impulse.twist_spring, applied_impulse.twist_friction_damping, applied_impulse.bend_friction_damping)
TRIP(linear_dof, generic_constraint::linear_dof, 10, limit_enabled, offset_min, offset_max, limit_restitution, bump_stop_length, bump_stop_stiffness, friction_force, rest_offset, spring_stiffness, damping)
TRIP(angular_dof, generic_constraint::angular_dof, 11, limit_enabled, angle_min, angle_max, limit_restitution, bump_stop_angle, bump_stop_stiffness, friction_torque, rest_angle, spring_stiffness, damping, current_angle)
TRIP(generic, generic_constraint, 9, body, pivot, frame, linear_dofs[0].offset_min, linear_dofs[2].offset_max, linear_dofs[1].damping, angular_dofs[0].angle_min, angular_dofs[1].angle_max, angular_dofs[2].current_angle)

// packets
TRIP(time_request, packet::time_request, 1, id)
TRIP(time_response, packet::time_response, 2, id, timestamp)
TRIP(playout_delay, packet::set_playout_delay, 1, value)
TRIP(aabb_of_interest, packet::set_aabb_of_interest, 2, min, max)
TRIP(client_created, packet::client_created, 1, client_entity)

static entt::entity ent(const char *n) { return entt::entity(vc_int(n, 0, UINT32_MAX)); }

VC_CONTRACT(query_entity) {
    packet::query_entity x {}, y {};
    x.id = uint32_t(vc_int("id", 0, UINT32_MAX));
    x.entities.push_back({ent("a"), {component_index_type(vc_int("i", 0, 255)), component_index_type(vc_int("j", 0, 255))}});
    x.entities.push_back({ent("b"), {}});
    x.entities.push_back({ent("c"), {component_index_type(vc_int("k", 0, 255))}});
    auto z = x;
    vc_cover("reached");
    trip(x, y);
    vc_check(y.id == z.id, "id is kept");
    vc_check(y.entities.size() == 3, "number of entities");
    for (size_t i = 0; i < 3; ++i) {
        vc_check(y.entities[i].first == z.entities[i].first, "entity is kept");
        vc_check(y.entities[i].second.size() == z.entities[i].second.size(), "number of components");
        for (size_t j = 0; j < z.entities[i].second.size(); ++j) vc_check(y.entities[i].second[j] == z.entities[i].second[j], "component index is kept");
    }
}
VC_CONTRACT(entity_lists) {
    packet::destroy_entity x {}, y {};
    packet::entity_exited ex {}, ey {};
    packet::update_entity_map mx {}, my {};
    x.timestamp = any("t"); mx.timestamp = any("u");
    for (auto n : {"a", "b", "c"}) { x.entities.push_back(ent(n)); ex.entities.push_back(ent(n)); mx.pairs.push_back({ent(n), ent("d")}); }
    vc_cover("reached");
    trip(x, y); trip(ex, ey); trip(mx, my);
    vc_check(y.timestamp == x.timestamp && my.timestamp == mx.timestamp, "timestamps are kept");
    vc_check(y.entities.size() == 3 && ey.entities.size() == 3 && my.pairs.size() == 3, "number of entities");
    for (size_t i = 0; i < 3; ++i) vc_check(y.entities[i] == x.entities[i] && ey.entities[i] == ex.entities[i] && my.pairs[i].first == mx.pairs[i].first && my.pairs[i].second == mx.pairs[i].second, "entities are kept");
}

// standard containers; the target holds something else before
static void vec_trip(size_t n, size_t before) {
    std::vector<uint32_t> x, y(before, 7u);
    for (size_t i = 0; i < n; ++i) x.push_back(uint32_t(vc_int(NAMES[i], 0, UINT32_MAX)));
    auto size = trip(x, y);
    vc_check(size == 2 + 4 * n, "size of a vector");
    vc_check(size == serialization_sizeof(x), "announced size of a vector");
    vc_check(y.size() == n, "number of elements");
    for (size_t i = 0; i < n; ++i) vc_check(x[i] == y[i], "elements are kept");
}
VC_CONTRACT(vectors) { vc_cover("reached"); vec_trip(0, 3); vec_trip(1, 0); vec_trip(3, 5); vec_trip(5, 2); }
VC_CONTRACT(vector_of_vectors) {
    std::vector<std::vector<vector3>> x(3), y(1);
    x[0].push_back(any_vec3("a")); x[2].push_back(any_vec3("b")); x[2].push_back(any_vec3("c"));
    vc_cover("reached");
    trip(x, y);
    vc_check(y.size() == 3 && y[0].size() == 1 && y[1].empty() && y[2].size() == 2, "shape is kept");
    vc_check(eq3(x[0][0], y[0][0]) && eq3(x[2][0], y[2][0]) && eq3(x[2][1], y[2][1]), "elements are kept");
}
// every bit pattern pos -> value at the sizes around the 32 bit sets
static void bits(size_t n, size_t k) {
    std::vector<bool> x(n, false), y(n / 2, true);
    x[k] = true; if (n > 1) x[(k * 7 + 3) % n] = true;
    auto z = x;
    auto size = trip(x, y);
    vc_check(size == serialization_sizeof(x), "announced size of a vector of bool");
    vc_check(y.size() == n, "number of bits");
    for (size_t i = 0; i < n; ++i) vc_check(y[i] == z[i], "bits are kept");
}
VC_CONTRACT(vector_bool) {
    vc_cover("reached");
    std::vector<bool> x, y(3, true);
    vc_check(trip(x, y) == 2 && y.empty(), "empty vector of bool");
    for (size_t n : {1, 31, 32, 33, 64, 70}) for (size_t k : {size_t(0), n / 2, n - 1}) bits(n, k);
    for (size_t k = 0; k < 33; ++k) bits(33, k);
}
VC_CONTRACT(strings) {
    std::string x, y = "something";
    for (int i = 0; i < 3; ++i) x.push_back(char(vc_int(NAMES[i], 0, 127)));
    std::string e, f = "x";
    vc_cover("reached");
    vc_check(trip(x, y) == 5, "size of a string");
    vc_check(y.size() == 3 && y[0] == x[0] && y[1] == x[1] && y[2] == x[2], "characters are kept");
    vc_check(trip(e, f) == 2 && f.empty(), "empty string");
}
VC_CONTRACT(array_pair_matrix) {
    std::array<uint32_t, 3> a {}, b {}; std::pair<uint16_t, scalar> p {}, q {}; matrix3x3 m {}, n {};
    filler fill; fill(a); fill(p.first); fill(p.second); fill(m);
    vc_cover("reached");
    vc_check(trip(a, b) == serialization_sizeof(a), "announced size of an array");
    vc_check(trip(p, q) == serialization_sizeof(p), "announced size of a pair");
    trip(m, n);
    vc_check(same(a, b), "array is kept"); vc_check(p.first == q.first, "first is kept"); vc_check(p.second == q.second, "second is kept"); vc_check(same(m, n), "matrix is kept");
}
VC_CONTRACT(optionals) {
    std::optional<uint32_t> a, b = 5u, c = uint32_t(vc_int("c", 0, UINT32_MAX)), d, e = 9u;
    vc_cover("reached");
    vc_check(trip(a, b) == 1 && !b, "empty optional");
    vc_check(trip(c, d) == 5, "size of an optional");
    trip(c, e);
    vc_check(d && *d == *c, "value is kept"); vc_check(e && *e == *c, "value is replaced");
    std::optional<std::vector<uint32_t>> v = std::vector<uint32_t>{1u, 2u};
    std::vector<uint8_t> buf; auto out = memory_output_archive(buf); out(v);
    vc_check(buf.size() == serialization_sizeof(v), "announced size of an optional");
}
VC_CONTRACT(variants) {
    using var = std::variant<uint8_t, uint32_t, vector3, uint64_t>;
    var y[3] = {uint8_t(1), vector3{1, 2, 3}, uint64_t(4)};
    uint8_t a = uint8_t(vc_int("a", 0, 255)); uint32_t b = uint32_t(vc_int("b", 0, UINT32_MAX)); vector3 c = any_vec3("c"); uint64_t d = vc_int("d", 0, UINT64_MAX);
    vc_cover("reached");
    for (auto &t : y) {
        var x = a; vc_check(trip(x, t) == 2, "size of the first alternative"); vc_check(t.index() == 0 && std::get<0>(t) == a, "first alternative");
        vc_check(serialization_sizeof(x) == 2, "announced size of the first alternative");
        x = b; vc_check(trip(x, t) == 5, "size of the second alternative"); vc_check(t.index() == 1 && std::get<1>(t) == b, "second alternative");
        x = c; trip(x, t); vc_check(t.index() == 2 && eq3(std::get<2>(t), c), "third alternative");
        x = d; trip(x, t); vc_check(t.index() == 3 && std::get<3>(t) == d, "fourth alternative");
        vc_check(serialization_sizeof(x) == 9, "announced size of the fourth alternative");
    }
}
VC_CONTRACT(maps) {
    std::map<uint32_t, uint64_t> x, y;
    x[3] = vc_int("a", 0, UINT64_MAX); x[1] = vc_int("b", 0, UINT64_MAX); x[200] = vc_int("c", 0, UINT64_MAX);
    vc_cover("reached");
    vc_check(trip(x, y) == serialization_sizeof(x), "announced size of a map");
    vc_check(y.size() == 3 && y.at(3) == x.at(3) && y.at(1) == x.at(1) && y.at(200) == x.at(200), "entries are kept");
    asset_ref r, s;
    r.id = "abc"; r.entity_map[7] = ent("e"); r.entity_map[9] = ent("f");
    trip(r, s);
    vc_check(s.id == "abc" && s.entity_map.size() == 2 && s.entity_map.at(7) == r.entity_map.at(7) && s.entity_map.at(9) == r.entity_map.at(9), "asset reference is kept");
}
// more elements than can be announced: what is announced is what is written
VC_CONTRACT(bounded_large_map) {
    static std::map<uint32_t, uint8_t> m, r;
    size_t n = 65530 + vc_int("n", 0, 12);
    m.clear(); r.clear();
    for (size_t i = 0; i < n; ++i) m.emplace_hint(m.end(), uint32_t(i), uint8_t(i * 7));
    uint32_t tail = 12345, t = 0;
    std::vector<uint8_t> buf; auto out = memory_output_archive(buf); out(m); out(tail);
    auto in = memory_input_archive(buf.data(), buf.size()); in(r); in(t);
    vc_cover("reached");
    vc_check(!in.failed() && in.eof() && t == tail, "what follows a large map is read correctly");
    vc_check(r.size() == std::min(n, size_t(65535)), "as many elements as can be announced");
}
// containers of large size keep what follows aligned
VC_CONTRACT(bounded_large_vector) {
    size_t n = 65530 + vc_int("n", 0, 12);
    std::vector<uint8_t> x(n), y; for (size_t i = 0; i < n; ++i) x[i] = uint8_t(i * 13);
    std::string s(n, 'q'), sr; std::vector<bool> b(n, true), br;
    uint32_t tail = 12345, t = 0;
    std::vector<uint8_t> buf; auto out = memory_output_archive(buf); out(x); out(s); out(b); out(tail);
    auto in = memory_input_archive(buf.data(), buf.size()); in(y); in(sr); in(br); in(t);
    size_t k = std::min(n, size_t(65535));
    vc_cover("reached");
    vc_check(!in.failed() && in.eof() && t == tail, "what follows large containers is read correctly");
    vc_check(y.size() == k && sr.size() == k && br.size() == k, "as many elements as can be announced");
    for (size_t i = 0; i < k; ++i) if (y[i] != uint8_t(i * 13) || sr[i] != 'q' || !br[i]) vc_check(false, "elements of large containers are kept");
}
// every truncation of the data fails, without reading out of bounds and without touching what comes after
VC_CONTRACT(truncated_containers) {
    std::vector<uint16_t> v {uint16_t(vc_int("a", 0, 65535)), uint16_t(vc_int("b", 0, 65535))};
    std::vector<bool> bs {true, false, true};
    std::string s = "hi"; std::optional<uint16_t> o = uint16_t(3); std::array<uint8_t, 2> ar {1, 2}; uint8_t last = uint8_t(vc_int("l", 0, 255));
    std::vector<uint8_t> buf;
    auto out = memory_output_archive(buf);
    out(v, bs, s, o, ar, last);
    size_t total = 6 + 6 + 4 + 3 + 2 + 1;
    vc_check(buf.size() == total, "total size");
    vc_cover("reached");
    for (size_t n = 0; n <= total; ++n) {
        auto *cut = static_cast<uint8_t *>(std::malloc(n + (n == 0)));
        std::memcpy(cut, buf.data(), n);
        auto in = memory_input_archive(cut, n);
        std::vector<uint16_t> v2; std::vector<bool> bs2; std::string s2; std::optional<uint16_t> o2; std::array<uint8_t, 2> ar2 {9, 9}; uint8_t last2 = 77;
        in(v2, bs2, s2, o2, ar2, last2);
        vc_check(in.failed() == (n < total), "fails exactly when data is missing");
        if (n >= 6) vc_check(v2.size() == 2 && v2[0] == v[0] && v2[1] == v[1], "what is complete is read");
        if (n >= 12) vc_check(bs2 == bs, "bits that are complete are read");
        if (n >= 16) vc_check(s2 == s, "string that is complete is read");
        if (n < total) vc_check(last2 == 77, "what comes after missing data is untouched"); else vc_check(last2 == last, "last value");
        std::free(cut);
    }
}

struct act { uint16_t a; scalar b; };
namespace edyn { template<typename A> void serialize(A &ar, act &x) { ar(x.a); ar(x.b); } }
VC_CONTRACT(actions) {
    action_list<act> x, y;
    for (int i = 0; i < 3; ++i) x.actions.push_back({uint16_t(vc_int(NAMES[i], 0, 65535)), any(NAMES[i + 3])});
    y.actions.push_back({1, 2}); 
    vc_cover("reached");
    trip(x, y);
    vc_check(y.actions.size() == 3, "number of actions");
    for (int i = 0; i < 3; ++i) vc_check(y.actions[i].a == x.actions[i].a && y.actions[i].b == x.actions[i].b, "actions are kept");
    action_history h, g;
    for (int i = 0; i < 2; ++i) { h.entries.emplace_back(); h.entries[i].timestamp = any(NAMES[i + 8]); h.entries[i].action_index = uint8_t(vc_int(NAMES[i + 6], 0, 255)); h.entries[i].data.assign(i + 1, uint8_t(40 + i)); }
    trip(h, g);
    vc_check(g.entries.size() == 2, "number of entries");
    for (int i = 0; i < 2; ++i) vc_check(g.entries[i].timestamp == h.entries[i].timestamp && g.entries[i].action_index == h.entries[i].action_index && g.entries[i].data == h.entries[i].data, "entries are kept");
}
VC_CONTRACT(exclusion) {
    vc_cover("reached");
    for (size_t n : {0, 1, 5, 16}) {
        collision_exclusion x, y;
        for (size_t i = 0; i < n; ++i) x.entity[i] = entt::entity(vc_int(NAMES[i], 0, UINT32_MAX - 1));
        trip(x, y);
        vc_check(y.num_entities() == n, "number of exclusions");
        vc_check(same(x.entity, y.entity), "exclusions are kept");
    }
}
VC_CONTRACT(nested_array) {
    flat_nested_array<uint32_t> x, y;
    uint32_t a = uint32_t(vc_int("a", 0, UINT32_MAX)), b = uint32_t(vc_int("b", 0, UINT32_MAX)), c = uint32_t(vc_int("c", 0, UINT32_MAX));
    x.push_array(); x.push_back(a); x.push_array(); x.push_array(); x.push_back(b); x.push_back(c);
    vc_cover("reached");
    vc_check(trip(x, y) == serialization_sizeof(x), "announced size of a nested array");
    vc_check(y.size() == 3 && y[0].size() == 1 && y[1].size() == 0 && y[2].size() == 2, "shape is kept");
    vc_check(y[0][0] == a && y[2][0] == b && y[2][1] == c, "elements are kept");
}
VC_CONTRACT(tree) {
    AABB boxes[3];
    for (int i = 0; i < 3; ++i) { boxes[i].min = vector3{scalar(4 * i), 0, 0}; boxes[i].max = vector3{scalar(4 * i + 1), any_gt(NAMES[i], 0), 1}; }
    static_tree x, y;
    auto leaf = [](static_tree::tree_node &node, auto b, auto) { node.id = *b; };
    x.build(boxes, boxes + 3, leaf);
    vc_cover("reached");
    vc_check(trip(x, y) == serialization_sizeof(x), "announced size of a tree");
    for (uint32_t i = 0; i < 5; ++i) {
        auto &p = x.get_node(i), &q = y.get_node(i);
        vc_check(same(p.aabb.min, q.aabb.min) && same(p.aabb.max, q.aabb.max), "bounds are kept");
        vc_check(p.child1 == q.child1 && p.child2 == q.child2 && p.leaf() == q.leaf(), "links are kept");
    }
}
