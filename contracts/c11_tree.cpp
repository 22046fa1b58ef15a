// C11: the static bounding volume tree and the traversal shared by all trees.
#include "vc.hpp"
#include <edyn/collision/static_tree.hpp>
#include <edyn/collision/query_tree.hpp>

static const char *const MN[] = {"min0", "min1", "min2", "min3", "min4"};
static const char *const EX[] = {"ext0", "ext1", "ext2", "ext3", "ext4"};

static AABB any_box(int i) {
    AABB b;
    b.min = any_vec3(MN[i]);
    vector3 e = any_vec3(EX[i]);
    if (!vc_symbolic()) { e.x = std::abs(e.x); e.y = std::abs(e.y); e.z = std::abs(e.z); }
    vc_assume(all(0 <= e.x, 0 <= e.y, 0 <= e.z));
    b.max = sadd(b.min, e);
    return b;
}
// boxes along a line: only one coordinate is arbitrary
static AABB any_slab(int i, int axis) {
    AABB b;
    b.min = vector3{0, 0, 0}; b.max = vector3{scalar(0.001), scalar(0.001), scalar(0.001)};
    scalar m = any(MN[i]), e = any_ge(EX[i], scalar(1));
    b.min[axis] = m; b.max[axis] = m + e;
    return b;
}
static bool inside(const AABB &out, const AABB &in) {
    return all(vc_le(out.min.x, in.min.x), vc_le(out.min.y, in.min.y), vc_le(out.min.z, in.min.z),
               vc_le(in.max.x, out.max.x), vc_le(in.max.y, out.max.y), vc_le(in.max.z, out.max.z));
}
static bool overlap(const AABB &a, const AABB &b) {
    return all(a.min.x <= b.max.x, b.min.x <= a.max.x, a.min.y <= b.max.y, b.min.y <= a.max.y, a.min.z <= b.max.z, b.min.z <= a.max.z);
}
static bool same_box(const AABB &a, const AABB &b) { return vc_and(eq3(a.min, b.min), eq3(a.max, b.max)); }

struct leaf_sets { std::vector<std::vector<uint32_t>> items; };

// structure of the tree built from n boxes: every box is in exactly one leaf, every node encloses what is below it
template<size_t N> void check_tree(const static_tree &t, const AABB (&boxes)[N], const std::vector<std::vector<uint32_t>> &leaves, uint32_t per_leaf) {
    vc_check(!t.empty(), "tree is not empty");
    std::vector<int> seen(N, 0);
    std::vector<int> leaf_seen(leaves.size(), 0);
    std::vector<uint32_t> stack {0};
    size_t visited = 0;
    while (!stack.empty()) {
        auto idx = stack.back(); stack.pop_back();
        auto &node = t.get_node(idx);
        vc_check(++visited <= 2 * N, "the nodes form a tree");
        if (node.leaf()) {
            auto id = node.id;
            vc_check(id < leaves.size(), "leaf holds what was reported");
            ++leaf_seen[id];
            vc_check(leaves[id].size() >= 1 && leaves[id].size() <= per_leaf, "leaf holds at most the given number of boxes");
            for (auto k : leaves[id]) {
                ++seen[k];
                vc_check(inside(node.aabb, boxes[k]), "leaf encloses its boxes");
                if (leaves[id].size() == 1) vc_check(same_box(node.aabb, boxes[k]), "bounds of a leaf with a single box are tight");
            }
        } else {
            vc_check(inside(node.aabb, t.get_node(node.child1).aabb), "node encloses its first child");
            vc_check(inside(node.aabb, t.get_node(node.child2).aabb), "node encloses its second child");
            stack.push_back(node.child1);
            stack.push_back(node.child2);
        }
    }
    for (auto s : seen) vc_check(s == 1, "every box is in exactly one leaf");
    for (auto s : leaf_seen) vc_check(s == 1, "every reported leaf is reached exactly once");
    for (auto &b : boxes) vc_check(inside(t.root_aabb(), b), "root encloses every box");
}
template<size_t N> static_tree make(const AABB (&boxes)[N], std::vector<std::vector<uint32_t>> &leaves, uint32_t per_leaf) {
    static_tree t;
    vc_check(t.empty(), "a new tree is empty");
    auto report = [&](static_tree::tree_node &node, auto b, auto e) {
        node.id = uint32_t(leaves.size());
        leaves.emplace_back(b, e);
    };
    t.build(boxes, boxes + N, report, per_leaf);
    return t;
}
template<size_t N> void build(uint32_t per_leaf, int axis) {
    AABB boxes[N];
    for (size_t i = 0; i < N; ++i) boxes[i] = axis < 0 ? any_box(i) : any_slab(i, axis);
    std::vector<std::vector<uint32_t>> leaves;
    auto t = make(boxes, leaves, per_leaf);
    vc_cover("built");
    check_tree(t, boxes, leaves, per_leaf);
}
VC_CONTRACT(build_1) { build<1>(1, -1); }
VC_CONTRACT(build_2) { build<2>(1, -1); }
VC_CONTRACT(build_3) { build<3>(1, -1); }
VC_CONTRACT(build_3_pairs) { build<3>(2, -1); }
VC_CONTRACT(build_4_x) { build<4>(1, 0); }
VC_CONTRACT(build_4_z) { build<4>(1, 2); }
VC_CONTRACT(build_4_pairs) { build<4>(2, 1); }
VC_CONTRACT(thorough_build_5) { build<5>(1, 1); }
VC_CONTRACT(thorough_build_5_triples) { build<5>(3, 0); }

// a query visits exactly the leaves that intersect it, each one once
template<size_t N> void query(int axis) {
    AABB boxes[N];
    for (size_t i = 0; i < N; ++i) boxes[i] = axis < 0 ? any_box(i) : any_slab(i, axis);
    AABB q;
    if (axis < 0) q = any_box(4); else q = any_slab(4, axis);
    std::vector<std::vector<uint32_t>> leaves;
    auto t = make(boxes, leaves, 1);
    int count[N] = {};
    t.query(q, [&](uint32_t idx) {
        auto &node = t.get_node(idx);
        vc_check(node.leaf(), "only leaves are visited");
        for (auto k : leaves[node.id]) ++count[k];
    });
    vc_cover("queried");
    for (size_t i = 0; i < N; ++i) {
        vc_check(vc_implies(overlap(boxes[i], q), count[i] == 1), "every box that intersects is visited once");
        vc_check(vc_implies(vc_not(overlap(boxes[i], q)), count[i] == 0), "no other box is visited");
    }
}
VC_CONTRACT(query_1) { query<1>(-1); }
VC_CONTRACT(query_2) { query<2>(-1); }
VC_CONTRACT(query_3) { query<3>(0); }
VC_CONTRACT(thorough_query_3) { query<3>(-1); }
VC_CONTRACT(thorough_query_4) { query<4>(1); }

// a ray visits every leaf it has a point in, once
template<size_t N> void ray(int axis) {
    AABB boxes[N];
    for (size_t i = 0; i < N; ++i) boxes[i] = any_slab(i, axis);
    vector3 p0, p1;
    p0 = vector3{scalar(0.0005), scalar(0.0005), scalar(0.0005)}; p1 = p0;
    p0[axis] = any("a"); p1[axis] = any("b");
    vc_assume(p0[axis] + scalar(0.001) < p1[axis]);
    std::vector<std::vector<uint32_t>> leaves;
    auto t = make(boxes, leaves, 1);
    int count[N] = {};
    t.raycast(p0, p1, [&](uint32_t idx) { for (auto k : leaves[t.get_node(idx).id]) ++count[k]; });
    vc_cover("cast");
    for (size_t i = 0; i < N; ++i) {
        bool hit = vc_and(p0[axis] < boxes[i].max[axis], boxes[i].min[axis] < p1[axis]);
        bool miss = vc_or(boxes[i].max[axis] < p0[axis], p1[axis] < boxes[i].min[axis]);
        vc_check(vc_implies(hit, count[i] == 1), "every box the segment goes through is visited once");
        vc_check(vc_implies(miss, count[i] == 0), "no box the segment misses is visited");
    }
}
VC_CONTRACT(ray_x) { ray<2>(0); }
VC_CONTRACT(ray_y) { ray<2>(1); }
VC_CONTRACT(ray_z) { ray<3>(2); }

// clearing allows building again
VC_CONTRACT(rebuild) {
    AABB a[2] = {any_slab(0, 0), any_slab(1, 0)}, b[1] = {any_box(2)};
    std::vector<std::vector<uint32_t>> la, lb;
    static_tree t;
    std::vector<std::vector<uint32_t>> *cur = &la;
    auto report = [&](static_tree::tree_node &node, auto x, auto y) { node.id = uint32_t(cur->size()); cur->emplace_back(x, y); };
    t.build(a, a + 2, report);
    t.clear();
    vc_cover("cleared");
    vc_check(t.empty(), "empty after clear");
    cur = &lb;
    t.build(b, b + 1, report);
    check_tree(t, b, lb, 1);
}

// the traversal itself, for any tree and any test: a leaf is visited once when the test accepts it and all of its ancestors, and never otherwise
struct fake_node { uint32_t child1, child2; bool leaf() const { return child1 == EDYN_NULL_NODE; } };
struct fake_tree { fake_node n[7]; const fake_node &get_node(uint32_t id) const { return n[id]; } };
VC_CONTRACT(traverse) {
    constexpr uint32_t X = EDYN_NULL_NODE;
    // 0 -> (1, 2), 1 -> (3, 4), 2 leaf, 3 leaf, 4 -> (5, null)
    fake_tree t {{{1, 2}, {3, 4}, {X, 0}, {X, 0}, {5, X}, {X, 0}, {X, 0}}};
    bool ok[7];
    const char *names[] = {"t0", "t1", "t2", "t3", "t4", "t5", "t6"};
    for (int i = 0; i < 7; ++i) ok[i] = vc_bool(names[i]);
    int count[7] = {}, tested[7] = {};
    vc_cover("reached");
    traverse_tree(t, uint32_t(0), X, [&](auto &node) { auto i = &node - t.n; ++tested[i]; return ok[i]; }, [&](uint32_t id) { ++count[id]; });
    int par[7] = {-1, 0, 0, 1, 1, 4, -1};
    for (int i = 0; i < 6; ++i) {
        bool all_ok = ok[i];
        for (int p = par[i]; p >= 0; p = par[p]) all_ok = vc_and(all_ok, ok[p]);
        bool leaf = i == 2 || i == 3 || i == 5;
        vc_check(tested[i] <= 1, "no node is tested twice");
        if (leaf) vc_check((count[i] == 1) == all_ok && count[i] <= 1, "leaves are visited exactly when they and their ancestors pass");
        else vc_check(count[i] == 0, "only leaves are visited");
    }
    int none = 0;
    traverse_tree(t, X, X, [&](auto &) { return true; }, [&](uint32_t) { ++none; });
    vc_check(none == 0, "nothing is visited in an empty tree");
}
