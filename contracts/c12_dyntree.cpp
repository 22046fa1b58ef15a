// C12: the dynamic bounding volume tree of the broadphase.
#include "vc.hpp"
#include <entt/entity/fwd.hpp>
#include <edyn/collision/dynamic_tree.hpp>

static const char *const MN[] = {"min0", "min1", "min2", "min3", "min4", "min5"};
static const char *const EX[] = {"ext0", "ext1", "ext2", "ext3", "ext4", "ext5"};

static AABB any_box(int i) {
    AABB b;
    b.min = any_vec3(MN[i]);
    vector3 e = any_vec3(EX[i]);
    if (!vc_symbolic()) { e.x = std::abs(e.x); e.y = std::abs(e.y); e.z = std::abs(e.z); }
    vc_assume(all(0 <= e.x, 0 <= e.y, 0 <= e.z));
    b.max = sadd(b.min, e);
    return b;
}
static AABB any_slab(int i) {
    AABB b;
    scalar m = any(MN[i]), e = any_ge(EX[i], 0);
    b.min = vector3{m, 0, 0}; b.max = vector3{m + e, 1, 1};
    return b;
}
static bool inside(const AABB &out, const AABB &in) {
    return all(vc_le(out.min.x, in.min.x), vc_le(out.min.y, in.min.y), vc_le(out.min.z, in.min.z),
               vc_le(in.max.x, out.max.x), vc_le(in.max.y, out.max.y), vc_le(in.max.z, out.max.z));
}
static bool overlap(const AABB &a, const AABB &b) {
    return all(a.min.x <= b.max.x, b.min.x <= a.max.x, a.min.y <= b.max.y, b.min.y <= a.max.y, a.min.z <= b.max.z, b.min.z <= a.max.z);
}

struct entry { tree_node_id_t id; AABB box; uint32_t ent; bool on; };

// leaves are where they were put and enclose their boxes; parents link to their children, enclose them and know their height; one root
static void check_tree(const dynamic_tree &t, const std::vector<entry> &es) {
    tree_node_id_t root = null_tree_node_id;
    size_t live = 0;
    for (auto &e : es) {
        if (!e.on) continue;
        ++live;
        auto &leaf = t.get_node(e.id);
        vc_check(leaf.leaf(), "entries are leaves");
        vc_check(leaf.entity == entt::entity(e.ent), "entries keep their entity");
        vc_check(inside(leaf.aabb, e.box), "leaf encloses the box it was given");
        vc_check(leaf.height == 0, "leaves have height zero");
        auto id = e.id;
        for (int step = 0; ; ++step) {
            auto &node = t.get_node(id);
            if (node.parent == null_tree_node_id) break;
            vc_check(step < int(2 * es.size()), "parents lead to the root");
            auto &par = t.get_node(node.parent);
            vc_check((par.child1 == id) != (par.child2 == id), "a parent links to its child once");
            vc_check(inside(par.aabb, node.aabb), "a parent encloses its children");
            auto other = par.child1 == id ? par.child2 : par.child1;
            vc_check(t.get_node(other).parent == node.parent, "siblings share their parent");
            vc_check(par.height == std::max(node.height, t.get_node(other).height) + 1, "height is one more than that of the highest child");
            id = node.parent;
        }
        vc_check(root == null_tree_node_id || root == id, "there is one root");
        root = id;
        for (auto &f : es) if (f.on && &f != &e) vc_check(f.id != e.id, "entries have distinct ids");
    }
    // number of leaves below the root
    if (root != null_tree_node_id) {
        size_t leaves = 0, n = 0;
        std::vector<tree_node_id_t> stack {root};
        while (!stack.empty()) {
            auto id = stack.back(); stack.pop_back();
            vc_check(++n <= 4 * es.size(), "the nodes form a tree");
            auto &node = t.get_node(id);
            if (node.leaf()) ++leaves; else { stack.push_back(node.child1); stack.push_back(node.child2); }
        }
        vc_check(leaves == live, "no leaves other than the live entries");
    }
}
static void check_query(const dynamic_tree &t, const std::vector<entry> &es, const AABB &q) {
    std::vector<int> count(es.size(), 0);
    int other = 0;
    t.query(q, [&](tree_node_id_t id) {
        bool found = false;
        for (size_t i = 0; i < es.size(); ++i) if (es[i].on && es[i].id == id) { ++count[i]; found = true; }
        if (!found) ++other;
    });
    vc_check(other == 0, "a query visits only live entries");
    for (size_t i = 0; i < es.size(); ++i) {
        if (!es[i].on) continue;
        bool hit = overlap(t.get_node(es[i].id).aabb, q);
        vc_check(vc_implies(overlap(es[i].box, q), count[i] == 1), "every entry whose box intersects is visited once");
        vc_check(vc_implies(vc_not(hit), count[i] == 0), "no entry away from the query is visited");
    }
}
static void add(dynamic_tree &t, std::vector<entry> &es, const AABB &b) {
    uint32_t ent = 100 + uint32_t(es.size());
    es.push_back({t.create(b, entt::entity(ent)), b, ent, true});
}

VC_CONTRACT(create_3) {
    dynamic_tree t; std::vector<entry> es; es.reserve(4);
    for (int i = 0; i < 3; ++i) { add(t, es, any_box(i)); }
    vc_cover("created");
    check_tree(t, es);
}
VC_CONTRACT(create_4) {
    dynamic_tree t; std::vector<entry> es; es.reserve(5);
    for (int i = 0; i < 4; ++i) add(t, es, any_slab(i));
    vc_cover("created");
    check_tree(t, es);
}
VC_CONTRACT(query_2) {
    dynamic_tree t; std::vector<entry> es; es.reserve(4);
    check_query(t, es, any_box(5));
    for (int i = 0; i < 2; ++i) add(t, es, any_box(i));
    vc_cover("created");
    check_query(t, es, any_box(5));
}
VC_CONTRACT(query_3) {
    dynamic_tree t; std::vector<entry> es; es.reserve(4);
    for (int i = 0; i < 3; ++i) add(t, es, any_slab(i));
    vc_cover("created");
    check_query(t, es, any_slab(5));
}
VC_CONTRACT(create_4_boxes) {
    dynamic_tree t; std::vector<entry> es; es.reserve(5);
    for (int i = 0; i < 4; ++i) add(t, es, any_box(i));
    vc_cover("created");
    check_tree(t, es);
}
VC_CONTRACT(thorough_create_5) {
    dynamic_tree t; std::vector<entry> es; es.reserve(5);
    for (int i = 0; i < 5; ++i) add(t, es, any_slab(i));
    vc_cover("created");
    check_tree(t, es);
}
// moving one entry, removing any one, querying afterwards
VC_CONTRACT(history_4) {
    dynamic_tree t; std::vector<entry> es; es.reserve(6);
    for (int i = 0; i < 4; ++i) { AABB b; b.min = vector3{scalar(3 * i), scalar(i % 2), 0}; b.max = vector3{scalar(3 * i + 1), scalar(2), 1}; add(t, es, b); }
    size_t m = vc_int("m", 0, 3), k = vc_int("k", 0, 3);
    vc_cover("created");
    auto box = any_slab(4);
    t.move(es[m].id, box); es[m].box = box;
    t.destroy(es[k].id); es[k].on = false;
    check_tree(t, es);
    check_query(t, es, any_slab(5));
}
// removing any one of the entries, then adding one again
VC_CONTRACT(destroy_3) {
    dynamic_tree t; std::vector<entry> es; es.reserve(6);
    for (int i = 0; i < 3; ++i) add(t, es, any_slab(i));
    size_t k = vc_int("k", 0, 2);
    vc_cover("created");
    t.destroy(es[k].id); es[k].on = false;
    check_tree(t, es);
    add(t, es, any_slab(3));
    check_tree(t, es);
}
// removing everything, in any order
VC_CONTRACT(destroy_all) {
    dynamic_tree t; std::vector<entry> es; es.reserve(6);
    for (int i = 0; i < 3; ++i) add(t, es, any_slab(i));
    size_t a = vc_int("a", 0, 2), b = vc_int("b", 0, 2);
    vc_assume(a != b);
    vc_cover("created");
    t.destroy(es[a].id); es[a].on = false;
    t.destroy(es[b].id); es[b].on = false;
    check_tree(t, es);
    size_t c = 3 - a - b;
    t.destroy(es[c].id); es[c].on = false;
    int n = 0;
    AABB all_space; all_space.min = vector3{-1000, -1000, -1000}; all_space.max = vector3{1000, 1000, 1000};
    t.query(all_space, [&](tree_node_id_t) { ++n; });
    vc_check(n == 0, "nothing is left");
    add(t, es, any_slab(3));
    add(t, es, any_slab(4));
    check_tree(t, es);
}
// moving reports whether the bounds changed and the leaf encloses the new box either way
VC_CONTRACT(move_3) {
    dynamic_tree t; std::vector<entry> es; es.reserve(6);
    for (int i = 0; i < 3; ++i) add(t, es, any_slab(i));
    size_t k = vc_int("k", 0, 2);
    vc_cover("created");
    auto before = t.get_node(es[k].id).aabb;
    auto box = any_slab(3);
    bool moved = t.move(es[k].id, box);
    es[k].box = box;
    check_tree(t, es);
    auto after = t.get_node(es[k].id).aabb;
    vc_check(moved == !inside(before, box), "moved exactly when the box left the bounds of the leaf");
    vc_check(vc_implies(!moved, vc_and(eq3(before.min, after.min), eq3(before.max, after.max))), "bounds are kept when nothing moved");
}
VC_CONTRACT(move_1) {
    dynamic_tree t; std::vector<entry> es; es.reserve(6);
    add(t, es, any_box(0));
    auto box = any_box(1);
    vc_cover("created");
    t.move(es[0].id, box);
    es[0].box = box;
    check_tree(t, es);
    check_query(t, es, any_box(5));
}
VC_CONTRACT(clear_reuse) {
    dynamic_tree t; std::vector<entry> es; es.reserve(8);
    t.clear();
    for (int i = 0; i < 3; ++i) add(t, es, any_slab(i));
    t.clear();
    vc_cover("cleared");
    for (auto &e : es) e.on = false;
    int n = 0;
    AABB all_space; all_space.min = vector3{-1000, -1000, -1000}; all_space.max = vector3{1000, 1000, 1000};
    t.query(all_space, [&](tree_node_id_t) { ++n; });
    vc_check(n == 0, "nothing is left after clear");
    for (int i = 3; i < 6; ++i) add(t, es, any_slab(i));
    check_tree(t, es);
}
// boxes in line, which makes the tree unbalanced unless it is rotated
template<int N> void line(bool up) {
    dynamic_tree t; std::vector<entry> es; es.reserve(10);
    scalar e = any_in("e", scalar(0.5), scalar(2));
    for (int i = 0; i < N; ++i) { int k = up ? i : N - i; AABB b; b.min = vector3{scalar(10 * k), 0, 0}; b.max = vector3{scalar(10 * k) + e, 1, 1}; add(t, es, b); }
    vc_cover("created");
    check_tree(t, es);
    size_t k = vc_int("k", 0, N - 1);
    t.destroy(es[k].id); es[k].on = false;
    check_tree(t, es);
}
VC_CONTRACT(line_up) { line<6>(true); }
VC_CONTRACT(line_down) { line<6>(false); }
VC_CONTRACT(thorough_line_8) { line<8>(true); }
