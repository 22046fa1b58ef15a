// C13: containers. Every contract drives the public interface through sequences of operations chosen by the verifier.
#include "vc.hpp"
#include <limits>
#include <tuple>
#include <edyn/core/free_list.hpp>
#include <edyn/core/flat_nested_array.hpp>
#include <edyn/util/vector_util.hpp>
#include <edyn/util/array_util.hpp>
#include <edyn/util/tuple_util.hpp>
#include <edyn/comp/merge_component.hpp>
#include <edyn/comp/action_list.hpp>
#include <edyn/networking/comp/action_history.hpp>
#include <edyn/dynamics/row_cache.hpp>

constexpr size_t NIL = std::numeric_limits<size_t>::max();
struct item { scalar v {0}; size_t next {0}; };  // (the default link is that of the first slot)
using list_t = free_list<item, size_t, NIL>;

struct live { size_t index; scalar v; bool on; };

static void check_all(const list_t &l, const std::vector<live> &ls, const char *lab_count, const char *lab_val) {
    size_t n = 0;
    for (size_t i = 0; i < ls.size(); ++i) {
        if (!ls[i].on) continue;
        ++n;
        vc_check(ls[i].index < l.range(), "index of a live element is within range");
        vc_check(vc_eq(l[ls[i].index].v, ls[i].v), lab_val);
        for (size_t j = 0; j < i; ++j) if (ls[j].on) vc_check(ls[i].index != ls[j].index, "live elements have distinct indices");
    }
    vc_check(l.count() == n, lab_count);
    vc_check(l.empty() == (n == 0), "empty exactly when no element is live");
}

static void put(list_t &l, std::vector<live> &ls, scalar v) {
    item it; it.v = v;
    bool room = l.count() < l.range();
    auto range = l.range();
    ls.push_back({l.insert(std::move(it)), v, true});
    if (room) vc_check(l.range() == range, "free slots are reused before the storage grows");
}

// n inserts, then two removals in any order, then more inserts than were removed
static void free_list_reuse(size_t n) {
    scalar v = any("v"), w = any("w");
    list_t l;
    std::vector<live> ls;
    for (size_t i = 0; i < n; ++i) put(l, ls, v + scalar(int(i)));
    check_all(l, ls, "count after inserting", "inserted values are kept");
    size_t a = vc_int("a", 0, n - 1), b = vc_int("b", 0, n - 1);
    vc_assume(a != b);
    vc_cover("reached");
    l.remove(ls[a].index); ls[a].on = false;
    vc_check(l.count() == n - 1, "removing one element lowers the count by one");
    l.remove(ls[b].index); ls[b].on = false;
    for (int k = 0; k < 3; ++k) put(l, ls, w - scalar(k));
    check_all(l, ls, "count after removing and inserting", "no operation disturbs other elements");
}
VC_CONTRACT(free_list_2) { free_list_reuse(2); }
VC_CONTRACT(free_list_5) { free_list_reuse(5); }

// across the growth of the storage
VC_CONTRACT(free_list_growth) {
    scalar v = any("v"), w = any("w");
    list_t l;
    std::vector<live> ls;
    for (size_t i = 0; i < 16; ++i) put(l, ls, v + scalar(int(i)));
    size_t a = vc_int("a", 0, 15);
    bool again = vc_bool("again");
    vc_cover("reached");
    if (again) { l.remove(ls[a].index); ls[a].on = false; }
    for (int k = 0; k < 19; ++k) put(l, ls, w - scalar(k));
    check_all(l, ls, "count across growth", "values survive growth of the storage");
}

VC_CONTRACT(free_list_clear) {
    scalar v = any("v"), w = any("w");
    list_t l;
    std::vector<live> ls;
    size_t n = vc_int("n", 0, 4);
    for (size_t i = 0; i < n; ++i) put(l, ls, v + scalar(int(i)));
    bool rem = vc_bool("rem");
    if (rem && n > 1) { l.remove(ls[1].index); ls[1].on = false; }
    vc_cover("reached");
    l.clear();
    ls.clear();
    check_all(l, ls, "a cleared list has no elements", "");
    for (size_t i = 0; i < l.range(); ++i) vc_check(vc_eq(l[i].v, 0), "a cleared list holds only default values");
    size_t m = vc_int("m", 0, 18);
    for (size_t i = 0; i < m; ++i) put(l, ls, w + scalar(int(i)));
    check_all(l, ls, "count after reusing a cleared list", "a cleared list stores new values");
}

// every sequence of four operations (insert, remove one of three, clear) from any of the states reached by 3 inserts
VC_CONTRACT(free_list_sequences) {
    scalar v = any("v");
    list_t l;
    std::vector<live> ls;
    for (int i = 0; i < 3; ++i) put(l, ls, v + scalar(i));
    const char *nm[4] = {"op0", "op1", "op2", "op3"};
    for (int k = 0; k < 4; ++k) {
        unsigned op = vc_int(nm[k], 0, 4);
        if (op == 0) {
            put(l, ls, v - scalar(k + 1));
        } else if (op == 4) {
            l.clear();
            for (auto &x : ls) x.on = false;
        } else {
            unsigned c = 0;
            for (auto &x : ls) if (x.on && ++c == op) { l.remove(x.index); x.on = false; break; }
        }
    }
    vc_cover("reached");
    put(l, ls, v * 2);
    put(l, ls, v * 3);
    check_all(l, ls, "count after any sequence of operations", "values after any sequence of operations");
}

VC_CONTRACT(free_list_removed_default) {
    scalar v = any("v");
    list_t l;
    std::vector<live> ls;
    for (size_t i = 0; i < 3; ++i) put(l, ls, v + scalar(int(i)));
    size_t a = vc_int("a", 0, 2);
    vc_cover("reached");
    l.remove(ls[a].index);
    vc_check(vc_eq(l[ls[a].index].v, 0), "the slot of a removed element holds a default value");
    l[ls[(a + 1) % 3].index].v = 7;
    vc_check(vc_eq(l[ls[(a + 1) % 3].index].v, 7), "elements can be changed in place");
    vc_check(vc_eq(l[ls[(a + 2) % 3].index].v, v + scalar(int((a + 2) % 3))), "changing one element leaves the others");
}

// any number (0..3 each) of values in four nested arrays
VC_CONTRACT(flat_nested) {
    flat_nested_array<scalar> f;
    size_t n[3];
    const char *nm[3] = {"n0", "n1", "n2"};
    scalar v = any("v");
    size_t k = 0;
    if (vc_bool("reserve")) { f.reserve_data(2); f.reserve_nested(5); }
    for (int i = 0; i < 3; ++i) {
        n[i] = vc_int(nm[i], 0, 3);
        f.push_array();
        for (size_t j = 0; j < n[i]; ++j) f.push_back(v * scalar(int(++k)));
    }
    vc_cover("reached");
    vc_check(f.size() == 3, "number of nested arrays");
    k = 0;
    for (int i = 0; i < 3; ++i) {
        auto a = f[i];
        vc_check(a.size() == n[i], "size of each nested array");
        for (size_t j = 0; j < n[i]; ++j) { ++k; vc_check(vc_eq(a[j], v * scalar(int(k))), "values of each nested array in order"); }
    }
}

VC_CONTRACT(vector_ops) {
    std::vector<unsigned> v;
    unsigned x[4], val = vc_int("val", 0, 2);
    const char *nm[4] = {"x0", "x1", "x2", "x3"};
    for (int i = 0; i < 4; ++i) { x[i] = vc_int(nm[i], 0, 2); v.push_back(x[i]); }
    bool has = false;
    std::vector<unsigned> keep;
    for (int i = 0; i < 4; ++i) { if (x[i] == val) has = true; else keep.push_back(x[i]); }
    vc_cover("reached");
    vc_check(vector_contains(v, val) == has, "vector_contains exactly when an element equals the value");
    vector_erase(v, val);
    vc_check(v.size() == keep.size(), "vector_erase removes every equal element and no other");
    for (size_t i = 0; i < keep.size(); ++i) vc_check(v[i] == keep[i], "vector_erase keeps the order of the others");
    vc_check(!vector_contains(v, val), "vector does not contain an erased value");
}

VC_CONTRACT(make_array_fills) {
    scalar v = any("v");
    auto a = make_array<5>(v);
    vc_cover("reached");
    vc_check(a.size() == 5, "array size");
    for (auto &x : a) vc_check(vc_eq(x, v), "every element holds the value");
}

VC_CONTRACT(visit_tuple_index) {
    std::tuple<int, short, char, long> t{1, 2, 3, 4};
    unsigned i = vc_int("i", 0, 3);
    long seen = 0; int calls = 0;
    vc_cover("reached");
    visit_tuple(t, i, [&](auto &x) { seen = long(x); ++calls; x = 9; });
    vc_check(calls == 1 && seen == long(i) + 1, "visit_tuple visits exactly the element asked for");
    vc_check((std::get<0>(t) == 9) == (i == 0) && (std::get<1>(t) == 9) == (i == 1) && (std::get<2>(t) == 9) == (i == 2) && (std::get<3>(t) == 9) == (i == 3),
             "visit_tuple gives access to the element itself");
    const auto &c = t;
    long seen2 = 0;
    visit_tuple(c, i, [&](auto &&x) { seen2 = long(x); });
    vc_check(seen2 == 9, "visit_tuple on a const tuple");
}

// rows are consumed per constraint, in the order they were added
VC_CONTRACT(row_prep) {
    constraint_row_prep_cache c;
    unsigned n[3];
    const char *nm[3] = {"n0", "n1", "n2"};
    scalar v = any("v");
    unsigned k = 0;
    bool fr = vc_bool("friction");
    for (int i = 0; i < 3; ++i) {
        n[i] = vc_int(nm[i], 0, 2);
        c.add_constraint();
        for (unsigned j = 0; j < n[i]; ++j) {
            ++k;
            auto &r = c.add_row();
            r.eff_mass = v * scalar(int(k));
            c.get_options().error = v - scalar(int(k));
            vc_check(&c.get_current_row() == &r, "the current row is the one added last");
            if (fr && j == 0) { c.add_friction_row().friction_coefficient = v + scalar(int(k)); }
            if (fr && j == 1) { c.add_rolling_row().friction_coefficient = v + scalar(int(k)); c.add_spinning_row().friction_coefficient = v + 2 * scalar(int(k)); }
        }
    }
    vc_cover("reached");
    vc_check(c.num_rows == k, "number of rows");
    vc_check(c.num_constraints == 3, "number of constraints");
    k = 0;
    for (int i = 0; i < 3; ++i) {
        vc_check(c.current_num_rows() == n[i], "rows of the next constraint");
        unsigned seen = 0;
        c.consume_rows([&](auto &e) {
            ++k;
            vc_check(vc_eq(e.row.eff_mass, v * scalar(int(k))), "rows are consumed in order");
            vc_check(vc_eq(e.options.error, v - scalar(int(k))), "every row keeps its options");
            bool f = fr && seen == 0, r = fr && seen == 1;
            vc_check(bool(e.flags & constraint_row_flag_friction) == f, "friction flag exactly for rows with friction");
            vc_check(bool(e.flags & constraint_row_flag_rolling_friction) == r, "rolling flag exactly for rows with rolling friction");
            vc_check(bool(e.flags & constraint_row_flag_spinning_friction) == r, "spinning flag exactly for rows with spinning friction");
            if (f) vc_check(vc_eq(e.friction.friction_coefficient, v + scalar(int(k))), "friction row belongs to its row");
            if (r) vc_check(vc_and(vc_eq(e.rolling.friction_coefficient, v + scalar(int(k))), vc_eq(e.spinning.friction_coefficient, v + 2 * scalar(int(k)))),
                            "rolling and spinning rows belong to their row");
            ++seen;
        });
        vc_check(seen == n[i], "every row is consumed exactly once, by its own constraint");
    }
    c.clear();
    c.add_constraint();
    c.add_row();
    vc_check(vc_and(vc_eq(c.get_options().error, 0), vc_eq(c.get_options().restitution, 0)), "after clearing, options are back to their defaults");
    vc_check(c.num_rows == 1 && c.num_constraints == 1 && c.current_num_rows() == 1, "after clearing, counting starts over");
    unsigned seen = 0;
    c.consume_rows([&](auto &e) { vc_check(e.flags == 0, "after clearing, no friction flag is left"); ++seen; });
    vc_check(seen == 1, "after clearing, only the new row is consumed");
}

VC_CONTRACT(action_list_merge) {
    action_list<scalar> a, b;
    unsigned n = vc_int("n", 0, 3), m = vc_int("m", 0, 3);
    scalar v = any("v");
    for (unsigned i = 0; i < n; ++i) a.actions.push_back(v + scalar(int(i)));
    for (unsigned i = 0; i < m; ++i) b.actions.push_back(v - 10 - scalar(int(i)));
    vc_cover("reached");
    merge_component(a, b);
    vc_check(a.actions.size() == n + m, "merging accumulates all actions");
    for (unsigned i = 0; i < n + m; ++i)
        vc_check(vc_eq(a.actions[i], i < n ? v + scalar(int(i)) : v - 10 - scalar(int(i - n))), "merging appends new actions in order");
    vc_check(b.actions.size() == m, "merging leaves the source");
    scalar x = v, y = v + 1;
    merge_component(x, y);
    vc_check(vc_eq(x, v + 1), "other components are replaced");
}

static action_history::entry entry_at(double t, uint8_t i) { return action_history::entry(t, i, std::vector<uint8_t>{i, uint8_t(i + 1)}); }

// two histories with increasing timestamps: exactly the newer entries are appended
VC_CONTRACT(history_merge) {
    action_history h, o;
    double t[4], d[3];
    t[0] = vc_int("t0", 0, 9); 
    unsigned n = vc_int("n", 0, 2), m = vc_int("m", 1, 3);
    double a0 = any("a0"), b0 = any("b0"), s1 = any_gt("s1", 0), s2 = any_gt("s2", 0), s3 = any_gt("s3", 0);
    double a[2] = {a0, a0 + s1}, b[3] = {b0, b0 + s2, b0 + s2 + s3};
    vc_assume(a0 > 0);
    for (unsigned i = 0; i < n; ++i) { action_history e; e.entries.push_back(entry_at(a[i], uint8_t(i))); h.merge(e); }
    vc_check(h.entries.size() == n, "entries with increasing timestamps are all appended");
    double last = n == 0 ? 0 : a[n - 1];
    for (unsigned i = 0; i < m; ++i) o.entries.push_back(entry_at(b[i], uint8_t(10 + i)));
    unsigned skip = 0;
    for (unsigned i = 0; i < m; ++i) if (!(b[i] > last)) ++skip;
    vc_cover("reached");
    bool twice = vc_bool("twice");
    h.merge(o);
    if (twice) h.merge(o);
    vc_check(h.entries.size() == n + m - skip, "merging appends exactly the entries newer than any seen before, once");
    for (unsigned i = 0; i < n; ++i) vc_check(h.entries[i].action_index == i, "earlier entries stay in place");
    for (unsigned i = n; i < n + m - skip && i < h.entries.size(); ++i) {
        unsigned k = skip + i - n;
        vc_check(vc_eq(scalar(h.entries[i].timestamp), scalar(b[k])), "merged entries keep their timestamps, in order");
        vc_check(h.entries[i].action_index == 10 + k && h.entries[i].data.size() == 2 && h.entries[i].data[0] == 10 + k, "merged entries keep their data");
    }
}

VC_CONTRACT(history_erase) {
    action_history h;
    double a0 = any("a0"), s1 = any_ge("s1", 0), s2 = any_ge("s2", 0), c = any("c");
    double a[3] = {a0, a0 + s1, a0 + s1 + s2};
    unsigned n = vc_int("n", 0, 3);
    for (unsigned i = 0; i < n; ++i) h.entries.push_back(entry_at(a[i], uint8_t(i)));
    unsigned old = 0;
    for (unsigned i = 0; i < n; ++i) if (a[i] < c) ++old;
    vc_cover("reached");
    h.erase_until(c);
    vc_check(h.entries.size() == n - old, "exactly the entries before the timestamp are erased");
    vc_check(h.empty() == (n == old), "empty when nothing is left");
    for (unsigned i = 0; i < h.entries.size(); ++i) vc_check(h.entries[i].action_index == old + i, "remaining entries keep their order and data");
}

VC_CONTRACT(history_sort) {
    action_history h;
    double a[3] = {any("a"), any("b"), any("c")};
    for (unsigned i = 0; i < 3; ++i) h.entries.push_back(entry_at(a[i], uint8_t(i)));
    vc_cover("reached");
    h.sort();
    vc_check(h.entries.size() == 3, "sorting keeps every entry");
    unsigned mask = 0;
    for (unsigned i = 0; i < 3; ++i) {
        auto &e = h.entries[i];
        mask |= 1u << e.action_index;
        vc_check(vc_eq(scalar(e.timestamp), scalar(a[e.action_index])), "an entry keeps its timestamp and data together");
        vc_check(e.data.size() == 2 && e.data[0] == e.action_index, "an entry keeps its data");
        if (i > 0) vc_check(vc_le(scalar(h.entries[i - 1].timestamp), scalar(e.timestamp)), "entries are in order of time");
    }
    vc_check(mask == 7, "every entry is present exactly once");
}
