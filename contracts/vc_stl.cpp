// Verifier only: definitions of the functions of libstdc++ which exist only in compiled form. The trees are kept in order but never
// rebalanced (which cannot be observed through std::map and std::set); bucket counts follow the documented maximum load factor of one.
#include <map>
#include <set>
#include <unordered_map>
#include <string>

template class std::basic_string<char>;  // from the library's own headers

namespace std {
using node = _Rb_tree_node_base;

static node *next(node *x) {
    if (x->_M_right) {
        x = x->_M_right;
        while (x->_M_left) x = x->_M_left;
        return x;
    }
    node *y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
    return x;
}
static node *prev(node *x) {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) {
        x = x->_M_left;
        while (x->_M_right) x = x->_M_right;
        return x;
    }
    node *y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
__attribute__((used)) node *_Rb_tree_increment(node *x) throw() { return next(x); }
__attribute__((used)) const node *_Rb_tree_increment(const node *x) throw() { return next(const_cast<node *>(x)); }
__attribute__((used)) node *_Rb_tree_decrement(node *x) throw() { return prev(x); }
__attribute__((used)) const node *_Rb_tree_decrement(const node *x) throw() { return prev(const_cast<node *>(x)); }

__attribute__((used)) void _Rb_tree_insert_and_rebalance(const bool left, node *x, node *p, node &header) throw() {
    x->_M_parent = p;
    x->_M_left = nullptr;
    x->_M_right = nullptr;
    x->_M_color = _S_black;
    if (left) {
        p->_M_left = x;
        if (p == &header) {
            header._M_parent = x;
            header._M_right = x;
        } else if (p == header._M_left) {
            header._M_left = x;
        }
    } else {
        p->_M_right = x;
        if (p == header._M_right) header._M_right = x;
    }
}
static void transplant(node *u, node *v, node &header) {
    if (u->_M_parent == &header) header._M_parent = v;
    else if (u == u->_M_parent->_M_left) u->_M_parent->_M_left = v;
    else u->_M_parent->_M_right = v;
    if (v) v->_M_parent = u->_M_parent;
}
__attribute__((used)) node *_Rb_tree_rebalance_for_erase(node *const z, node &header) throw() {
    node *first = header._M_left == z ? next(z) : header._M_left;
    node *last = header._M_right == z ? prev(z) : header._M_right;
    if (!z->_M_left) transplant(z, z->_M_right, header);
    else if (!z->_M_right) transplant(z, z->_M_left, header);
    else {
        node *y = z->_M_right;
        while (y->_M_left) y = y->_M_left;
        if (y->_M_parent != z) {
            transplant(y, y->_M_right, header);
            y->_M_right = z->_M_right;
            y->_M_right->_M_parent = y;
        }
        transplant(z, y, header);
        y->_M_left = z->_M_left;
        y->_M_left->_M_parent = y;
    }
    if (!header._M_parent) { header._M_left = &header; header._M_right = &header; }
    else { header._M_left = first; header._M_right = last; }
    return z;
}

namespace __detail {
__attribute__((used)) size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
    size_t k = 1;
    for (size_t c : {2ul, 5ul, 11ul, 13ul, 29ul, 59ul, 127ul, 257ul, 541ul, 1109ul, 2357ul, 5087ul}) if (k < n) k = c;
    _M_next_resize = k;
    return k;
}
__attribute__((used)) pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const {
    if (elt + ins > _M_next_resize) {
        size_t want = elt + ins;
        if (_M_next_resize == 0 && want < 11) want = 11;
        if (want >= bkt) {
            size_t grow = bkt * 2;
            return {true, _M_next_bkt(want + 1 > grow ? want + 1 : grow)};
        }
        _M_next_resize = bkt;
        return {false, 0};
    }
    return {false, 0};
}
}
}

extern "C" {
__attribute__((used)) size_t strlen(const char *s) { size_t n = 0; while (s[n]) ++n; return n; }
__attribute__((used)) void *memchr(const void *s, int c, size_t n) {
    auto *p = static_cast<const unsigned char *>(s);
    for (size_t i = 0; i < n; ++i) if (p[i] == static_cast<unsigned char>(c)) return const_cast<unsigned char *>(p + i);
    return nullptr;
}
}
