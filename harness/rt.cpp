// Definitions of the libstdc++ functions that live only in libstdc++.so, so that code using these containers can be
// executed symbolically.  Trees are kept unbalanced: only their order matters.  Not part of any native build.
#include "noext.h"
#include <list>
#include <map>
#include <unordered_map>

namespace std {
    namespace __detail {
        void _List_node_base::_M_hook(_List_node_base *const p) noexcept {
            _M_next = p;
            _M_prev = p->_M_prev;
            p->_M_prev->_M_next = this;
            p->_M_prev = this;
        }
        void _List_node_base::_M_unhook() noexcept {
            _M_prev->_M_next = _M_next;
            _M_next->_M_prev = _M_prev;
        }
        void _List_node_base::_M_reverse() noexcept {
            _List_node_base *t = this;
            do {
                _List_node_base *n = t->_M_next;
                t->_M_next = t->_M_prev;
                t->_M_prev = n;
                t = n;
            } while (t != this);
        }
        void _List_node_base::_M_transfer(_List_node_base *const first, _List_node_base *const last) noexcept {
            if (this == last) return;
            last->_M_prev->_M_next = this;
            first->_M_prev->_M_next = last;
            _M_prev->_M_next = first;
            _List_node_base *t = _M_prev;
            _M_prev = last->_M_prev;
            last->_M_prev = first->_M_prev;
            first->_M_prev = t;
        }
        void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
            bool xe = x._M_next == &x, ye = y._M_next == &y;
            std::swap(x._M_next, y._M_next);
            std::swap(x._M_prev, y._M_prev);
            if (ye) x._M_next = x._M_prev = &x; else x._M_next->_M_prev = x._M_prev->_M_next = &x;
            if (xe) y._M_next = y._M_prev = &y; else y._M_next->_M_prev = y._M_prev->_M_next = &y;
        }
        size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
            static const size_t primes[] = {1, 2, 3, 5, 7, 11, 13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753, 42043, 85229, 172933, 351061, 712697, 1447153, 2938679};
            size_t r = n;
            for (size_t p : primes) if (p >= n) { r = p; break; }
            _M_next_resize = r;
            return r;
        }
        pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const {
            if (elt + ins > _M_next_resize) {
                size_t min = elt + ins;
                if (!_M_next_resize && min < 11) min = 11;
                if (min >= bkt) return {true, _M_next_bkt(min + 1 > bkt * 2 ? min + 1 : bkt * 2)};
                _M_next_resize = bkt;
            }
            return {false, 0};
        }
    }
    size_t _Hash_bytes(const void *p, size_t n, size_t seed) {
        size_t h = seed ^ 1469598103934665603ull;
        for (size_t i = 0; i < n; i++) h = (h ^ ((const unsigned char *)p)[i]) * 1099511628211ull;
        return h;
    }
    size_t _Fnv_hash_bytes(const void *p, size_t n, size_t seed) { return _Hash_bytes(p, n, seed); }

    static _Rb_tree_node_base *next(_Rb_tree_node_base *x) {
        if (x->_M_right) {
            x = x->_M_right;
            while (x->_M_left) x = x->_M_left;
            return x;
        }
        _Rb_tree_node_base *y = x->_M_parent;
        while (x == y->_M_right) { x = y; y = y->_M_parent; }
        return x->_M_right != y ? y : x;
    }
    static _Rb_tree_node_base *prev(_Rb_tree_node_base *x) {
        if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right; // the header
        if (x->_M_left) {
            x = x->_M_left;
            while (x->_M_right) x = x->_M_right;
            return x;
        }
        _Rb_tree_node_base *y = x->_M_parent;
        while (x == y->_M_left) { x = y; y = y->_M_parent; }
        return y;
    }
    _Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) noexcept { return next(x); }
    const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) noexcept { return next(const_cast<_Rb_tree_node_base *>(x)); }
    _Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) noexcept { return prev(x); }
    const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) noexcept { return prev(const_cast<_Rb_tree_node_base *>(x)); }
    void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) noexcept {
        x->_M_parent = p;
        x->_M_left = x->_M_right = nullptr;
        x->_M_color = _S_black;
        if (left) {
            p->_M_left = x;
            if (p == &h) { h._M_parent = x; h._M_right = x; }
            else if (p == h._M_left) h._M_left = x;
        } else {
            p->_M_right = x;
            if (p == h._M_right) h._M_right = x;
        }
    }
    _Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) noexcept {
        auto replace = [&](_Rb_tree_node_base *a, _Rb_tree_node_base *b) {
            if (h._M_parent == a) h._M_parent = b;
            else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b;
            else a->_M_parent->_M_right = b;
            if (b) b->_M_parent = a->_M_parent;
        };
        _Rb_tree_node_base *first = h._M_left == z ? next(z) : h._M_left, *last = h._M_right == z ? prev(z) : h._M_right;
        if (!z->_M_left) replace(z, z->_M_right);
        else if (!z->_M_right) replace(z, z->_M_left);
        else {
            _Rb_tree_node_base *y = z->_M_right;
            while (y->_M_left) y = y->_M_left;
            if (y->_M_parent != z) {
                replace(y, y->_M_right);
                y->_M_right = z->_M_right;
                y->_M_right->_M_parent = y;
            }
            replace(z, y);
            y->_M_left = z->_M_left;
            y->_M_left->_M_parent = y;
        }
        if (!h._M_parent) { h._M_left = h._M_right = &h; }
        else { h._M_left = first; h._M_right = last; }
        return z;
    }
}
extern "C" void *memchr(const void *p, int c, size_t n) {
    for (size_t i = 0; i < n; i++) if (((const unsigned char *)p)[i] == (unsigned char)c) return (void *)((const char *)p + i);
    return nullptr;
}
extern "C" char *strchr(const char *p, int c) {
    for (;; p++) { if (*p == (char)c) return (char *)p; if (!*p) return nullptr; }
}
extern "C" int strncmp(const char *a, const char *b, size_t n) {
    for (size_t i = 0; i < n; i++) { if (a[i] != b[i]) return (unsigned char)a[i] - (unsigned char)b[i]; if (!a[i]) return 0; }
    return 0;
}
