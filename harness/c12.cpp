// C12: views and sub-views are bounds-checked ranges, for every offset, count, index and iterator distance.
#include "vp.h"
#include <Tecs.hh>
#include <vector>
using Ent = Tecs::Entity;
using V = Tecs::EntityView;
#ifndef NMAX
    #define NMAX 4
#endif
static Ent want[NMAX + 1];
template<typename F> static bool throws(F f) {
    try { f(); } catch (...) { return true; }
    return false;
}
// v must denote exactly want[from .. from+n)
static void isRange(const V &v, size_t from, size_t n) {
    vp_assert(v.size() == n, "size of a view");
    vp_assert(v.empty() == (n == 0), "emptiness of a view");
    size_t k = 0;
    bool ok = true;
    vp_assert(!throws([&] { for (auto it = v.begin(); it != v.end() && k <= NMAX; ++it, k++) ok &= k < n && *it == want[from + k] && it->index == want[from + k].index; }), "forward iteration throws");
    vp_assert(ok && k == n, "forward iteration does not visit exactly the elements of the view");
    k = 0;
    ok = true;
    vp_assert(!throws([&] { for (auto it = v.rbegin(); it != v.rend() && k <= NMAX; ++it, k++) ok &= k < n && *it == want[from + n - 1 - k]; }), "reverse iteration throws");
    vp_assert(ok && k == n, "reverse iteration does not visit exactly the elements of the view in reverse order");
    for (size_t i = 0; i < n; i++) {
        Ent e, f, g;
        vp_assert(!throws([&] { e = v[i]; f = v.begin()[i]; g = *(v.end() - (std::ptrdiff_t)(n - i)); }), "an access inside a view throws");
        vp_assert(e == want[from + i], "indexing does not give the element at that position");
        vp_assert(f == want[from + i], "the iterator's indexing does not give the element at that position");
        vp_assert(g == want[from + i], "iterator arithmetic does not give the element at that position");
    }
#ifndef TECS_UNCHECKED_MODE
    switch (vp_choose("outside", 5)) { // any position at all
    case 0: {
        size_t i = vp_u64("i");
        Ent e;
        bool t = throws([&] { e = v[i]; });
        vp_assert(t == (i >= n), "indexing outside a view does not throw (or inside does)");
        if (!t && i < n) vp_assert(e == want[from + vp_concrete(i)], "indexing reads another element");
        break;
    }
    case 1: { // begin + d, dereferenced
        std::ptrdiff_t d = (std::ptrdiff_t)vp_u64("d");
        Ent e;
        bool t = throws([&] { e = *(v.begin() + d); });
        bool in = d >= 0 && (size_t)d < n;
        vp_assert(t == !in, "dereferencing outside a view does not throw (or inside does)");
        if (!t && in) vp_assert(e == want[from + vp_concrete(d)], "dereferencing reads another element");
        break;
    }
    case 2: {
        std::ptrdiff_t d = (std::ptrdiff_t)vp_u64("d");
        Ent e;
        bool t = throws([&] { e = v.begin()[d]; });
        bool in = d >= 0 && (size_t)d < n;
        vp_assert(t == !in, "iterator indexing outside a view does not throw (or inside does)");
        if (!t && in) vp_assert(e == want[from + vp_concrete(d)], "iterator indexing reads another element");
        break;
    }
    case 3: {
        std::ptrdiff_t d = (std::ptrdiff_t)vp_u64("d");
        auto it = v.end();
        it -= d;
        Ent e;
        bool t = throws([&] { e.index = it->index; e.generation = it->generation; });
        bool in = d >= 1 && (size_t)d <= n;
        vp_assert(t == !in, "an access before or after a view does not throw (or inside does)");
        if (!t && in) vp_assert(e == want[from + n - vp_concrete(d)], "an access reads another element");
        it += d;
        vp_assert(it == v.end() && !(it != v.end()), "iterator += does not undo -=");
        break;
    }
    case 4: {
        auto a = v.begin(), b = v.end();
        vp_assert((a == b) == (n == 0) && (a != b) == (n != 0), "begin equals end although the view is not empty (or vice versa)");
        vp_assert(a + (std::ptrdiff_t)n == b && b - (std::ptrdiff_t)n == a, "end is not begin plus size");
        auto c = a++;
        vp_assert(c == v.begin() && a == c + 1, "post-increment");
        auto d = a--;
        vp_assert(d == c + 1 && a == c, "post-decrement");
        ++a; --a;
        vp_assert(a == v.begin(), "increment and decrement");
        vp_assert(throws([&] { (void)*b; }), "dereferencing the end does not throw");
        --a;
        vp_assert(throws([&] { (void)*a; }), "dereferencing before the beginning does not throw");
        break;
    }
    }
#endif
}
static void subOf(const V &v, size_t from, size_t n, unsigned depth) {
    size_t off = vp_u64("offset"), cnt = vp_u64("count");
    bool dflt = vp_choose("default", 2);
    V s;
#ifdef TECS_UNCHECKED_MODE
    vp_assume(off <= n);
#endif
    bool t = throws([&] { s = dflt ? v.subview(off) : v.subview(off, cnt); });
    if (off > n) {
        if (!t) vp_assert(s.size() == 0 && s.empty(), "a sub-view beyond the end of its parent is not empty");
        return;
    }
    vp_assert(!t, "a sub-view inside its parent throws");
    if (t) return;
    size_t o = vp_concrete(off), len = n - o;
    if (!dflt && cnt < len) len = vp_concrete(cnt);
    if (depth && vp_choose("again", 2)) subOf(s, from + o, len, depth - 1);
    else isRange(s, from + o, len);
}
void vp_main() {
    size_t n = vp_choose("n", NMAX + 1);
    std::vector<Ent> st;
    for (size_t i = 0; i < n; i++) {
        Ent e;
        e.index = (TECS_ENTITY_INDEX_TYPE)vp_u32("index");
        e.generation = (TECS_ENTITY_GENERATION_TYPE)vp_u32("gen");
        want[i] = e;
        st.push_back(e);
    }
    switch (vp_choose("kind", 4)) {
    case 0: isRange(V(st), 0, n); break;
    case 1: { // explicit range
        size_t a = vp_u64("a"), b = vp_u64("b");
#ifdef TECS_UNCHECKED_MODE
        vp_assume(a <= b && b <= n);
#endif
        V v;
        bool t = throws([&] { v = V(st, a, b); });
        bool ok = a <= b && b <= n;
        vp_assert(t == !ok, "a range outside the listing does not throw (or a valid one does)");
        if (ok && !t) { size_t x = vp_concrete(a), y = vp_concrete(b); isRange(v, x, y - x); }
        break;
    }
    case 2: subOf(V(st), 0, n, 1); break;
    case 3: {
        V d; // a default view
        vp_assert(d.size() == 0 && d.empty() && d.begin() == d.end(), "a default view is not empty");
        bool ok = true;
        for (const Ent &e : d) { ok = false; (void)e; }
        vp_assert(ok, "a default view has elements");
#ifndef TECS_UNCHECKED_MODE
        size_t i = vp_u64("i");
        vp_assert(throws([&] { (void)d[i]; }), "indexing a default view does not throw");
        vp_assert(throws([&] { V s = d.subview(i); if (s.empty()) throw 1; }), "a default view has a non-empty sub-view");
#endif
        break;
    }
    }
    vp_reach("end");
}
