// Components, reference model and operations shared by the history harnesses.
#pragma once
#include "vp.h"
#include <Tecs.hh>
#include <algorithm>

// MOVES: components whose values are destroyed by being moved from or released, and that are not trivially copyable
#ifdef MOVES
    #define SPECIAL(C, POISON) \
        C() {} \
        C(const C &o) = default; \
        C &operator=(const C &o) = default; \
        C(C &&o) noexcept : C((const C &)o) { o.poison(); } \
        C &operator=(C &&o) noexcept { if (this != &o) { *this = (const C &)o; o.poison(); } return *this; } \
        ~C() { poison(); } \
        void poison() { POISON; }
#else
    #define SPECIAL(C, POISON) C() {}
#endif
struct CompA {
    uint32_t x = 11;
    uint64_t y = 22;
    SPECIAL(CompA, x ^= 0x5a5a5a5a; y = ~y)
    bool operator==(const CompA &o) const { return (x == o.x) & (y == o.y); }
};
struct CompB {
    uint8_t f = 33;
    SPECIAL(CompB, f ^= 0x5a)
    explicit CompB(uint8_t v) : f(v) {}
    bool operator==(const CompB &o) const { return f == o.f; }
};
struct GlobG {
    uint32_t g = 44;
    SPECIAL(GlobG, g ^= 0x5a5a5a5a)
    explicit GlobG(uint32_t v) : g(v) {}
    bool operator==(const GlobG &o) const { return g == o.g; }
};
struct GlobH {
    uint64_t h = 55;
    SPECIAL(GlobH, h = ~h)
    explicit GlobH(uint64_t v) : h(v) {}
    bool operator==(const GlobH &o) const { return h == o.h; }
};
TECS_GLOBAL_COMPONENT(GlobG);
TECS_GLOBAL_COMPONENT(GlobH);
using Ecs = Tecs::ECS<CompA, GlobG, CompB, GlobH>;
using Ent = Tecs::Entity;

#ifndef NENT
    #define NENT 6
#endif
struct MEnt {
    Ent h;
    bool live = false, hasA = false, hasB = false;
    CompA a;
    CompB b;
};
struct World {
    MEnt e[NENT];
    unsigned n = 0; // entities ever created
    bool hasG = false, hasH = false;
    GlobG g;
    GlobH h;
};

template<typename L>
inline void checkOther(const L &lock, const World &w, Ent any, bool anyExpected) { (void)lock; (void)w; (void)any; (void)anyExpected; }

// listing: every entry is null or a member, each member exactly once
template<typename F>
inline void checkListing(const Tecs::EntityView &v, const World &w, F member, bool nullsAllowed, const char *msg) {
    bool ok = true;
    unsigned seen[NENT] = {};
    for (const Ent &x : v) {
        if (!x) { ok &= nullsAllowed; continue; }
        bool found = false;
        for (unsigned k = 0; k < w.n; k++)
            if (w.e[k].live && member(w.e[k]) && w.e[k].h == x) { seen[k]++; found = true; }
        ok &= found;
    }
    for (unsigned k = 0; k < w.n; k++) ok &= seen[k] == ((w.e[k].live && member(w.e[k])) ? 1u : 0u);
    vp_assert(ok, msg);
}

// Compares everything visible through a lock with the model.  cur: pending view; prev: view at transaction start
template<typename L>
inline void checkCurrent(const L &lock, const World &w, bool listings, bool nulls, const char *what) {
    (void)what;
    for (unsigned k = 0; k < w.n; k++) {
        const MEnt &m = w.e[k];
        vp_assert(m.h.Exists(lock) == m.live, "current existence of an entity differs from the history");
        vp_assert(m.h.template Has<CompA>(lock) == (m.live && m.hasA), "current component set (A) differs from the history");
        vp_assert(m.h.template Has<CompB>(lock) == (m.live && m.hasB), "current component set (B) differs from the history");
        vp_assert(m.h.template Has<CompA, CompB>(lock) == (m.live && m.hasA && m.hasB), "current component set (A,B) differs from the history");
        if (m.live && m.hasA) vp_assert(m.h.template Get<const CompA>(lock) == m.a, "current value of A differs from the history");
        if (m.live && m.hasB) vp_assert(m.h.template Get<const CompB>(lock) == m.b, "current value of B differs from the history");
    }
    vp_assert(lock.template Has<GlobG>() == w.hasG, "current presence of global G differs from the history");
    vp_assert(lock.template Has<GlobH>() == w.hasH, "current presence of global H differs from the history");
    if (w.hasG) vp_assert(lock.template Get<const GlobG>() == w.g, "current value of global G differs from the history");
    if (w.hasH) vp_assert(lock.template Get<const GlobH>() == w.h, "current value of global H differs from the history");
    if (listings) {
        checkListing(lock.Entities(), w, [](const MEnt &) { return true; }, nulls, "current entity listing is not exact");
        checkListing(lock.template EntitiesWith<CompA>(), w, [](const MEnt &m) { return m.hasA; }, nulls, "current listing of A is not exact");
        checkListing(lock.template EntitiesWith<CompB>(), w, [](const MEnt &m) { return m.hasB; }, nulls, "current listing of B is not exact");
    }
}
template<typename L>
inline void checkPrevious(const L &lock, const World &w, unsigned known, const Ent *handles, bool listings) {
    for (unsigned k = 0; k < known; k++) {
        bool inW = k < w.n;
        const Ent h = inW ? w.e[k].h : handles[k];
        const MEnt m = inW ? w.e[k] : MEnt{};
        vp_assert(h.Existed(lock) == (inW && m.live), "previous existence of an entity differs from the committed state");
        vp_assert(h.template Had<CompA>(lock) == (inW && m.live && m.hasA), "previous component set (A) differs from the committed state");
        vp_assert(h.template Had<CompB>(lock) == (inW && m.live && m.hasB), "previous component set (B) differs from the committed state");
        vp_assert(h.template Had<CompA, CompB>(lock) == (inW && m.live && m.hasA && m.hasB), "previous component set (A,B) differs from the committed state");
        if (inW && m.live && m.hasA) vp_assert(h.template GetPrevious<CompA>(lock) == m.a, "previous value of A differs from the committed state");
        if (inW && m.live && m.hasB) vp_assert(h.template GetPrevious<CompB>(lock) == m.b, "previous value of B differs from the committed state");
    }
    vp_assert(lock.template Had<GlobG>() == w.hasG, "previous presence of global G differs from the committed state");
    vp_assert(lock.template Had<GlobH, GlobG>() == (w.hasG && w.hasH), "previous presence of both globals differs from the committed state");
    vp_assert(lock.template Had<GlobH>() == w.hasH, "previous presence of global H differs from the committed state");
    if (w.hasG) vp_assert(lock.template GetPrevious<GlobG>() == w.g, "previous value of global G differs from the committed state");
    if (w.hasH) vp_assert(lock.template GetPrevious<GlobH>() == w.h, "previous value of global H differs from the committed state");
    if (listings) {
        checkListing(lock.PreviousEntities(), w, [](const MEnt &) { return true; }, false, "previous entity listing is not exact");
        checkListing(lock.template PreviousEntitiesWith<CompA>(), w, [](const MEnt &m) { return m.hasA; }, false, "previous listing of A is not exact");
        checkListing(lock.template PreviousEntitiesWith<CompB>(), w, [](const MEnt &m) { return m.hasB; }, false, "previous listing of B is not exact");
    }
}

// An arbitrary handle
inline Ent symHandle(const char *i, const char *g) {
    Ent p;
    p.index = (TECS_ENTITY_INDEX_TYPE)vp_u32(i);
    p.generation = (TECS_ENTITY_GENERATION_TYPE)vp_u32(g);
    return p;
}
// Every one of the 2^64 handles: it exists exactly if it is a live handle, it has components exactly if that entity does.
template<typename L>
inline void probeHandles(const L &lock, const World &w) {
    const Ent p = symHandle("probeIndex", "probeGen");
    bool ex = false, a = false, b = false;
    for (unsigned k = 0; k < w.n; k++) {
        bool same = w.e[k].live & (w.e[k].h.index == p.index) & (w.e[k].h.generation == p.generation);
        ex |= same;
        a |= same & w.e[k].hasA;
        b |= same & w.e[k].hasB;
    }
    vp_assert(p.Exists(lock) == ex, "an arbitrary handle exists although it is no live entity (or vice versa)");
    vp_assert(p.template Has<CompA>(lock) == a, "an arbitrary handle has component A although it is no such entity (or vice versa)");
    vp_assert(p.template Has<CompB>(lock) == b, "an arbitrary handle has component B although it is no such entity (or vice versa)");
}
template<typename L>
inline void probePrevious(const L &lock, const World &w) {
    const Ent p = symHandle("probeIndex", "probeGen");
    bool ex = false, a = false;
    for (unsigned k = 0; k < w.n; k++) {
        bool same = w.e[k].live & (w.e[k].h.index == p.index) & (w.e[k].h.generation == p.generation);
        ex |= same;
        a |= same & w.e[k].hasA;
    }
    vp_assert(p.Existed(lock) == ex, "an arbitrary handle existed although it was no live entity (or vice versa)");
    vp_assert(p.template Had<CompA>(lock) == a, "an arbitrary handle had component A although it was no such entity (or vice versa)");
}

// Fresh symbolic values
inline CompA symA() { CompA a; a.x = vp_u32("ax"); a.y = vp_u64("ay"); return a; }
inline CompB symB() { CompB b; b.f = vp_u8("bf"); return b; }
inline GlobG symG() { GlobG g; g.g = vp_u32("gg"); return g; }
inline GlobH symH() { GlobH h; h.h = vp_u64("hh"); return h; }

// Choose one of the live entities (returns false if there is none)
inline bool pickLive(const World &w, unsigned &k) {
    unsigned idx[NENT], n = 0;
    for (unsigned i = 0; i < w.n; i++) if (w.e[i].live) idx[n++] = i;
    if (!n) return false;
    k = idx[n == 1 ? 0 : vp_choose("pick", n)];
    return true;
}

// VIA_LIST: entities are accessed through the elements of a listing instead of copies of their handles
template<typename L>
inline const Ent &ref(const L &lock, const World &w, unsigned k) {
#ifdef VIA_LIST
    auto find = [&](const Tecs::EntityView &v) -> const Ent & {
        for (const Ent &e : v) if (e == w.e[k].h) return e;
        return w.e[k].h;
    };
    switch (vp_choose("list", 3)) {
    case 0: return find(lock.Entities());
    case 1: return find(lock.template EntitiesWith<CompA>());
    default: return find(lock.template EntitiesWith<CompB>());
    }
#else
    (void)lock;
    return w.e[k].h;
#endif
}
template<typename L>
inline unsigned opNew(const L &lock, World &w) {
    Ent h = lock.NewEntity();
    vp_assert(!!h, "a created entity handle is null");
    for (unsigned i = 0; i < w.n; i++) vp_assert(w.e[i].h != h, "a created handle equals an earlier one");
    vp_assert(Tecs::IdentifierFromGeneration(h.generation) == lock.GetInstance().GetInstanceId(), "a created handle carries another instance identifier");
    w.e[w.n] = MEnt{};
    w.e[w.n].h = h;
    w.e[w.n].live = true;
    return w.n++;
}
template<typename L>
inline void opDestroy(const L &lock, World &w, unsigned k) {
#ifdef VIA_LIST
    ref(lock, w, k).Destroy(lock);
#else
    Ent h = w.e[k].h;
    h.Destroy(lock);
#endif
    w.e[k].live = w.e[k].hasA = w.e[k].hasB = false;
}

// One operation with AddRemove permission, chosen by a solver variable.
enum { OP_NEW = 1, OP_DESTROY = 2, OP_SETA = 4, OP_GETA = 8, OP_UNSETA = 16, OP_SETB = 32, OP_UNSETB = 64, OP_SETG = 128, OP_GETG = 256, OP_UNSETG = 512,
       OP_GETA_W = 1024, OP_NEWA = 2048, OP_GETB = 4096, OP_SETH = 8192, OP_UNSETAB = 16384, OP_REPLACE = 32768 };
#ifndef OPS
    #define OPS 0xffff
#endif
template<typename L>
inline void arOp(const L &lock, World &w, unsigned mask = OPS) {
    unsigned ops[16], n = 0, live = 0;
    for (unsigned i = 0; i < w.n; i++) live += w.e[i].live;
    for (unsigned b = 0; b < 16; b++) {
        unsigned o = 1u << b;
        if (!(mask & o)) continue;
        if ((o & (OP_NEW | OP_NEWA | OP_REPLACE)) && w.n >= NENT) continue;
        if ((o & (OP_DESTROY | OP_SETA | OP_GETA | OP_GETA_W | OP_UNSETA | OP_SETB | OP_UNSETB | OP_GETB | OP_UNSETAB | OP_REPLACE)) && !live) continue;
        if ((o & OP_UNSETG) && !w.hasG && !(mask & 0x10000)) continue;
        ops[n++] = o;
    }
    unsigned op = ops[vp_choose("op", n)], k = 0;
    switch (op) {
    case OP_NEW: opNew(lock, w); break;
    case OP_NEWA: { k = opNew(lock, w); CompA v = symA(); w.e[k].h.template Set<CompA>(lock, v); w.e[k].hasA = true; w.e[k].a = v; break; }
    case OP_DESTROY: pickLive(w, k); opDestroy(lock, w, k); break;
    case OP_REPLACE: pickLive(w, k); opDestroy(lock, w, k); opNew(lock, w); break;
    case OP_SETA: { pickLive(w, k); CompA v = symA(); CompA &r = ref(lock, w, k).template Set<CompA>(lock, v); vp_assert(r == v, "Set returns something else than the new value"); r.y = ++v.y; w.e[k].hasA = true; w.e[k].a = v; break; }
    case OP_SETB: { pickLive(w, k); uint8_t v = vp_u8("bv"); CompB &r = ref(lock, w, k).template Set<CompB>(lock, CompB{v}); vp_assert(r.f == v, "Set returns something else than the new value"); r.f = ++v; w.e[k].hasB = true; w.e[k].b = CompB{v}; break; }
    case OP_GETA: { // a mutable reference creates the component with its default value
        pickLive(w, k);
        CompA &r = ref(lock, w, k).template Get<CompA>(lock);
        if (!w.e[k].hasA) { w.e[k].hasA = true; w.e[k].a = CompA(); }
        vp_assert(r == w.e[k].a, "value seen by Get differs from the history");
        break;
    }
    case OP_GETA_W: {
        pickLive(w, k);
        CompA &r = ref(lock, w, k).template Get<CompA>(lock);
        if (!w.e[k].hasA) { w.e[k].hasA = true; w.e[k].a = CompA(); }
        uint32_t v = vp_u32("aw");
        r.x = v;
        w.e[k].a.x = v;
        break;
    }
    case OP_GETB: {
        pickLive(w, k);
        CompB &r = ref(lock, w, k).template Get<CompB>(lock);
        if (!w.e[k].hasB) { w.e[k].hasB = true; w.e[k].b = CompB(); }
        vp_assert(r == w.e[k].b, "value seen by Get differs from the history");
        break;
    }
    case OP_UNSETA: pickLive(w, k); ref(lock, w, k).template Unset<CompA>(lock); w.e[k].hasA = false; break;
    case OP_UNSETB: pickLive(w, k); ref(lock, w, k).template Unset<CompB>(lock); w.e[k].hasB = false; break;
    case OP_UNSETAB: pickLive(w, k); ref(lock, w, k).template Unset<CompA, CompB>(lock); w.e[k].hasA = w.e[k].hasB = false; break;
    case OP_SETG: { GlobG v = symG(); GlobG &r = lock.template Set<GlobG>(v); vp_assert(r == v, "Set returns something else than the new value"); r.g = ++v.g; w.hasG = true; w.g = v; break; }
    case OP_SETH: { uint64_t v = vp_u64("hv"); GlobH &r = lock.template Set<GlobH>(GlobH{v}); vp_assert(r.h == v, "Set returns something else than the new value"); r.h = ++v; w.hasH = true; w.h = GlobH{v}; break; }
    case OP_GETG: {
        GlobG &r = lock.template Get<GlobG>();
        if (!w.hasG) { w.hasG = true; w.g = GlobG(); }
        vp_assert(r == w.g, "value seen by Get on a global differs from the history");
        break;
    }
    case OP_UNSETG: lock.template Unset<GlobG>(); w.hasG = false; break;
    }
}
// One operation with write permission only
template<typename L>
inline void wOp(const L &lock, World &w) {
    unsigned ops[6], n = 0;
    unsigned ka[NENT], na = 0, kb[NENT], nb = 0;
    for (unsigned i = 0; i < w.n; i++) {
        if (w.e[i].live && w.e[i].hasA) ka[na++] = i;
        if (w.e[i].live && w.e[i].hasB) kb[nb++] = i;
    }
    if (na) { ops[n++] = 0; ops[n++] = 1; }
    if (nb) ops[n++] = 2;
    if (w.hasG) { ops[n++] = 3; ops[n++] = 4; }
    if (!n) return;
    switch (ops[n == 1 ? 0 : vp_choose("wop", n)]) {
    case 0: { unsigned k = ka[na == 1 ? 0 : vp_choose("pick", na)]; CompA v = symA(); w.e[k].h.template Set<CompA>(lock, v); w.e[k].a = v; break; }
    case 1: { unsigned k = ka[na == 1 ? 0 : vp_choose("pick", na)]; uint32_t v = vp_u32("aw"); w.e[k].h.template Get<CompA>(lock).x = v; w.e[k].a.x = v; break; }
    case 2: { unsigned k = kb[nb == 1 ? 0 : vp_choose("pick", nb)]; uint8_t v = vp_u8("bw"); w.e[k].h.template Set<CompB>(lock, CompB{v}); w.e[k].b = CompB{v}; break; }
    case 3: { GlobG v = symG(); lock.template Set<GlobG>(v); w.g = v; break; }
    case 4: { uint32_t v = vp_u32("gw"); lock.template Get<GlobG>().g = v; w.g.g = v; break; }
    }
}

// One of several start populations, committed by a transaction of its own
inline void populate(Ecs &ecs, World &w, unsigned pop) {
    auto lock = ecs.StartTransaction<Tecs::AddRemove>();
    switch (pop) {
    case 0: break;
    case 1: { unsigned k = opNew(lock, w); w.e[k].h.Set<CompA>(lock, w.e[k].a = symA()); w.e[k].hasA = true; break; }
    case 2: { // A / B / nothing, global G
        unsigned k = opNew(lock, w); w.e[k].h.Set<CompA>(lock, w.e[k].a = symA()); w.e[k].hasA = true;
        k = opNew(lock, w); w.e[k].h.Set<CompB>(lock, w.e[k].b = symB()); w.e[k].hasB = true;
        lock.Set<GlobG>(w.g = symG()); w.hasG = true;
        break;
    }
    case 3: { // both components, no component, both globals
        unsigned k = opNew(lock, w);
        w.e[k].h.Set<CompA>(lock, w.e[k].a = symA()); w.e[k].hasA = true;
        w.e[k].h.Set<CompB>(lock, w.e[k].b = symB()); w.e[k].hasB = true;
        opNew(lock, w);
        lock.Set<GlobG>(w.g = symG()); w.hasG = true;
        lock.Set<GlobH>(w.h = symH()); w.hasH = true;
        break;
    }
    }
}
