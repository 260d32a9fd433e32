// Histories over many entities: storage that grows several times, lists longer than a word of bits, sparse and dense storage.
// CHK selects what is compared: 1 committed state (C01), 2 both views inside a transaction (C02), 4 handles (C03), 8 listings (C05),
// 16 events (C06), 32 two observers, one of them polled late (C07)
#include "vp.h"
#include <Tecs.hh>
#ifndef NENTS
    #define NENTS 70
#endif
#ifndef CHK
    #define CHK 63
#endif
#ifndef NTX
    #define NTX 2
#endif
#ifndef PATTERNS
    #define PATTERNS 3
#endif
struct CompA {
    uint32_t x = 11;
    bool operator==(const CompA &o) const { return x == o.x; }
};
struct CompB {
    uint64_t y = 22;
    CompB() {}
    CompB(const CompB &o) : y(o.y) {}
    CompB &operator=(const CompB &o) { y = o.y; return *this; }
    bool operator==(const CompB &o) const { return y == o.y; }
};
using Ecs = Tecs::ECS<CompA, CompB>;
using Ent = Tecs::Entity;
using EvE = Tecs::EntityEvent;
using EvA = Tecs::ComponentEvent<CompA>;
enum { MAXN = NENTS * 2 + 16, MAXI = MAXN + 2100 };
struct M { Ent h; bool live, a, b; CompA va; CompB vb; };
struct World { M m[MAXN]; unsigned n = 0; };
static World w, was;
static short byIndex[MAXI];
static Ecs ecs;

static unsigned create(Tecs::Lock<Ecs, Tecs::AddRemove> lock) {
    Ent h = lock.NewEntity();
    vp_assert(!!h && h.index < MAXI, "a created handle is null or has an unreasonable index");
#if CHK & 4
    bool fresh = true;
    for (unsigned i = 0; i < w.n; i++) fresh &= w.m[i].h != h;
    vp_assert(fresh, "a created handle equals an earlier one");
    short o = byIndex[h.index];
    vp_assert(o < 0 || !w.m[o].live, "a created handle uses the slot of an entity that exists");
#endif
    byIndex[h.index] = (short)w.n;
    M &m = w.m[w.n];
    m.h = h;
    m.live = true; m.a = m.b = false;
    return w.n++;
}
// is the i-th of n existing entities part of the chosen set?
static bool inSet(unsigned set, unsigned i, unsigned n) {
    switch (set) {
    case 0: return true;
    case 1: return i % 2 == 0;
    case 2: return i + 1 == n;
    case 3: return i < n / 2;
    default: return i >= n / 2 && i % 3 == 0;
    }
}
static int numberOf(const Ent &h) { return h.index < MAXI && byIndex[h.index] >= 0 && w.m[byIndex[h.index]].h == h ? byIndex[h.index] : -1; }
template<typename F> static void listing(const Tecs::EntityView &v, const World &s, F member, bool nulls, const char *msg) {
    static unsigned char seen[MAXN];
    for (unsigned i = 0; i < w.n; i++) seen[i] = 0;
    bool ok = true;
    for (const Ent &h : v) {
        if (!h) { ok &= nulls; continue; }
        int k = -1;
        for (int i = h.index < MAXI ? byIndex[h.index] : -1; i >= 0; i--) if (s.m[i].h == h) { k = i; break; }
        ok &= k >= 0 && k < (int)s.n && s.m[k].live && member(s.m[k]) && !seen[k];
        if (k >= 0) seen[k] = 1;
    }
    for (unsigned i = 0; i < s.n; i++) if (s.m[i].live && member(s.m[i])) ok &= seen[i];
    vp_assert(ok, msg);
}
template<typename L> static void listings(const L &lock, bool nulls) {
    listing(lock.Entities(), w, [](const M &) { return true; }, nulls, "listing of all entities is not exact");
    listing(lock.template EntitiesWith<CompA>(), w, [](const M &m) { return m.a; }, nulls, "listing of A is not exact");
    listing(lock.template EntitiesWith<CompB>(), w, [](const M &m) { return m.b; }, nulls, "listing of B is not exact");
}
template<typename L> static void current(const L &lock) {
    bool ex = true, has = true, val = true;
    for (unsigned i = 0; i < w.n; i++) {
        const M &m = w.m[i];
        bool e = m.h.Exists(lock);
        ex &= e == m.live;
        bool a = m.h.template Has<CompA>(lock), b = m.h.template Has<CompB>(lock);
        has &= a == (m.live && m.a) && b == (m.live && m.b);
        if (m.live && m.a && a) val &= m.h.template Get<const CompA>(lock) == m.va;
        if (m.live && m.b && b) val &= m.h.template Get<const CompB>(lock) == m.vb;
    }
    vp_assert(ex, "existence of an entity differs from the history");
    vp_assert(has, "component set of an entity differs from the history");
    vp_assert(val, "component value differs from the history");
}
template<typename L> static void previous(const L &lock) {
    bool ex = true, had = true, val = true;
    for (unsigned i = 0; i < w.n; i++) {
        const Ent h = w.m[i].h;
        const M m = i < was.n ? was.m[i] : M{h, false, false, false, {}, {}};
        ex &= h.Existed(lock) == m.live;
        bool a = h.template Had<CompA>(lock), b = h.template Had<CompB>(lock);
        had &= a == (m.live && m.a) && b == (m.live && m.b);
        if (m.live && m.a && a) val &= h.template GetPrevious<CompA>(lock) == m.va;
        if (m.live && m.b && b) val &= h.template GetPrevious<CompB>(lock) == m.vb;
    }
    vp_assert(ex, "previous existence of an entity differs from the committed state");
    vp_assert(had, "previous component set of an entity differs from the committed state");
    vp_assert(val, "previous component value differs from the committed state");
}
#if CHK & 48
struct Seen { uint8_t t; Ent h; CompA a; };
static Seen logE[2][4 * MAXN], logA[2][4 * MAXN];
static unsigned nE[2], nA[2];
static Tecs::Observer<Ecs, EvE> obE[2];
static Tecs::Observer<Ecs, EvA> obA[2];
static void drain(int o) {
    auto lock = ecs.StartTransaction<>();
    EvE e; EvA a;
    while (obE[o].Poll(lock, e)) { vp_assert(nE[o] < 4 * MAXN, "too many events"); logE[o][nE[o]++] = {(uint8_t)e.type, e.entity, CompA()}; }
    while (obA[o].Poll(lock, a)) { vp_assert(nA[o] < 4 * MAXN, "too many events"); logA[o][nA[o]++] = {(uint8_t)a.type, a.entity, a.component}; }
}
static void events(unsigned fromE, unsigned fromA) { // events of the last commit against the change from was to w
    static unsigned char add[MAXN], rem[MAXN];
    for (unsigned i = 0; i < w.n; i++) add[i] = rem[i] = 0;
    bool ok = true, val = true;
    for (unsigned j = fromE; j < nE[0]; j++) {
        const Seen &s = logE[0][j];
        int k = -1;
        for (int i = s.h.index < MAXI ? byIndex[s.h.index] : -1; i >= 0; i--) if (w.m[i].h == s.h) { k = i; break; }
        ok &= k >= 0;
        if (k >= 0) (s.t == (uint8_t)Tecs::EventType::ADDED ? add : rem)[k]++;
    }
    for (unsigned i = 0; i < w.n; i++) {
        bool a = i < was.n && was.m[i].live, b = w.m[i].live;
        ok &= add[i] == (b && !a) && rem[i] == (a && !b);
    }
    vp_assert(ok, "entity events are not the net changes of the commit");
    for (unsigned i = 0; i < w.n; i++) add[i] = rem[i] = 0;
    ok = true;
    for (unsigned j = fromA; j < nA[0]; j++) {
        const Seen &s = logA[0][j];
        int k = -1;
        for (int i = s.h.index < MAXI ? byIndex[s.h.index] : -1; i >= 0; i--) if (w.m[i].h == s.h) { k = i; break; }
        ok &= k >= 0;
        if (k < 0) continue;
        bool added = s.t == (uint8_t)Tecs::EventType::ADDED;
        (added ? add : rem)[k]++;
        val &= s.a == (added ? w.m[k].va : was.m[k].va);
    }
    for (unsigned i = 0; i < w.n; i++) {
        bool a = i < was.n && was.m[i].live && was.m[i].a, b = w.m[i].live && w.m[i].a;
        ok &= add[i] == (b && !a) && rem[i] == (a && !b);
    }
    vp_assert(ok, "component events are not the net changes of the commit");
    vp_assert(val, "a component event carries another value");
}
#endif

static void change(Tecs::Lock<Ecs, Tecs::AddRemove> lock, unsigned op, unsigned set) {
    unsigned live = 0, i = 0, total = w.n, again = 0;
    for (unsigned k = 0; k < total; k++) live += w.m[k].live;
    CompA va; va.x = vp_u32("va");
    CompB vb; vb.y = vp_u64("vb");
    for (unsigned k = 0; k < total; k++) {
        M &m = w.m[k];
        if (!m.live || !inSet(set, i++, live)) continue;
        CompA v; v.x = va.x + k;
        CompB u; u.y = vb.y ^ k;
        switch (op) {
        case 0: case 1: { Ent h = m.h; h.Destroy(lock); m.live = m.a = m.b = false; again++; break; }
        case 2: if (m.a) { m.h.Unset<CompA>(lock); m.a = false; } else { m.h.Set<CompA>(lock, v); m.a = true; m.va = v; } break;
        case 3: m.h.Set<CompB>(lock, u); m.b = true; m.vb = u; break;
        case 4: m.h.Get<CompA>(lock).x = v.x; m.a = true; m.va = v; break; // created by the access if it was missing
        }
    }
    if (op == 1) for (unsigned j = 0; j < again && w.n < MAXN; j++) {
        unsigned k = create(lock);
        CompA v; v.x = va.x - k;
        w.m[k].h.Set<CompA>(lock, v); w.m[k].a = true; w.m[k].va = v;
    }
    if (op == 5) for (unsigned j = 0; j < (set == 0 ? NENTS / 2 : set == 1 ? 5u : 1u) && w.n < MAXN; j++) create(lock);
}
void vp_main() {
    for (auto &x : byIndex) x = -1;
#if CHK & 48
    {
        auto lock = ecs.StartTransaction<Tecs::AddRemove>();
        for (int o = 0; o < 2; o++) { obE[o] = lock.Watch<EvE>(); obA[o] = lock.Watch<EvA>(); }
    }
#endif
    unsigned pattern = vp_choose("pattern", PATTERNS);
    for (unsigned tx = 0; tx <= NTX; tx++) {
        unsigned op = tx ? vp_choose("op", 7) : 8, set = tx ? vp_choose("set", 4) : 0;
        if (op == 5 && set == 3) vp_stop();
        was = w;
        if (op == 6) { // write permission only
            auto lock = ecs.StartTransaction<Tecs::Write<CompA>, Tecs::Read<CompB>>();
            CompA base; base.x = vp_u32("wa");
            unsigned i = 0, n = 0;
            for (unsigned k = 0; k < w.n; k++) n += w.m[k].live && w.m[k].a;
            for (unsigned k = 0; k < w.n; k++) {
                M &m = w.m[k];
                if (!m.live || !m.a || !inSet(set, i++, n)) continue;
                m.va.x = base.x + k;
                if (k % 2) m.h.Set<CompA>(lock, m.va); else m.h.Get<CompA>(lock).x = m.va.x;
            }
#if CHK & 2
            current(lock); previous(lock);
#endif
#if CHK & 8
            listings(lock, false);
#endif
        } else {
            auto lock = ecs.StartTransaction<Tecs::AddRemove>();
#if CHK & 8
            const auto before = lock.Entities(), beforeA = lock.EntitiesWith<CompA>();
            static Ent copy[MAXN], copyA[MAXN];
            unsigned nb = 0, na = 0;
            for (const Ent &h : before) copy[nb++] = h;
            for (const Ent &h : beforeA) copyA[na++] = h;
#endif
            if (tx == 0) {
                CompA va; va.x = vp_u32("a0");
                CompB vb; vb.y = vp_u64("b0");
                for (unsigned i = 0; i < NENTS; i++) {
                    unsigned k = create(lock);
                    M &m = w.m[k];
                    // 0: all have A, every fourth B; 1: the last few have A, none B; 2: the first half A, the others B
                    if (pattern == 0 || (pattern == 1 && i + 6 > NENTS) || (pattern == 2 && i < NENTS / 2)) { m.va.x = va.x + i; m.a = true; m.h.Set<CompA>(lock, m.va); }
                    if ((pattern == 0 && i % 4 == 0) || (pattern == 2 && i >= NENTS / 2)) { m.vb.y = vb.y + i; m.b = true; m.h.Set<CompB>(lock, m.vb); }
                }
            } else change(lock, op, set);
#if CHK & 2
            current(lock); previous(lock);
#endif
#if CHK & 8
            vp_assert(before.size() == nb && beforeA.size() == na, "a listing taken earlier changed its size");
            bool ok = true;
            unsigned i = 0;
            for (const Ent &h : before) { int k = numberOf(copy[i]); ok &= h == copy[i] || (!h && !(k >= 0 && w.m[k].live)); i++; }
            i = 0;
            for (const Ent &h : beforeA) { int k = numberOf(copyA[i]); ok &= h == copyA[i] || (!h && !(k >= 0 && w.m[k].live && w.m[k].a)); i++; }
            vp_assert(ok, "a listing taken earlier holds other handles");
            listings(lock, true);
            listing(lock.PreviousEntities(), was, [](const M &) { return true; }, false, "previous listing of all entities is not exact");
            listing(lock.PreviousEntitiesWith<CompA>(), was, [](const M &m) { return m.a; }, false, "previous listing of A is not exact");
#endif
        }
#if CHK & (1 | 8)
        {
            auto lock = ecs.StartTransaction<Tecs::ReadAll>();
    #if CHK & 1
            current(lock);
    #endif
    #if CHK & 8
            listings(lock, false);
    #endif
        }
#endif
#if CHK & 48
        unsigned fe = nE[0], fa = nA[0];
        drain(0);
    #if CHK & 16
        events(fe, fa);
    #endif
        (void)fe; (void)fa;
#endif
    }
#if CHK & 1
    { auto lock = ecs.StartTransaction<Tecs::AddRemove>(); current(lock); }
#endif
#if CHK & 32
    drain(1);
    vp_assert(nE[0] == nE[1] && nA[0] == nA[1], "two observers got different numbers of events");
    bool ok = true;
    for (unsigned i = 0; i < nE[0]; i++) ok &= logE[0][i].t == logE[1][i].t && logE[0][i].h == logE[1][i].h;
    for (unsigned i = 0; i < nA[0]; i++) ok &= logA[0][i].t == logA[1][i].t && logA[0][i].h == logA[1][i].h && logA[0][i].a == logA[1][i].a;
    vp_assert(ok, "two observers got different events");
#endif
    vp_reach("end");
}
