// C05: listings are exact and duplicate free; a listing taken earlier keeps its size and handles except that removed ones become null.
#include "hist.h"
#ifndef NOPS
    #define NOPS 3
#endif
#ifndef OPSET
    #define OPSET (OP_NEW | OP_NEWA | OP_DESTROY | OP_SETA | OP_GETA | OP_UNSETA | OP_SETB | OP_UNSETB)
#endif
static Ecs ecs;
#ifndef MAXL
    #define MAXL 14
#endif
struct Taken { // a listing and what it held when it was taken
    Tecs::EntityView v;
    unsigned n = 0;
    Ent held[MAXL];
    int kind = 0;
    bool gone[NENT] = {}; // removed since
};
static void take(Taken &t, const Tecs::EntityView &v, int kind) {
    t.v = v;
    t.kind = kind;
    t.n = 0;
    for (unsigned k = 0; k < NENT; k++) t.gone[k] = false;
    for (const Ent &x : v) {
        if (t.n < MAXL) t.held[t.n++] = x;
    }
    vp_assert(t.n == v.size(), "size of a listing differs from the number of its elements");
}
static bool member(const World &w, unsigned k, int kind) {
    return k < w.n && w.e[k].live && (kind == 0 || (kind == 1 ? w.e[k].hasA : w.e[k].hasB));
}
static void recheck(Taken &t, const World &w) {
    for (unsigned k = 0; k < w.n; k++) if (!member(w, k, t.kind)) t.gone[k] = true;
    vp_assert(t.v.size() == t.n, "a listing changed its size");
    unsigned i = 0;
    for (const Ent &x : t.v) {
        Ent was = t.held[i++];
        bool removed = false;
        if (was) for (unsigned k = 0; k < w.n; k++) if (w.e[k].h == was) removed = t.gone[k];
        if (!was || removed) vp_assert(!x, "the entry of a removed entity did not become null");
        else vp_assert(x == was, "an entry of a listing taken earlier changed");
    }
}
template<typename L>
static void exact(const L &lock, const World &w, bool nulls) {
    checkListing(lock.Entities(), w, [](const MEnt &) { return true; }, nulls, "entity listing is not exact");
    checkListing(lock.template EntitiesWith<CompA>(), w, [](const MEnt &m) { return m.hasA; }, nulls, "listing of A is not exact");
    checkListing(lock.template EntitiesWith<CompB>(), w, [](const MEnt &m) { return m.hasB; }, nulls, "listing of B is not exact");
}
template<typename L>
static void previous(const L &lock, const World &w) {
    checkListing(lock.PreviousEntities(), w, [](const MEnt &) { return true; }, false, "previous entity listing is not exact");
    checkListing(lock.template PreviousEntitiesWith<CompA>(), w, [](const MEnt &m) { return m.hasA; }, false, "previous listing of A is not exact");
    checkListing(lock.template PreviousEntitiesWith<CompB>(), w, [](const MEnt &m) { return m.hasB; }, false, "previous listing of B is not exact");
}
static Taken taken[3 * (NOPS + 1)];
void vp_main() {
    World w;
    populate(ecs, w, vp_choose("pop", 4));
    for (int tx = 0; tx < 2; tx++) {
        const World start = w;
        {
            auto lock = ecs.StartTransaction<Tecs::AddRemove>();
            exact(lock, w, false);
            unsigned nt = 0;
            const int nops = tx == 0 ? NOPS : 1;
            for (int i = 0; i <= nops; i++) {
                take(taken[nt++], lock.Entities(), 0);
                take(taken[nt++], lock.EntitiesWith<CompA>(), 1);
                take(taken[nt++], lock.EntitiesWith<CompB>(), 2);
                if (i == nops) break;
                arOp(lock, w, OPSET);
                for (unsigned j = 0; j < nt; j++) recheck(taken[j], w);
                exact(lock, w, true);
                previous(lock, start);
            }
        }
        {
            auto lock = ecs.StartTransaction<Tecs::ReadAll>();
            exact(lock, w, false);
            previous(lock, w);
        }
    }
    { // a transaction that only writes values
        auto lock = ecs.StartTransaction<Tecs::WriteAll>();
        exact(lock, w, false);
        wOp(lock, w);
        exact(lock, w, false);
    }
    {
        auto lock = ecs.StartTransaction<Tecs::AddRemove>();
        exact(lock, w, false);
        previous(lock, w);
    }
    vp_reach("end");
}
