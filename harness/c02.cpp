// C02: inside a transaction the current view follows its own operations, the previous view stays the start state.
#include "hist.h"
#ifndef NOPS
    #define NOPS 2
#endif
#ifndef PRE
    #define PRE 1   // operations of an earlier transaction
#endif
static Ecs ecs;
static Ent handles[NENT];
template<typename L>
static void views(const L &lock, const World &w, const World &prev) {
    for (unsigned k = 0; k < w.n; k++) handles[k] = w.e[k].h;
    checkCurrent(lock, w, true, true, "");
    checkPrevious(lock, prev, w.n, handles, true);
#ifndef TECS_UNCHECKED_MODE
    for (unsigned k = 0; k < w.n; k++) { // the previous view has no value for what did not exist then
        if (k < prev.n && prev.e[k].live && prev.e[k].hasA) continue;
        bool thrown = false;
        try { (void)w.e[k].h.template GetPrevious<CompA>(lock); } catch (...) { thrown = true; }
        vp_assert(thrown, "GetPrevious returned a value of a component that was not there at the start");
    }
#endif
}
void vp_main() {
    World w;
    populate(ecs, w, vp_choose("pop", 4));
    if (PRE) {
        auto lock = ecs.StartTransaction<Tecs::AddRemove>();
        for (int i = 0; i < PRE; i++) arOp(lock, w, OP_NEWA | OP_DESTROY | OP_SETA | OP_SETB | OP_UNSETA | OP_SETG | OP_UNSETG | 0x10000);
    }
    const World prev = w;
    unsigned kind = vp_choose("kind", 3);
    if (kind == 0) {
        auto lock = ecs.StartTransaction<Tecs::AddRemove>();
        views(lock, w, prev);
        for (int i = 0; i < NOPS; i++) {
            arOp(lock, w);
            views(lock, w, prev);
        }
#ifdef PROBE
        probeHandles(lock, w);
        probePrevious(lock, prev);
#endif
        auto ro = lock.ReadOnlySubset(); // a read-only subset shows the start state as its current view too
        checkCurrent(ro, prev, true, false, "");
        Tecs::Lock<Ecs, Tecs::ReadAll> rd = lock; // a plain conversion shows the pending changes
        checkCurrent(rd, w, true, true, "");
    } else if (kind == 1) {
        auto lock = ecs.StartTransaction<Tecs::WriteAll>();
        views(lock, w, prev);
        for (int i = 0; i < NOPS; i++) {
            wOp(lock, w);
            views(lock, w, prev);
        }
    } else {
        auto lock = ecs.StartTransaction<Tecs::ReadAll>();
        views(lock, w, prev);
    }
    vp_reach("end");
}
