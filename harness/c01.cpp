// C01: committed state equals the reference model after any history.
#include "hist.h"
#ifndef TXS
    #define TXS {2, 1}          // operations per transaction
#endif
#ifndef NPOP
    #define NPOP 4
#endif
#ifndef OPS0
    #define OPS0 OPS
#endif
#ifndef OPSN
    #define OPSN OPS
#endif
#ifndef FIRSTKIND
    #define FIRSTKIND 0
#endif
#ifndef KINDS
    #define KINDS 3
#endif
static Ecs ecs;
template<typename L>
static void writes(const L &lock, World &w, int n) {
    checkCurrent(lock, w, true, false, "");
    for (int i = 0; i < n; i++) wOp(lock, w);
}
void vp_main() {
    World w;
    populate(ecs, w, vp_choose("pop", NPOP));
    static const int txs[] = TXS;
    bool first = true;
    for (int n : txs) {
        unsigned kind = first && !FIRSTKIND ? 0 : vp_choose("kind", KINDS);
        if (kind == 0) {
            auto lock = ecs.StartTransaction<Tecs::AddRemove>();
            if (!first) checkCurrent(lock, w, true, false, "");
            for (int i = 0; i < n; i++) arOp(lock, w, first ? OPS0 : OPSN);
        } else if (kind == 1) {
            auto lock = ecs.StartTransaction<Tecs::WriteAll>();
            writes(lock, w, n);
        } else { // write permission for part of the components only
            auto lock = ecs.StartTransaction<Tecs::Write<CompA, GlobH>, Tecs::Read<CompB, GlobG>>();
            checkCurrent(lock, w, true, false, "");
            unsigned k;
            if (pickLive(w, k) && w.e[k].hasA) { CompA v = symA(); w.e[k].h.Set<CompA>(lock, v); w.e[k].a = v; }
            if (w.hasH) { GlobH v = symH(); lock.Set<GlobH>(v); w.h = v; }
        }
        {
            auto lock = ecs.StartTransaction<Tecs::ReadAll>();
            checkCurrent(lock, w, true, false, "");
            checkPrevious(lock, w, w.n, nullptr, false);
        }
        first = false;
    }
    {
        auto lock = ecs.StartTransaction<Tecs::AddRemove>();
        checkCurrent(lock, w, true, false, "");
#ifdef PROBE
        probeHandles(lock, w);
#endif
    }
    vp_reach("end");
}
