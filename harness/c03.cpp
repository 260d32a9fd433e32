// C03: handles are unique; a stale handle never becomes valid again; operations on one entity leave the others alone.
// Any history of NH actions: create, destroy one, commit.
#include "hist.h"
#ifndef NH
    #define NH 7
#endif
#ifndef NECS
    #define NECS 1      // instance used is the NECS-th created (identifier NECS)
#endif
#include <new>
alignas(Ecs) static unsigned char mem[sizeof(Ecs)];
static Ecs *make() {
    unsigned n = NECS > 1 ? 1 + vp_choose("instance", NECS) : 1;
    Ecs *e = nullptr;
    for (unsigned i = 0; i < n; i++) {
        if (e) e->~Ecs();
        e = new (mem) Ecs();
    }
    return e;
}
template<typename L>
static void unique(const L &lock, const World &w) {
    for (unsigned k = 0; k < w.n; k++) {
        const MEnt &m = w.e[k];
        vp_assert(m.h.Exists(lock) == m.live, "a handle exists although its entity was destroyed (or vice versa)");
        vp_assert(m.h.template Has<CompA>(lock) == (m.live && m.hasA), "a stale or other handle has a component (or vice versa)");
        if (m.live && m.hasA) vp_assert(m.h.template Get<const CompA>(lock) == m.a, "an operation on one entity changed another");
    }
}
void vp_main() {
    Ecs *ecs = make();
    World w;
    unsigned done = 0;
    while (done < NH) {
        auto lock = ecs->StartTransaction<Tecs::AddRemove>();
        unique(lock, w);
        bool any = false;
        while (done < NH) {
            unsigned live = 0;
            for (unsigned i = 0; i < w.n; i++) live += w.e[i].live;
            unsigned ops[3], n = 0, k;
            if (w.n < NENT) ops[n++] = 0;
            if (live) ops[n++] = 1;
            if (any) ops[n++] = 2;
            if (!n) { done = NH; break; }
            unsigned op = ops[n == 1 ? 0 : vp_choose("op", n)];
            done++;
            if (op == 2) break;
            any = true;
            if (op == 0) {
                k = opNew(lock, w);
                w.e[k].h.Set<CompA>(lock, w.e[k].a = symA());
                w.e[k].hasA = true;
            } else {
                pickLive(w, k);
                opDestroy(lock, w, k);
            }
            unique(lock, w);
        }
    }
    auto lock = ecs->StartTransaction<Tecs::ReadAll>();
    unique(lock, w);
    probeHandles(lock, w);
    vp_assert(w.n == 0 || Tecs::IdentifierFromGeneration(w.e[0].h.generation) == ecs->GetInstanceId(), "handle carries another instance identifier");
    vp_reach("end");
}
