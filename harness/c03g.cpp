// C03: any generation a slot may have reached.  Two slots are cycled to a distinctive generation, which the engine then replaces by a symbolic
// one in every copy the ECS holds; natively the slots are cycled that many times.
#include "hist.h"
static Ecs ecs;
static constexpr unsigned G0 = 5;
static Ent h[2];
static void cycle() {
    { auto lock = ecs.StartTransaction<Tecs::AddRemove>(); h[0] = lock.NewEntity(); h[1] = lock.NewEntity(); }
    { auto lock = ecs.StartTransaction<Tecs::AddRemove>(); Ent(h[0]).Destroy(lock); Ent(h[1]).Destroy(lock); }
}
void vp_main() {
    World w;
    const unsigned gen = vp_range("generation", G0, (1u << 24) - 8);    // generation of the destroyed entities
    const unsigned loops = vp_symbolic() ? G0 : gen;
    for (unsigned i = 0; i < loops; i++) cycle();
    const uint32_t id = (uint32_t)ecs.GetInstanceId() << 24;
    vp_assert(Tecs::GenerationWithoutIdentifier(h[0].generation) == loops, "generation does not count the reuses");
    if (vp_symbolic()) {
        vp_replace32(id | (G0 + 1), id | (gen + 1)); // next generations on the free list
        vp_replace32(id | G0, id | gen);
        h[0].generation = h[1].generation = id | gen;
    }
    for (int i = 0; i < 2; i++) { w.e[w.n].h = h[i]; w.n++; }
    // one slot or both live again
    {
        auto lock = ecs.StartTransaction<Tecs::AddRemove>();
        unsigned n = 1 + vp_choose("count", 2);
        for (unsigned i = 0; i < n; i++) {
            unsigned k = opNew(lock, w);
            w.e[k].h.Set<CompA>(lock, w.e[k].a = symA());
            w.e[k].hasA = true;
        }
        probeHandles(lock, w);
    }
    {
        auto lock = ecs.StartTransaction<Tecs::AddRemove>();
        checkCurrent(lock, w, true, false, "");
        unsigned k;
        pickLive(w, k);
        if (vp_choose("destroy", 2)) opDestroy(lock, w, k);
        checkCurrent(lock, w, true, true, "");
    }
    {
        auto lock = ecs.StartTransaction<Tecs::AddRemove>();
        checkCurrent(lock, w, true, false, "");
        opNew(lock, w);
        opNew(lock, w);
        checkCurrent(lock, w, true, true, "");
    }
    auto lock = ecs.StartTransaction<Tecs::ReadAll>();
    checkCurrent(lock, w, true, false, "");
    probeHandles(lock, w);
    vp_reach("end");
}
