// Identifiers of transactions and of ECS instances under concurrency (C10, C16): no two threads are given the same one.
#ifndef TECS_ENTITY_ALLOCATION_BATCH_SIZE
    #define TECS_ENTITY_ALLOCATION_BATCH_SIZE 2
#endif
#include "vp.h"
#include <Tecs.hh>
struct CA { uint64_t v = 0; };
using Ecs = Tecs::ECS<CA>;
using namespace Tecs;
extern "C" {
void vp_mark(const char *name);
void vp_shared(const void *p, uint64_t n);
void vp_out(uint64_t v);
void vp_park();
}
static Ecs both[2];
#define ecs both[0]
#define ecs2 both[1]
static Entity e1, e2, f1, f2;
static Observer<Ecs, ComponentEvent<CA>> o1, o2;
static Observer<Ecs, EntityEvent> p1, p2;
extern "C" void vp_setup() {
    vp_shared(both, sizeof(both));
    vp_shared(nullptr, 0); // and every global variable
    {
        auto l = ecs.StartTransaction<AddRemove>();
        e1 = l.NewEntity(); e1.Set<CA>(l).v = 1;
        e2 = l.NewEntity();
    }
    {
        auto l = ecs2.StartTransaction<AddRemove>();
        f1 = l.NewEntity(); f1.Set<CA>(l).v = 2;
        f2 = l.NewEntity();
    }
    for (Ecs *e : {&ecs, &ecs2}) {
        auto l = e->StartTransaction<AddRemove>();
        (e == &ecs ? o1 : o2) = l.Watch<ComponentEvent<CA>>();
        (e == &ecs ? p1 : p2) = l.Watch<EntityEvent>();
    }
}
#define T(name, ...) extern "C" void t_##name() { vp_mark("start"); __VA_ARGS__ vp_mark("done"); }
T(id_r, auto l = ecs.StartTransaction<Read<CA>>(); vp_out(l.GetTransactionId());)
T(id_r0, auto l = ecs.StartTransaction<>(); vp_out(l.GetTransactionId());)
T(id_w, auto l = ecs.StartTransaction<Write<CA>>(); vp_out(l.GetTransactionId());)
T(id_ar, auto l = ecs.StartTransaction<AddRemove>(); l.NewEntity(); vp_out(l.GetTransactionId());)
T(id_rr, { auto l = ecs.StartTransaction<Read<CA>>(); vp_out(l.GetTransactionId()); } { auto l = ecs.StartTransaction<Read<CA>>(); vp_out(l.GetTransactionId()); })
T(id_o, auto l = ecs2.StartTransaction<Read<CA>>(); vp_out(l.GetTransactionId());)
T(id_ow, auto l = ecs2.StartTransaction<Write<CA>>(); vp_out(l.GetTransactionId());)
// instances made on different threads
T(inst, static thread_local char mem[sizeof(Ecs)] __attribute__((aligned(16))); auto *x = new (mem) Ecs; vp_out(x->GetInstanceId()); x->~Ecs();)
T(inst2, { Ecs x; vp_out(x.GetInstanceId()); } { Ecs x; vp_out(x.GetInstanceId()); })
// transactions of both instances
#define B(name, inst, perms, ...) extern "C" void t_##name() { vp_mark("start"); { auto l = inst.StartTransaction<perms>(); vp_mark("begun"); __VA_ARGS__ vp_park(); vp_mark("release"); } vp_mark("done"); }
#define BOTH(p, inst, h, h2, o, w) \
    B(p##_ar, inst, AddRemove, auto e = l.NewEntity(); e.Set<CA>(l).v = 3;) \
    B(p##_set, inst, AddRemove, h2.Set<CA>(l).v = 4;) \
    B(p##_w, inst, Write<CA>, h.Get<CA>(l).v++;) \
    B(p##_r, inst, Read<CA>, uint64_t n = 0; for (auto &e : l.EntitiesWith<CA>()) n += e.Get<CA>(l).v; for (auto &e : l.Entities()) n += e.Exists(l);) \
    B(p##_poll, inst, , ComponentEvent<CA> e; EntityEvent f; while (o.Poll(l, e)) {} while (w.Poll(l, f)) {})
BOTH(m, ecs, e1, e2, o1, p1)
BOTH(o, ecs2, f1, f2, o2, p2)
