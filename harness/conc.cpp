// Thread functions for the concurrency checks (S01-S06).  Each t_* is the whole program of one thread; the engine
// explores every one of them symbolically on its own and lets the solver choose the interleaving.
#ifndef TECS_ENTITY_ALLOCATION_BATCH_SIZE
    #define TECS_ENTITY_ALLOCATION_BATCH_SIZE 4
#endif
#include "vp.h"
#include <Tecs.hh>

struct CA { uint64_t v = 0; };
struct CB { uint64_t v = 0; };
struct CG { uint64_t v = 0; };
namespace Tecs { template<> struct is_global_component<CG> : std::true_type {}; }
using Ecs = Tecs::ECS<CA, CB, CG>;
using namespace Tecs;

extern "C" {
void vp_mark(const char *name);                     // start, begun, release, done
void vp_park();                                     // the transaction may stay open here
void vp_shared(const void *p, uint64_t n);          // atomics in this range are the synchronization to be checked
void vp_check(int c, const char *msg);              // native replay only
}

static Ecs ecs;
static Entity e1, e2, e3;
static Observer<Ecs, EntityEvent> obsE;
static Observer<Ecs, ComponentEvent<CA>> obsA;
static Observer<Ecs, ComponentEvent<CG>> obsG;
#ifdef STOPS
static Observer<Ecs, ComponentEvent<CB>> obsB, obsB2;
#endif
static thread_local uint64_t sink[16];

extern "C" void vp_setup() {
    vp_shared(&ecs, sizeof(ecs));
    {
        auto l = ecs.StartTransaction<AddRemove>();
        e1 = l.NewEntity(); e1.Set<CA>(l).v = 1; e1.Set<CB>(l).v = 1;
        e2 = l.NewEntity(); e2.Set<CA>(l).v = 1;
        e3 = l.NewEntity();
        l.Set<CG>().v = 1;
        obsE = l.Watch<EntityEvent>();
        obsA = l.Watch<ComponentEvent<CA>>();
        obsG = l.Watch<ComponentEvent<CG>>();
#ifdef STOPS
        obsB2 = l.Watch<ComponentEvent<CB>>();
        obsB = l.Watch<ComponentEvent<CB>>();
#endif
    }
    // a second commit, so that both buffers and the queues have been in use
    {
        auto l = ecs.StartTransaction<AddRemove>();
        auto x = l.NewEntity(); x.Set<CA>(l).v = 1;
        Entity t = e3; t.Set<CB>(l).v = 1;
    }
    {
        auto l = ecs.StartTransaction<Write<CA, CB, CG>>();
        e1.Get<CA>(l).v = 1; e1.Get<CB>(l).v = 1; l.Get<CG>().v = 1;
    }
    {
        auto l = ecs.StartTransaction<Read<>>();
        EntityEvent e; obsE.Poll(l, e);
        ComponentEvent<CA> a; obsA.Poll(l, a);
    }
}

template<typename... P, typename F>
static inline void tx(F f) {
    vp_mark("start");
    {
        auto l = ecs.StartTransaction<P...>();
        vp_mark("begun");
        f(l);
        vp_park();
        vp_mark("release");
    }
    vp_mark("done");
}
#define RD(k, x) sink[k] += (x)
#define T(name, perm, ...) extern "C" void t_##name() { tx<perm>([](auto &l) { (void)l; __VA_ARGS__; }); }
#define P2(...) __VA_ARGS__

// readers
T(r0, Read<>, for (auto &e : l.Entities()) RD(0, e.index); RD(0, e1.Exists(l)); RD(0, e1.Has<CA>(l)); RD(0, e1.Had<CB>(l)); RD(0, l.template Has<CG>()))
T(rl, Read<>, for (auto &e : l.template EntitiesWith<CA>()) RD(1, e.index))
T(ra, Read<CA>, for (auto &e : l.template EntitiesWith<CA>()) RD(2, e.template Get<CA>(l).v))
T(rb, Read<CB>, for (auto &e : l.template EntitiesWith<CB>()) RD(3, e.template Get<CB>(l).v))
T(rab, P2(Read<CA, CB>), uint64_t a = e1.Get<CA>(l).v; uint64_t b = e1.Get<CB>(l).v; vp_check(a == b, "torn read of two components"); vp_check(a == e1.GetPrevious<CA>(l).v, "value changed inside the transaction"))
T(rg, Read<CG>, if (l.template Has<CG>()) RD(4, l.template Get<CG>().v))
T(rall, ReadAll, if (e1.Has<CA>(l) && e1.Has<CB>(l)) { uint64_t a = e1.Get<CA>(l).v; uint64_t b = e1.Get<CB>(l).v; vp_check(a == b, "torn read of two components"); } if (l.template Has<CG>()) RD(5, l.template Get<CG>().v); for (auto &e : l.Entities()) RD(5, e.index))
T(poll, Read<>, EntityEvent e; while (obsE.Poll(l, e)) RD(6, e.entity.index); ComponentEvent<CG> g; while (obsG.Poll(l, g)) RD(6, g.component.v))
T(polla, Read<>, ComponentEvent<CA> a; while (obsA.Poll(l, a)) RD(7, a.component.v))
// writers
T(wa, Write<CA>, e1.Get<CA>(l).v++; RD(8, e1.GetPrevious<CA>(l).v))
T(wb, Write<CB>, e1.Get<CB>(l).v++)
T(wab, P2(Write<CA, CB>), e1.Get<CA>(l).v++; e1.Get<CB>(l).v++)
T(wab_b, P2(Write<CA, CB>), e1.Get<CB>(l).v++)
T(wa_n, Write<CA>, RD(9, e1.Get<const CA>(l).v))
T(wa_rb, P2(Write<CA>, Read<CB>), e1.Get<CA>(l).v = e1.Get<CB>(l).v)
T(wb_ra, P2(Write<CB>, Read<CA>), e1.Get<CB>(l).v = e1.Get<CA>(l).v)
T(wg, Write<CG>, l.template Get<CG>().v++)
T(wall, WriteAll, e1.Get<CA>(l).v++; e1.Get<CB>(l).v++; l.template Get<CG>().v++)
T(wl, Write<CA>, for (auto &e : l.template EntitiesWith<CA>()) e.template Get<CA>(l).v++)
// add/remove
T(ar_new, AddRemove, auto e = l.NewEntity(); e.template Set<CA>(l).v = 1)
T(ar_newb, AddRemove, auto e = l.NewEntity(); e.template Set<CA>(l).v = 1; e.template Set<CB>(l).v = 1; l.NewEntity(); l.NewEntity())
T(ar_del, AddRemove, Entity(e2).Destroy(l))
T(ar_unset, AddRemove, e1.Unset<CA>(l); e1.Unset<CB>(l))
T(ar_set, AddRemove, e1.Set<CA>(l).v = 5)
T(ar_ab, AddRemove, e1.Get<CA>(l).v++; e1.Get<CB>(l).v++; l.NewEntity())
T(ar_n, AddRemove, RD(10, e1.Get<const CA>(l).v))
T(ar_g, AddRemove, l.template Unset<CG>())
T(ar_e, AddRemove, e1.Get<CA>(l).v++)
T(ar_gs, AddRemove, l.template Get<CG>().v++)
T(ar_none, AddRemove, e3.Unset<CA>(l); RD(11, e1.Has<CA>(l)); RD(11, e1.Get<const CB>(l).v); for (auto &e : l.Entities()) RD(11, e.Exists(l)))
T(wg_n, Write<CG>, RD(12, l.template Get<const CG>().v + l.template GetPrevious<CG>().v))
T(wall_b, WriteAll, e1.Get<CB>(l).v++; RD(13, e1.GetPrevious<CA>(l).v + e1.Get<const CA>(l).v))
T(wa_pr, Write<CA>, RD(14, e1.GetPrevious<CA>(l).v); RD(14, e1.Has<CA>(l)); for (auto &e : l.template EntitiesWith<CA>()) RD(14, e.Exists(l)))
// through other locks of the same transaction
T(wab_s, P2(Write<CA, CB>), Lock<Ecs, Write<CA>> s = l; e1.Get<CA>(s).v++)
T(wab_d, P2(Write<CA, CB>), DynamicLock<Ecs> d(l); auto s = d.template TryLock<Write<CB>>(); if (s) e1.Get<CB>(*s).v++)
T(wall_ro, WriteAll, auto s = l.ReadOnlySubset(); RD(15, e1.Get<CA>(s).v + s.template Get<CG>().v))
T(ar_s, AddRemove, Lock<Ecs, Write<CA>> s = l; e1.Get<CA>(s).v++)
T(ar_watch, AddRemove, Observer<Ecs, EntityEvent> o = l.template Watch<EntityEvent>(); o.Stop(l))
#ifdef STOPS // of two observers of the same type one is polled, the other stopped
T(pollb, Read<>, ComponentEvent<CB> b; while (obsB.Poll(l, b)) RD(7, b.component.v))
T(ar_stop, AddRemove, obsB2.Stop(l))
T(ar_stopn, AddRemove, obsB2.Stop(l); auto e = l.NewEntity(); e.template Set<CB>(l).v = 1)
#endif
// two transactions one after the other: the second one needs every lock
template<typename... P, typename F> static inline void tx2(F f) { auto l = ecs.StartTransaction<P...>(); f(l); }
#define T2(name, first) extern "C" void t_##name() { t_##first(); tx2<AddRemove>([](auto &l) { l.NewEntity(); e1.Get<CA>(l).v++; e1.Get<CB>(l).v++; l.template Get<CG>().v++; }); }
T2(ra_x, ra) T2(wa_x, wa) T2(wb_x, wb) T2(wab_x, wab) T2(wab_b_x, wab_b) T2(rall_x, rall) T2(wall_x, wall) T2(ar_new_x, ar_new) T2(ar_n_x, ar_n) T2(ar_set_x, ar_set) T2(r0_x, r0) T2(rab_x, rab)
T2(ar_del_x, ar_del) T2(wg_x, wg) T2(ar_g_x, ar_g)
