// C06: observers receive exactly the net changes of every commit.
#include "hist.h"
#ifndef NOPS
    #define NOPS 2
#endif
#ifndef NTX
    #define NTX 2
#endif
#ifndef OPSET
    #define OPSET OPS
#endif
#ifndef NOBS
    #define NOBS 1      // observers of every kind
#endif
static Ecs ecs;
using Tecs::EventType;
static Tecs::Observer<Ecs, Tecs::EntityEvent> oe[NOBS];
static Tecs::Observer<Ecs, Tecs::ComponentEvent<CompA>> oa[NOBS];
static Tecs::Observer<Ecs, Tecs::ComponentEvent<CompB>> ob[NOBS];
static Tecs::Observer<Ecs, Tecs::ComponentEvent<GlobG>> og[NOBS];
static Tecs::Observer<Ecs, Tecs::ComponentEvent<GlobH>> oh[NOBS];

static void entityEvents(const Tecs::Lock<Ecs> &lock, const Tecs::Observer<Ecs, Tecs::EntityEvent> &oe, const World &p, const World &w) {
    Tecs::EntityEvent ev[12];
    unsigned n = 0;
    while (n < 12 && oe.Poll(lock, ev[n])) n++;
    unsigned want = 0;
    bool ok = true;
    for (unsigned k = 0; k < w.n; k++) {
        bool was = k < p.n && p.e[k].live, is = w.e[k].live;
        unsigned add = 0, rem = 0;
        for (unsigned i = 0; i < n; i++)
            if (ev[i].entity == w.e[k].h) { add += ev[i].type == EventType::ADDED; rem += ev[i].type == EventType::REMOVED; }
        ok &= add == (is && !was) && rem == (was && !is);
        want += is != was;
    }
    vp_assert(ok && n == want, "entity events are not exactly the net changes of the commit");
    for (unsigned i = 0; i < n; i++)
        for (unsigned j = i + 1; j < n; j++)
            if (ev[i].entity.index == ev[j].entity.index) vp_assert(ev[i].type == EventType::REMOVED && ev[j].type == EventType::ADDED, "a replaced slot does not yield removal then addition");
}
template<typename C, typename O, typename Has, typename Val>
static void compEvents(const Tecs::Lock<Ecs> &lock, O &o, const World &p, const World &w, Has has, Val val, const char *msg, const char *vmsg) {
    Tecs::ComponentEvent<C> ev[12];
    unsigned n = 0, want = 0;
    while (n < 12 && o.Poll(lock, ev[n])) n++;
    bool ok = true;
    for (unsigned k = 0; k < w.n; k++) {
        bool was = k < p.n && p.e[k].live && has(p.e[k]), is = w.e[k].live && has(w.e[k]);
        unsigned add = 0, rem = 0;
        for (unsigned i = 0; i < n; i++)
            if (ev[i].entity == w.e[k].h) {
                if (ev[i].type == EventType::ADDED) { add++; vp_assert(!is || ev[i].component == val(w.e[k]), vmsg); }
                else if (ev[i].type == EventType::REMOVED) { rem++; vp_assert(!was || ev[i].component == val(p.e[k]), vmsg); }
                else ok = false;
            }
        ok &= add == (is && !was) && rem == (was && !is);
        want += is != was;
    }
    vp_assert(ok && n == want, msg);
}
template<typename G, typename O>
static void globEvents(const Tecs::Lock<Ecs> &lock, O &o, bool was, bool is, const G &pv, const G &v) {
    Tecs::ComponentEvent<G> ev;
    bool got = o.Poll(lock, ev);
    vp_assert(got == (was != is), "global component events are not exactly the net change of the commit");
    if (got) {
        vp_assert(ev.type == (is ? EventType::ADDED : EventType::REMOVED), "wrong kind of global component event");
        vp_assert(!ev.entity, "a global component event carries an entity");
        vp_assert(ev.component == (is ? v : pv), "wrong value in a global component event");
        vp_assert(!o.Poll(lock, ev), "more than one global component event in a commit");
    }
}
static void events(const World &p, const World &w) {
    auto lock = ecs.StartTransaction<>();
    for (unsigned i = 0; i < NOBS; i++) {
        entityEvents(lock, oe[i], p, w);
        compEvents<CompA>(lock, oa[i], p, w, [](const MEnt &m) { return m.hasA; }, [](const MEnt &m) { return m.a; }, "events of A are not exactly the net changes of the commit", "an event of A carries another value");
        compEvents<CompB>(lock, ob[i], p, w, [](const MEnt &m) { return m.hasB; }, [](const MEnt &m) { return m.b; }, "events of B are not exactly the net changes of the commit", "an event of B carries another value");
        globEvents<GlobG>(lock, og[i], p.hasG, w.hasG, p.g, w.g);
        globEvents<GlobH>(lock, oh[i], p.hasH, w.hasH, p.h, w.h);
    }
}
void vp_main() {
    World w;
    {
        auto lock = ecs.StartTransaction<Tecs::AddRemove>();
        for (unsigned i = 0; i < NOBS; i++) {
            oe[i] = lock.Watch<Tecs::EntityEvent>();
            oa[i] = lock.Watch<Tecs::ComponentEvent<CompA>>();
            ob[i] = lock.Watch<Tecs::ComponentEvent<CompB>>();
            og[i] = lock.Watch<Tecs::ComponentEvent<GlobG>>();
            oh[i] = lock.Watch<Tecs::ComponentEvent<GlobH>>();
        }
    }
    World p = w;
    populate(ecs, w, vp_choose("pop", 4));
    events(p, w);
    for (int tx = 0; tx < NTX; tx++) {
        p = w;
        if (tx == 0 || vp_choose("kind", 2) == 0) {
            auto lock = ecs.StartTransaction<Tecs::AddRemove>();
            for (int i = 0; i < (tx == 0 ? NOPS : 1); i++) arOp(lock, w, OPSET);
        } else {
            auto lock = ecs.StartTransaction<Tecs::WriteAll>();
            wOp(lock, w);
        }
        events(p, w);
    }
    { // nothing is left, and a transaction that commits nothing produces nothing
        { auto lock = ecs.StartTransaction<Tecs::AddRemove>(); }
        events(w, w);
    }
    vp_reach("end");
}
