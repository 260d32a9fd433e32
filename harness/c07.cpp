// C07: every observer receives each event once and in order from its registration until it is stopped, whoever else registers, stops or polls.
#include "hist.h"
#ifndef NH
    #define NH 6
#endif
#ifndef NOBS
    #define NOBS 2
#endif
static Ecs ecs;
using Tecs::EventType;
using AddRemove = Tecs::AddRemove;
// An event as a plain record
struct Rec { int type = 0; Ent e; uint32_t val = 0; };
struct Queue { Rec r[24]; unsigned head = 0, tail = 0; };
template<typename E> struct Slot { Tecs::Observer<Ecs, E> o; bool active = false, used = false; Queue q; };
static Slot<Tecs::EntityEvent> se[NOBS];
static Slot<Tecs::ComponentEvent<CompA>> sa[NOBS];
static Slot<Tecs::ComponentEvent<GlobG>> sg[NOBS];
template<typename E> static void deliver(Slot<E> *s, const Rec &r) {
    for (unsigned i = 0; i < NOBS; i++) if (s[i].active) s[i].q.r[s[i].q.tail++] = r;
}
static Rec rec(const Tecs::EntityEvent &e) { return {(int)e.type, e.entity, 0}; }
static Rec rec(const Tecs::ComponentEvent<CompA> &e) { return {(int)e.type, e.entity, e.component.x}; }
static Rec rec(const Tecs::ComponentEvent<GlobG> &e) { return {(int)e.type, e.entity, e.component.g}; }
template<typename E, typename L> static void poll(const L &lock, Slot<E> &s) {
    E e;
    bool got = s.o.Poll(lock, e);
    bool want = s.active && s.q.head < s.q.tail;
    vp_assert(got == want, want ? "an event was lost" : "an observer delivers an event it must not (again, too early or after being stopped)");
    if (got && want) {
        Rec r = rec(e), m = s.q.r[s.q.head++];
        vp_assert(r.type == m.type && r.e == m.e && r.val == m.val, "events are delivered out of order or altered");
    }
    vp_assert((bool)s.o == s.active, "observer validity is wrong");
}
template<typename E, typename L> static void reg(const L &lock, Slot<E> &s) {
    s.o = lock.template Watch<E>();
    s.active = true;
    s.q = Queue();
}
template<typename E, typename L> static void stop(const L &lock, Slot<E> &s) {
    s.o.Stop(lock);
    s.active = false;
}
// Registers an observer; a registered one is polled and stopped, through a copy of the handle or by Lock::StopWatching
template<typename E, typename L> static void toggle(const L &lock, Slot<E> &s) {
    if (!s.active) { reg(lock, s); s.used = true; return; }
    poll(lock, s);
    if (vp_choose("copy", 2)) {
        auto other = s.o;
        vp_assert((bool)other, "a copy of an observer is not valid");
        other.Stop(lock);
        vp_assert(!(bool)other, "a stopped observer is valid");
        s.active = false;
    } else {
        lock.StopWatching(s.o);
        s.active = false;
    }
}
// one change with its events; at most one event per type, so their order within the commit is determined
static void change(const Tecs::Lock<Ecs, AddRemove> &lock, World &w, Rec &ee, Rec &ea, Rec &eg) {
    unsigned ops[5], n = 0, liveA = NENT, live = NENT;
    for (unsigned i = 0; i < w.n; i++) if (w.e[i].live) { live = i; if (w.e[i].hasA) liveA = i; }
    if (w.n < NENT) ops[n++] = 0;
    if (live < NENT) ops[n++] = 1;
    ops[n++] = 2;
    if (live < NENT) ops[n++] = 3;
    switch (ops[vp_choose("change", n)]) {
    case 0: { // new entity with A
        unsigned k = opNew(lock, w);
        CompA v = symA();
        w.e[k].h.Set<CompA>(lock, v); w.e[k].a = v; w.e[k].hasA = true;
        ee = {(int)EventType::ADDED, w.e[k].h, 0};
        ea = {(int)EventType::ADDED, w.e[k].h, v.x};
        break;
    }
    case 1: // destroy
        ee = {(int)EventType::REMOVED, w.e[live].h, 0};
        if (w.e[live].hasA) ea = {(int)EventType::REMOVED, w.e[live].h, w.e[live].a.x};
        opDestroy(lock, w, live);
        break;
    case 2: // toggle the global
        if (w.hasG) { eg = {(int)EventType::REMOVED, Ent(), w.g.g}; lock.Unset<GlobG>(); w.hasG = false; }
        else { GlobG v = symG(); lock.Set<GlobG>(v); w.g = v; w.hasG = true; eg = {(int)EventType::ADDED, Ent(), v.g}; }
        break;
    case 3: // toggle A
        if (w.e[live].hasA) { ea = {(int)EventType::REMOVED, w.e[live].h, w.e[live].a.x}; w.e[live].h.Unset<CompA>(lock); w.e[live].hasA = false; }
        else { CompA v = symA(); w.e[live].h.Set<CompA>(lock, v); w.e[live].hasA = true; w.e[live].a = v; ea = {(int)EventType::ADDED, w.e[live].h, v.x}; }
        break;
    }
}
void vp_main() {
    World w;
#ifdef MIX
    { // a handle outlives its instance
        Tecs::Observer<Ecs, Tecs::EntityEvent> o;
        {
            Ecs other;
            auto lock = other.StartTransaction<AddRemove>();
            o = lock.Watch<Tecs::EntityEvent>();
            lock.NewEntity();
        }
        vp_assert(!(bool)o, "an observer of a destroyed instance is valid");
    }
#endif
    vp_assert(!(bool)se[0].o, "an observer that was never registered claims to be valid");
    for (int step = 0; step < NH; step++) {
        // actions: 0 commit a change; 1..: register / stop / poll of some observer; in one add/remove transaction or a read-only one
        unsigned act = vp_choose("action", 4);
        if (act == 0) {
            Rec ee, ea, eg;
            {
                auto lock = ecs.StartTransaction<AddRemove>();
#ifdef MIX // registered, stopped or polled in the changing transaction itself: what counts is who is registered when it commits
                unsigned when = vp_choose("when", 3), o = when ? vp_choose("who", 3 * NOBS) : 0, i = o / 3;
                auto mix = [&] {
                    if (o % 3 == 0) toggle(lock, se[i]);
                    else if (o % 3 == 1) toggle(lock, sa[i]);
                    else toggle(lock, sg[i]);
                };
                if (when == 1) mix();
                change(lock, w, ee, ea, eg);
                if (when == 2) mix();
#else
                change(lock, w, ee, ea, eg);
#endif
#ifdef POLL_INSIDE
                for (unsigned i = 0; i < NOBS; i++) if (se[i].used) poll(lock, se[i]); // nothing of this transaction yet
#endif
            }
            if (ee.type) deliver(se, ee);
            if (ea.type) deliver(sa, ea);
            if (eg.type) deliver(sg, eg);
        } else {
            unsigned o = vp_choose("observer", 3 * NOBS), i = o / 3;
            bool used = o % 3 == 0 ? se[i].used : o % 3 == 1 ? sa[i].used : sg[i].used;
            if (act == 1) {
                auto lock = ecs.StartTransaction<AddRemove>();
                if (o % 3 == 0) { if (se[i].active) vp_stop(); reg(lock, se[i]); se[i].used = true; }
                else if (o % 3 == 1) { if (sa[i].active) vp_stop(); reg(lock, sa[i]); sa[i].used = true; }
                else { if (sg[i].active) vp_stop(); reg(lock, sg[i]); sg[i].used = true; }
            } else if (!used) {
                vp_stop();
            } else if (act == 2) {
                auto lock = ecs.StartTransaction<AddRemove>();
                if (o % 3 == 0) stop(lock, se[i]);
                else if (o % 3 == 1) stop(lock, sa[i]);
                else stop(lock, sg[i]);
            } else {
                auto lock = ecs.StartTransaction<>();
                if (o % 3 == 0) poll(lock, se[i]);
                else if (o % 3 == 1) poll(lock, sa[i]);
                else poll(lock, sg[i]);
            }
        }
    }
    {
        auto lock = ecs.StartTransaction<Tecs::ReadAll>();
        checkCurrent(lock, w, true, false, "");
        for (unsigned i = 0; i < NOBS; i++) { // drain
            if (se[i].used) for (unsigned n = se[i].q.tail - se[i].q.head + 1; n; n--) poll(lock, se[i]);
            if (sa[i].used) for (unsigned n = sa[i].q.tail - sa[i].q.head + 1; n; n--) poll(lock, sa[i]);
            if (sg[i].used) for (unsigned n = sg[i].q.tail - sg[i].q.head + 1; n; n--) poll(lock, sg[i]);
        }
    }
    vp_reach("end");
}
