// C13: component values that own memory are copied, kept and released as the history requires.
#include "vp.h"
#include <Tecs.hh>
#include <algorithm>
#include <deque>
#ifndef NTX
    #define NTX 3
#endif
#ifndef NOPS
    #define NOPS 2
#endif
#ifndef NENT
    #define NENT 5
#endif
#define NTAG 40
// Every value has a tag; live[tag] counts the copies in existence anywhere.
static int live[NTAG];
static unsigned nextTag;
struct Payload {
    unsigned tag;
    uint32_t val;
    Payload(unsigned t, uint32_t v) : tag(t), val(v) { live[t]++; }
    ~Payload() { live[tag]--; tag = 0xdead; }
};
template<int K> struct Own {
    Payload *p = nullptr;
    Own() {}
    explicit Own(uint32_t v) : p(new Payload(nextTag++, v)) {}
    Own(const Own &o) : p(o.p ? new Payload(o.p->tag, o.p->val) : nullptr) {}
#ifdef MOVABLE
    Own(Own &&o) noexcept : p(o.p) { o.p = nullptr; }
    Own &operator=(Own &&o) noexcept { Payload *q = p; p = o.p; o.p = q; return *this; }
#endif
    Own &operator=(const Own &o) {
        if (this != &o) { Payload *q = o.p ? new Payload(o.p->tag, o.p->val) : nullptr; delete p; p = q; }
        return *this;
    }
    ~Own() { delete p; }
};
using A = Own<0>;
using G = Own<1>;
struct Plain { uint8_t b = 0; };
TECS_GLOBAL_COMPONENT(G);
using Ecs = Tecs::ECS<A, G, Plain>;
using Ent = Tecs::Entity;
using Ev = Tecs::ComponentEvent<A>;
using EvG = Tecs::ComponentEvent<G>;
struct Val { unsigned tag = ~0u; uint32_t v = 0; };
struct M { Ent h; bool live = false, has = false; Val v; };
struct W { M e[NENT]; unsigned n = 0; bool hasG = false; Val g; };
struct Pend { Val v[32]; unsigned head = 0, tail = 0; };
static void same(const A &a, const Val &v) { vp_assert((v.tag == ~0u) == !a.p && (!a.p || (a.p->tag == v.tag && a.p->val == v.v)), "a value of an owning component was altered"); }
static void same(const G &a, const Val &v) { vp_assert((v.tag == ~0u) == !a.p && (!a.p || (a.p->tag == v.tag && a.p->val == v.v)), "a value of an owning global component was altered"); }
static Val freshVal() { Val v; v.v = vp_u32("v"); return v; }
template<typename L> static void setA(const L &lock, M &m) {
    m.v = freshVal();
    m.v.tag = nextTag;
    if (nextTag & 1) { A a(m.v.v); m.h.template Set<A>(lock, a); }
    else m.h.template Set<A>(lock, m.v.v);
    m.has = true;
}
template<typename L> static bool pick(const W &w, bool needA, unsigned &k, const L &) {
    unsigned idx[NENT], n = 0;
    for (unsigned i = 0; i < w.n; i++) if (w.e[i].live && (!needA || w.e[i].has)) idx[n++] = i;
    if (!n) return false;
    k = idx[n == 1 ? 0 : vp_choose("pick", n)];
    return true;
}
template<typename L> static void arOp(const L &lock, W &w) {
    unsigned ops[8], n = 0, lv = 0;
    for (unsigned i = 0; i < w.n; i++) lv += w.e[i].live;
    if (w.n < NENT) ops[n++] = 0;
    if (lv) { ops[n++] = 1; ops[n++] = 2; ops[n++] = 3; ops[n++] = 4; }
    ops[n++] = 5;
    if (w.hasG) ops[n++] = 6;
    unsigned k = 0;
    switch (ops[vp_choose("op", n)]) {
    case 0: { M &m = w.e[w.n++]; m.h = lock.NewEntity(); m.live = true; setA(lock, m); break; }
    case 1: pick(w, false, k, lock); w.e[k].h.Destroy(lock); w.e[k].live = w.e[k].has = false; break;
    case 2: pick(w, false, k, lock); setA(lock, w.e[k]); break;
    case 3: pick(w, false, k, lock); w.e[k].h.template Unset<A>(lock); w.e[k].has = false; break;
    case 4: { // mutable reference
        pick(w, false, k, lock);
        A &r = w.e[k].h.template Get<A>(lock);
        if (!w.e[k].has) { w.e[k].has = true; w.e[k].v = Val(); }
        same(r, w.e[k].v);
        break;
    }
    case 5: { w.g = freshVal(); w.g.tag = nextTag; lock.template Set<G>(w.g.v); w.hasG = true; break; }
    case 6: lock.template Unset<G>(); w.hasG = false; break;
    }
}
template<typename L> static void wrOp(const L &lock, W &w) {
    unsigned k = 0;
    if (pick(w, true, k, lock)) setA(lock, w.e[k]);
    else if (w.hasG) { w.g = freshVal(); w.g.tag = nextTag; lock.template Set<G>(w.g.v); }
}
static void deliver(Pend &q, const Val &v) { q.v[q.tail++] = v; }
void vp_main() {
    vp_leakcheck();
    {
        Ecs *ecs = new Ecs();
        W w;
        Tecs::Observer<Ecs, Ev> oa;
        Tecs::Observer<Ecs, EvG> og;
        Pend pa, pg;
        bool watch = vp_choose("watch", 2);
        if (watch) {
            auto lock = ecs->StartTransaction<Tecs::AddRemove>();
            oa = lock.Watch<Ev>();
            og = lock.Watch<EvG>();
        }
        for (int tx = 0; tx < NTX; tx++) {
            const W start = w;
            unsigned kind = tx == 0 ? 0 : vp_choose("kind", watch ? 4 : 2);
            if (kind == 0) {
                {
                    auto lock = ecs->StartTransaction<Tecs::AddRemove>();
                    for (int i = 0; i < NOPS; i++) arOp(lock, w);
                }
                if (watch) { // events in the order of the entity's index; here: which values they carry
                    for (unsigned k = 0; k < w.n; k++) {
                        bool was = k < start.n && start.e[k].live && start.e[k].has, is = w.e[k].live && w.e[k].has;
                        if (was && !is) deliver(pa, start.e[k].v);
                        if (is && !was) deliver(pa, w.e[k].v);
                    }
                    if (start.hasG && !w.hasG) deliver(pg, start.g);
                    if (!start.hasG && w.hasG) deliver(pg, w.g);
                }
            } else if (kind == 1) {
                auto lock = ecs->StartTransaction<Tecs::WriteAll>();
                wrOp(lock, w);
            } else if (kind == 2) { // poll everything: the queue then holds nothing
                auto lock = ecs->StartTransaction<>();
                unsigned n = 0;
                { Ev e; while (oa.Poll(lock, e)) n++; }
                { EvG e; while (og.Poll(lock, e)) n++; }
                vp_assert(n == pa.tail + pg.tail, "number of events");
                pa = Pend(); pg = Pend();
            } else { // stop watching: the queue is released
                auto lock = ecs->StartTransaction<Tecs::AddRemove>();
                oa.Stop(lock);
                og.Stop(lock);
                watch = false;
                pa = Pend(); pg = Pend();
            }
            // the values that must still exist, and no others
            {
                auto lock = ecs->StartTransaction<Tecs::ReadAll>();
                for (unsigned k = 0; k < w.n; k++) if (w.e[k].live && w.e[k].has) same(w.e[k].h.Get<A>(lock), w.e[k].v);
                if (w.hasG) same(lock.Get<G>(), w.g);
            }
            for (unsigned t = 0; t < nextTag; t++) {
                bool want = w.hasG && w.g.tag == t;
                for (unsigned k = 0; k < w.n; k++) want |= w.e[k].live && w.e[k].has && w.e[k].v.tag == t;
                bool held = false;
                for (unsigned i = 0; i < pa.tail; i++) held |= pa.v[i].tag == t;
                for (unsigned i = 0; i < pg.tail; i++) held |= pg.v[i].tag == t;
                if (!want && !held) vp_assert(live[t] == 0, "a removed value is still held by the ECS after the commit");
                else vp_assert(live[t] >= 1, "a value that is present or held by a pending event was released");
            }
        }
        if (nextTag & 1) { // the transaction open while values change is released, then the instance
            auto lock = ecs->StartTransaction<Tecs::AddRemove>();
            arOp(lock, w);
        }
        delete ecs;
        for (unsigned t = 0; t < nextTag; t++) vp_assert(live[t] == 0, "a value outlives the ECS instance or was released twice");
    }
    vp_reach("end");
}
