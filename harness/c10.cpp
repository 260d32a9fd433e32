// C10: a transaction lives until its last lock is gone; one per instance and thread; any order of starts, copies and releases.
#include "vp.h"
#include <Tecs.hh>
#include <optional>
#ifndef NH
    #define NH 6
#endif
#ifndef NI
    #define NI 2    // instances
#endif
#ifndef NS
    #define NS 4    // lock slots
#endif
#ifndef LIMIT
    #define LIMIT 64
#endif
struct CompA {
    uint32_t x = 0;
};
using E1 = Tecs::ECS<CompA>;
using AR = Tecs::Lock<E1, Tecs::AddRemove>;
using WR = Tecs::Lock<E1, Tecs::Write<CompA>>;
using RD = Tecs::Lock<E1, Tecs::Read<CompA>>;
static E1 ecs[NI];
static Tecs::Entity ent[NI];
struct Slot {
    std::optional<AR> ar;
    std::optional<WR> wr;
    std::optional<RD> rd;
    bool prev = false; // a read-only subset: shows the start state
    int inst = -1;
    void clear() { ar.reset(); wr.reset(); rd.reset(); inst = -1; prev = false; }
};
static Slot slot[NS];
struct Inst { unsigned locks = 0; uint32_t committed = 0, pending = 0; size_t txid = 0; };
static Inst inst[NI];
static size_t ids[4 * NH + 4 * NI + 4];
static unsigned nids = 0;
static void newId(size_t id) {
    for (unsigned i = 0; i < nids; i++) vp_assert(ids[i] != id, "a transaction identifier is reused");
    ids[nids++] = id;
}
static unsigned active() {
    unsigned n = 0;
    for (unsigned i = 0; i < NI; i++) n += inst[i].locks > 0;
    return n;
}
// every held lock still works and sees what it should
static void usable() {
    for (unsigned s = 0; s < NS; s++) {
        Slot &l = slot[s];
        if (l.inst < 0) continue;
        const Inst &i = inst[l.inst];
        uint32_t v = 0;
        size_t id = 0;
        if (l.ar) { v = ent[l.inst].Get<const CompA>(*l.ar).x; id = l.ar->GetTransactionId(); }
        if (l.wr) { v = ent[l.inst].Get<const CompA>(*l.wr).x; id = l.wr->GetTransactionId(); }
        if (l.rd) { v = ent[l.inst].Get<CompA>(*l.rd).x; id = l.rd->GetTransactionId(); }
        vp_assert(v == (l.prev ? i.committed : i.pending), "a held lock sees another value");
        vp_assert(id == i.txid, "the locks of a transaction disagree on its identifier");
    }
}
// probes of every instance: an active one refuses a second transaction, a free one accepts one (up to the limit) and shows what was committed
static void probe() {
    for (unsigned i = 0; i < NI; i++) {
        bool thrown = false;
        try {
            auto lock = ecs[i].StartTransaction<Tecs::Read<CompA>>();
            newId(lock.GetTransactionId());
            vp_assert(ent[i].Get<CompA>(lock).x == inst[i].committed, "what a released transaction committed is not what is visible");
        } catch (const std::exception &) {
            thrown = true;
        }
        bool want = inst[i].locks > 0 || active() >= LIMIT;
        vp_assert(thrown == want, want ? "a second transaction on an instance with an active one (or beyond the limit) was started" : "a transaction could not be started although none is active");
    }
    usable();
}
template<typename F> static void started(unsigned s, unsigned i, F f) {
    bool thrown = false;
    try { f(); } catch (const std::exception &) { thrown = true; }
    bool want = inst[i].locks > 0 || active() >= LIMIT;
    vp_assert(thrown == want, want ? "a nested transaction (or one beyond the limit) was started" : "a transaction could not be started although none is active");
    if (thrown) { slot[s].clear(); return; }
    slot[s].inst = i;
    inst[i].locks++;
    inst[i].txid = slot[s].ar ? slot[s].ar->GetTransactionId() : slot[s].wr ? slot[s].wr->GetTransactionId() : slot[s].rd->GetTransactionId();
    newId(inst[i].txid);
    inst[i].pending = inst[i].committed;
}
void vp_main() {
    for (unsigned i = 0; i < NI; i++) {
        auto lock = ecs[i].StartTransaction<Tecs::AddRemove>();
        newId(lock.GetTransactionId());
        ent[i] = lock.NewEntity();
        inst[i].committed = inst[i].pending = vp_u32("init");
        ent[i].Set<CompA>(lock, CompA{inst[i].committed});
    }
    for (unsigned step = 0; step < NH; step++) {
        unsigned freeSlot = NS, held[NS], nh = 0, writable[NS], nw = 0;
        for (unsigned s = 0; s < NS; s++) {
            if (slot[s].inst < 0) { if (freeSlot == NS) freeSlot = s; }
            else { held[nh++] = s; if (slot[s].ar || slot[s].wr) writable[nw++] = s; }
        }
        unsigned ops[4], n = 0;
        if (freeSlot < NS) ops[n++] = 0;
        if (freeSlot < NS && nh) ops[n++] = 1;
        if (nh) ops[n++] = 2;
        if (nw) ops[n++] = 3;
        switch (ops[vp_choose("op", n)]) {
        case 0: { // start
            unsigned i = vp_choose("instance", NI), s = freeSlot;
            switch (vp_choose("kind", 3)) {
            case 0: started(s, i, [&] { slot[s].ar.emplace(ecs[i].StartTransaction<Tecs::AddRemove>()); }); break;
            case 1: started(s, i, [&] { slot[s].wr.emplace(ecs[i].StartTransaction<Tecs::Write<CompA>>()); }); break;
            default: started(s, i, [&] { slot[s].rd.emplace(ecs[i].StartTransaction<Tecs::Read<CompA>>()); }); break;
            }
            break;
        }
        case 1: { // another lock of the same transaction
            Slot &a = slot[held[vp_choose("lock", nh)]], &b = slot[freeSlot];
            switch (vp_choose("how", 4)) {
            case 0: if (a.ar) b.ar.emplace(*a.ar); else if (a.wr) b.wr.emplace(*a.wr); else b.rd.emplace(*a.rd); b.prev = a.prev; break;
            case 1: if (a.ar) b.rd.emplace(*a.ar); else if (a.wr) b.rd.emplace(*a.wr); else b.rd.emplace(*a.rd); b.prev = a.prev; break;
            case 2: if (a.ar) b.rd.emplace(a.ar->ReadOnlySubset()); else if (a.wr) b.rd.emplace(a.wr->ReadOnlySubset()); else b.rd.emplace(a.rd->ReadOnlySubset()); b.prev = true; break;
            default: { // through a dynamic lock
                b.prev = a.prev;
                if (a.ar) { Tecs::DynamicLock<E1> d(*a.ar); auto r = d.TryLock<Tecs::Write<CompA>>(); if (r) b.wr.emplace(*r); }
                else if (a.wr) { Tecs::DynamicLock<E1> d(*a.wr); auto r = d.TryLock<Tecs::Read<CompA>>(); if (r) b.rd.emplace(*r); }
                else { Tecs::DynamicLock<E1, Tecs::Read<CompA>> d(*a.rd); auto r = d.TryLock<Tecs::Read<CompA>>(); if (r) b.rd.emplace(*r); }
                vp_assert(b.ar || b.wr || b.rd, "a dynamic request for held permissions fails");
            }
            }
            b.inst = a.inst;
            inst[a.inst].locks++;
            break;
        }
        case 2: { // release
            Slot &a = slot[held[vp_choose("lock", nh)]];
            unsigned i = a.inst;
            a.clear();
            if (--inst[i].locks == 0) inst[i].committed = inst[i].pending;
            break;
        }
        case 3: { // write
            Slot &a = slot[writable[vp_choose("lock", nw)]];
            uint32_t v = vp_u32("value");
            if (a.ar) ent[a.inst].Set<CompA>(*a.ar, CompA{v});
            else ent[a.inst].Set<CompA>(*a.wr, CompA{v});
            inst[a.inst].pending = v;
            break;
        }
        }
        usable();
    }
    probe();
    for (unsigned k = 0; k < NS; k++) // release what is left, in either direction
        if (slot[k].inst >= 0) {
            unsigned i = slot[k].inst;
            slot[k].clear();
            if (--inst[i].locks == 0) inst[i].committed = inst[i].pending;
            usable();
        }
    probe();
    probe();
    vp_reach("end");
}
