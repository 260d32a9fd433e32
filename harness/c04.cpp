// C04: an operation through an arbitrary 64-bit handle throws exactly if the handle is not a live entity (or the component is missing where it
// may not be created), and a rejected operation changes nothing, neither in the running transaction nor after its commit.
#include "hist.h"
#ifndef PRE
    #define PRE 1
#endif
static Ecs ecs;
using AddRemove = Tecs::AddRemove;
static unsigned which(const World &w, Ent h) { // index of the live entity denoted by h, or NENT (branches on the symbolic handle)
    for (unsigned k = 0; k < w.n; k++)
        if (w.e[k].live && w.e[k].h.index == h.index && w.e[k].h.generation == h.generation) return k;
    return NENT;
}
template<typename F>
static bool throws(F f) {
    try { f(); } catch (...) { return true; }
    return false;
}
template<typename L>
static void readOps(const L &lock, const World &w, const World &prev, unsigned op, Ent h) {
    unsigned k = which(w, h), p = which(prev, h);
    switch (op) {
    case 0: {
        CompA v;
        bool t = throws([&] { v = h.template Get<const CompA>(lock); });
        bool ok = k < NENT && w.e[k].hasA;
        vp_assert(t == !ok, "reading through an invalid handle or a missing component does not throw (or a valid read throws)");
        if (ok && !t) vp_assert(v == w.e[k].a, "a read returns another value");
        break;
    }
    case 1: {
        CompA v;
        bool t = throws([&] { v = h.template GetPrevious<CompA>(lock); });
        bool ok = p < NENT && prev.e[p].hasA;
        vp_assert(t == !ok, "reading the previous value through an invalid handle or of a missing component does not throw (or a valid read throws)");
        if (ok && !t) vp_assert(v == prev.e[p].a, "a read returns another previous value");
        break;
    }
    case 2: {
        bool e = false, hs = false, x = false, hd = false;
        bool t = throws([&] { e = h.Exists(lock); hs = h.template Has<CompA>(lock); x = h.Existed(lock); hd = h.template Had<CompA>(lock); });
        vp_assert(!t, "a query throws");
        vp_assert(e == (k < NENT) && hs == (k < NENT && w.e[k].hasA), "a query on an arbitrary handle gives the wrong answer");
        vp_assert(x == (p < NENT) && hd == (p < NENT && prev.e[p].hasA), "a query about the past of an arbitrary handle gives the wrong answer");
        break;
    }
    }
}
template<typename L>
static void writeOps(const L &lock, World &w, unsigned op, Ent h, bool ar) {
    unsigned k = which(w, h);
    bool ok = k < NENT && (ar || w.e[k].hasA);
    CompA v = symA();
    bool t = false;
    switch (op) {
    case 0: t = throws([&] { h.template Set<CompA>(lock, v); }); break;
    case 1: t = throws([&] { h.template Set<CompA>(lock, CompA{v}); }); break;
    case 2: t = throws([&] { CompA &r = h.template Get<CompA>(lock); r = v; }); break;
    }
    vp_assert(t == !ok, "a write through an invalid handle or to a missing component does not throw (or a valid write throws)");
    if (!t && k < NENT) { w.e[k].hasA = true; w.e[k].a = v; }
}
static void removeOps(const Tecs::Lock<Ecs, AddRemove> &lock, World &w, unsigned op, Ent h) {
    unsigned k = which(w, h);
    bool t = false;
    switch (op) {
    case 0: t = throws([&] { h.Unset<CompA>(lock); }); break;
    case 1: t = throws([&] { Ent c = h; c.Destroy(lock); if (c) vp_assert(false, "Destroy leaves the handle non-null"); }); break;
    case 2: t = throws([&] { const Ent c = h; c.Destroy(lock); }); break;
    case 3: t = throws([&] { h.Unset<CompB, CompA>(lock); }); break;
    }
    vp_assert(t == (k == NENT), "removing or destroying through an invalid handle does not throw (or a valid one throws)");
    if (!t && k < NENT) {
        if (op == 0) w.e[k].hasA = false;
        else if (op == 3) w.e[k].hasA = w.e[k].hasB = false;
        else w.e[k].live = w.e[k].hasA = w.e[k].hasB = false;
    }
}
struct Counts { unsigned ent = 0, a = 0, b = 0, g = 0; };
void vp_main() {
    World w;
    Tecs::Observer<Ecs, Tecs::EntityEvent> oe;
    Tecs::Observer<Ecs, Tecs::ComponentEvent<CompA>> oa;
    Tecs::Observer<Ecs, Tecs::ComponentEvent<CompB>> ob;
    {
        populate(ecs, w, vp_choose("pop", 4));
        auto lock = ecs.StartTransaction<AddRemove>();
        for (int i = 0; i < PRE; i++) arOp(lock, w, OP_NEWA | OP_NEW | OP_DESTROY | OP_UNSETA);
        oe = lock.Watch<Tecs::EntityEvent>();
        oa = lock.Watch<Tecs::ComponentEvent<CompA>>();
        ob = lock.Watch<Tecs::ComponentEvent<CompB>>();
    }
    { // drop the events of the setup
        auto lock = ecs.StartTransaction<>();
        Tecs::EntityEvent e; Tecs::ComponentEvent<CompA> a; Tecs::ComponentEvent<CompB> b;
        while (oe.Poll(lock, e)) {}
        while (oa.Poll(lock, a)) {}
        while (ob.Poll(lock, b)) {}
    }
    World prev = w;
    const Ent h = symHandle("hIndex", "hGen");
    unsigned kind = vp_choose("kind", 4);
    if (kind == 0) {
        auto lock = ecs.StartTransaction<AddRemove>();
        if (vp_choose("before", 2)) arOp(lock, w, OP_NEWA | OP_NEW | OP_DESTROY | OP_UNSETA | OP_SETB);
        unsigned op = vp_choose("op", 10);
        if (op < 3) readOps(lock, w, prev, op, h);
        else if (op < 6) writeOps(lock, w, op - 3, h, true);
        else removeOps(lock, w, op - 6, h);
        checkCurrent(lock, w, true, true, "");
        checkPrevious(lock, prev, prev.n, nullptr, true);
    } else if (kind == 1) {
        auto lock = ecs.StartTransaction<Tecs::WriteAll>();
        unsigned op = vp_choose("op", 6);
        if (op < 3) readOps(lock, w, prev, op, h);
        else writeOps(lock, w, op - 3, h, false);
        checkCurrent(lock, w, true, false, "");
        checkPrevious(lock, prev, prev.n, nullptr, true);
    } else if (kind == 2) {
        auto lock = ecs.StartTransaction<Tecs::Read<CompA, CompB, GlobG, GlobH>>();
        readOps(lock, w, prev, vp_choose("op", 3), h);
        checkCurrent(lock, w, true, false, "");
    } else { // add/remove transaction used through a lock without that permission
        auto lock0 = ecs.StartTransaction<AddRemove>();
        Tecs::Lock<Ecs, Tecs::WriteAll> lock = lock0;
        if (vp_choose("before", 2)) arOp(lock0, w, OP_NEWA | OP_NEW | OP_DESTROY | OP_UNSETA | OP_SETB);
        unsigned op = vp_choose("op", 6);
        if (op < 3) readOps(lock, w, prev, op, h);
        else writeOps(lock, w, op - 3, h, false);
        checkCurrent(lock, w, true, true, "");
        checkPrevious(lock, prev, prev.n, nullptr, true);
    }
    {
        auto lock = ecs.StartTransaction<Tecs::ReadAll>();
        checkCurrent(lock, w, true, false, "");
        // events: exactly the net changes
        Counts want, got;
        for (unsigned k = 0; k < w.n; k++) {
            bool pl = k < prev.n && prev.e[k].live, pa = pl && prev.e[k].hasA, pb = pl && prev.e[k].hasB;
            want.ent += w.e[k].live != pl;
            want.a += (w.e[k].live && w.e[k].hasA) != pa;
            want.b += (w.e[k].live && w.e[k].hasB) != pb;
        }
        Tecs::EntityEvent e; Tecs::ComponentEvent<CompA> a; Tecs::ComponentEvent<CompB> b;
        while (oe.Poll(lock, e)) got.ent++;
        while (oa.Poll(lock, a)) got.a++;
        while (ob.Poll(lock, b)) got.b++;
        vp_assert(want.ent == got.ent && want.a == got.a && want.b == got.b, "a rejected operation produced or dropped an event");
    }
    {
        auto lock = ecs.StartTransaction<AddRemove>();
        checkCurrent(lock, w, true, false, "");
        opNew(lock, w);
        checkCurrent(lock, w, true, true, "");
    }
    vp_reach("end");
}
