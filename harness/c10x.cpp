// C10: a transaction that ends because an exception leaves its scope is released like any other (its locks are gone: it commits once, everything is free again).
#include "hist.h"
#include <optional>
using namespace Tecs;
#ifndef NOPS
    #define NOPS 1
#endif
static Ecs ecs;
static World w;
struct Stop {};
template<typename L> static void fail(const L &lock) {
    switch (vp_choose("fail", 4)) {
    case 0: throw Stop();
    case 1: (void)Ent().template Get<const CompA>(lock); break;            // no such entity
    case 2: { auto l2 = ecs.StartTransaction<Read<CompA>>(); break; }      // nested
    default: { Ent e(7, 9); e.template Set<CompA>(lock, CompA()); }
    }
    vp_assert(false, "an invalid operation does not throw");
}
static void body(unsigned how) {
    std::optional<Lock<Ecs, Read<CompA>>> outer;
    try {
        auto lock = ecs.StartTransaction<AddRemove>();
        for (unsigned i = 0; i < NOPS; i++) arOp(lock, w);
        Lock<Ecs, Write<CompA>> inner = lock;
        if (how == 1) outer.emplace(inner);
        fail(lock);
    } catch (const Stop &) {
    } catch (const std::exception &) {
    }
    if (outer) { // the transaction is still held by a copy outside
        for (unsigned k = 0; k < w.n; k++) vp_assert(w.e[k].h.Has<CompA>(*outer) == (w.e[k].live && w.e[k].hasA), "a lock that survived an exception sees another state");
        bool t = false;
        try { auto l = ecs.StartTransaction<>(); } catch (const std::exception &) { t = true; }
        vp_assert(t, "a nested transaction was started");
    }
}
void vp_main() {
    populate(ecs, w, vp_choose("population", 4));
    unsigned how = vp_choose("copy", 2);
    if (vp_choose("kind", 2) == 0) body(how);
    else {
        try {
            auto lock = ecs.StartTransaction<WriteAll>();
            wOp(lock, w);
            auto ro = lock.ReadOnlySubset();
            fail(lock);
        } catch (const Stop &) {
        } catch (const std::exception &) {
        }
    }
    for (unsigned i = 0; i < 2; i++) {
        { auto lock = ecs.StartTransaction<ReadAll>(); checkCurrent(lock, w, true, false, ""); }
        { auto lock = ecs.StartTransaction<WriteAll>(); checkCurrent(lock, w, true, false, ""); wOp(lock, w); }
        { auto lock = ecs.StartTransaction<AddRemove>(); checkCurrent(lock, w, true, false, ""); opNew(lock, w); checkPrevious(lock, w, w.n - 1, nullptr, false); }
    }
    vp_reach("end");
}
