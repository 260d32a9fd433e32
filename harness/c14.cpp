// C14: performance traces are complete up to their capacity, never beyond it, and record nothing while no trace runs.
#ifndef TECS_ENABLE_PERFORMANCE_TRACING
    #define TECS_ENABLE_PERFORMANCE_TRACING
#endif
#include "vp.h"
#include <Tecs.hh>
#include <algorithm>
#include <optional>
#ifndef NSTEP
    #define NSTEP 5
#endif
struct CompA { uint32_t x = 1; };
struct CompB { uint64_t y = 2; };
struct GlobG { uint32_t g = 3; };
TECS_GLOBAL_COMPONENT(GlobG);
TECS_NAME_COMPONENT(CompA, "alpha");
using Ecs = Tecs::ECS<CompA, CompB, GlobG>;
using T = Tecs::TraceEvent::Type;
using Tecs::AddRemove; using Tecs::Read; using Tecs::ReadAll; using Tecs::Write; using Tecs::WriteAll;
enum { CAP = TECS_PERFORMANCE_TRACING_MAX_EVENTS };
static Ecs ecs;
template<typename F> static bool throws(F f) {
    try { f(); } catch (...) { return true; }
    return false;
}
// What must be in a trace: a transition each; OPT marks a commit that a transaction may or may not need (nothing was changed)
struct Exp { uint8_t t[64]; unsigned n = 0; void add(T x) { t[n++] = (uint8_t)x; } void opt() { t[n++] = 0xff; } };
static Exp expTx, expMeta, expC[3];
static bool running;
static void match(const nonstd::span<Tecs::TraceEvent> &s, const Exp &e, const char *msg) {
    unsigned p = 0, i = 0;
    vp_assert(s.size() <= CAP, "a trace is longer than its capacity");
    bool ok = true, full = false;
    for (; i < e.n && ok; i++) {
        if (p >= CAP) { full = true; break; }
        if (e.t[i] == 0xff) { // CommitLock CommitUnlock or nothing
            if (p < s.size() && s[p].type == T::CommitLock) {
                p++;
                if (p >= CAP) { full = true; break; }
                ok = p < s.size() && s[p].type == T::CommitUnlock;
                p++;
            }
            continue;
        }
        ok = p < s.size() && (uint8_t)s[p].type == e.t[i];
        if (ok) ok = s[p].thread == std::this_thread::get_id();
        p++;
    }
    vp_assert(ok, msg);
    if (ok) vp_assert(s.size() == p, full ? "a full trace has not its full length" : "a trace contains events that did not happen (or happened before it was started)");
}
static void start() {
    bool t = throws([] { ecs.StartTrace(); });
    vp_assert(t == running, "starting a trace twice does not throw (or starting one throws)");
    if (!running) { expTx = Exp(); expMeta = Exp(); for (auto &c : expC) c = Exp(); }
    running = true;
}
static void stop() {
    std::optional<Tecs::PerformanceTrace> tr;
    bool t = throws([&] { tr.emplace(ecs.StopTrace()); });
    vp_assert(t == !running, "stopping a trace that is not running does not throw (or stopping one throws)");
    if (running && !t) {
        match(tr->transactionEvents, expTx, "transaction starts and ends are not recorded completely and in order");
        match(tr->metadataEvents, expMeta, "lock transitions of the metadata are not recorded completely and in order");
        vp_assert(tr->componentEvents.size() == 3 && tr->componentNames.size() == 3, "number of traced components");
        vp_assert(tr->componentNames[0] == "alpha" && tr->componentNames[1] == "Component" + std::to_string((size_t)1) && tr->componentNames[2] == "Component" + std::to_string((size_t)2), "the trace does not carry the components' names");
        for (unsigned i = 0; i < 3; i++) match(tr->componentEvents[i], expC[i], "lock transitions of a component are not recorded completely and in order");
    }
    running = false;
}
static void mid() { // the trace may be started or stopped while a transaction is active
    switch (vp_choose("mid", 3)) {
    case 1: start(); break;
    case 2: stop(); break;
    }
}
template<typename L> constexpr int perm(int i) {
    return i == 0 ? (Tecs::is_write_allowed<CompA, L>() ? 2 : Tecs::is_read_allowed<CompA, L>() ? 1 : 0)
         : i == 1 ? (Tecs::is_write_allowed<CompB, L>() ? 2 : Tecs::is_read_allowed<CompB, L>() ? 1 : 0)
                  : (Tecs::is_write_allowed<GlobG, L>() ? 2 : Tecs::is_read_allowed<GlobG, L>() ? 1 : 0);
}
static Tecs::Entity ent;
static bool hasG;
static CompA valA;
template<typename... P> static void tx() {
    using L = Tecs::Lock<Ecs, P...>;
    constexpr bool ar = Tecs::is_add_remove_allowed<L>();
    int touched[3] = {}, all = 0; // 0 untouched, 1 changed
    {
        auto lock = ecs.StartTransaction<P...>();
        if (running) {
            expTx.add(T::TransactionStart);
            expMeta.add(ar ? T::WriteLock : T::ReadLock);
            for (int i = 0; i < 3; i++) if (perm<L>(i)) expC[i].add(perm<L>(i) == 2 ? T::WriteLock : T::ReadLock);
        }
        mid();
        vp_assert(throws([] { auto l2 = ecs.StartTransaction<>(); }), "a nested transaction starts");
        if (ent) vp_assert(ent.Exists(lock), "tracing changes the result of a transaction");
        if constexpr (Tecs::is_read_allowed<CompA, L>()) {
            if (ent) vp_assert(ent.Get<const CompA>(lock).x == valA.x, "tracing changes the result of a transaction");
        }
        if constexpr (ar) {
            switch (vp_choose("what", 4)) {
            case 0: break;
            case 1: if (!ent) { ent = lock.NewEntity(); all = 1; } valA.x = vp_u32("x"); ent.Set<CompA>(lock, valA); touched[0] = 1; break;
            case 2: if (ent) { ent.Destroy(lock); ent = Tecs::Entity(); all = 1; touched[0] = 1; } break;
            case 3: if (hasG) lock.template Unset<GlobG>(); else lock.template Set<GlobG>(GlobG()); hasG = !hasG; all = 1; touched[2] = 1; break;
            }
        } else if constexpr (Tecs::is_write_allowed<CompA, L>()) {
            if (ent && vp_choose("write", 2)) { valA.x = vp_u32("x"); ent.Set<CompA>(lock, valA); touched[0] = 1; }
        }
    }
    if (running) {
        for (int i = 0; i < 3; i++) {
            if (perm<L>(i) == 1) expC[i].add(T::ReadUnlock);
            if (perm<L>(i) == 2) {
                if (touched[i]) { expC[i].add(T::CommitLock); expC[i].add(T::CommitUnlock); }
                else expC[i].opt();
                expC[i].add(T::WriteUnlock);
            }
        }
        if (ar) {
            if (all) { expMeta.add(T::CommitLock); expMeta.add(T::CommitUnlock); }
            else expMeta.opt();
            expMeta.add(T::WriteUnlock);
        } else expMeta.add(T::ReadUnlock);
        expTx.add(T::TransactionEnd);
    }
}
void vp_main() {
    for (int i = 0; i < NSTEP; i++) {
        switch (vp_choose("step", 8)) {
        case 0: start(); break;
        case 1: stop(); break;
        case 2: tx<AddRemove>(); break;
        case 3: tx<WriteAll>(); break;
        case 4: tx<Read<CompA>, Write<GlobG>>(); break;
        case 5: tx<>(); break;
        case 6: tx<Write<CompA>, Read<CompB>>(); break;
        case 7: tx<ReadAll>(); break;
        }
    }
    stop();
    { // no trace: nothing may be recorded, and the next trace starts empty
        auto lock = ecs.StartTransaction<Read<CompA>>();
    }
    start();
    tx<Write<CompA>>();
    stop();
    vp_reach("end");
}
