// C10 with as many instances as a thread can use at once (default limit), and with many transactions one after another.
#include "vp.h"
#include <Tecs.hh>
#include <algorithm>
#include <optional>
struct CompA {
    uint32_t x = 0;
};
using E1 = Tecs::ECS<CompA>;
using RD = Tecs::Lock<E1, Tecs::Read<CompA>>;
#ifndef LIMIT
    #define LIMIT 64
#endif
#ifndef NTX
    #define NTX 66000
#endif
static constexpr unsigned NI = LIMIT + 1;
static E1 ecs[NI];
static std::optional<RD> lock[NI];
static bool start(unsigned i) {
    try {
        lock[i].emplace(ecs[i].StartTransaction<Tecs::Read<CompA>>());
        return true;
    } catch (const std::exception &) {
        return false;
    }
}
static size_t ids[NTX];
void vp_main() {
    if (vp_choose("mode", 2) == 0) {
        for (unsigned i = 0; i < LIMIT; i++) vp_assert(start(i), "a transaction below the limit of simultaneous transactions is refused");
        vp_assert(!start(LIMIT), "a transaction beyond the limit of simultaneous transactions is started");
        for (unsigned i = 0; i < LIMIT; i++) {
            bool thrown = false;
            try { auto l = ecs[i].StartTransaction<>(); } catch (const std::exception &) { thrown = true; }
            vp_assert(thrown, "a nested transaction was started");
        }
        unsigned r = vp_choose("release", LIMIT);
        lock[r].reset(); // any one of them
        vp_assert(!start((r + 1) % LIMIT), "a nested transaction was started");
        vp_assert(start(LIMIT), "a transaction is refused after another one was released");
        vp_assert(!start(r), "a transaction beyond the limit of simultaneous transactions is started");
        unsigned order = vp_choose("order", 2);
        for (unsigned k = 0; k < NI; k++) {
            unsigned i = order ? NI - 1 - k : k;
            bool held = lock[i].has_value();
            lock[i].reset();
            if (held) { vp_assert(start(i), "a transaction could not be started although none is active"); lock[i].reset(); }
        }
        for (unsigned i = 0; i < LIMIT; i++) vp_assert(start(i), "a transaction below the limit of simultaneous transactions is refused");
    } else {
        for (unsigned k = 0; k < NTX; k++) {
            auto l = ecs[0].StartTransaction<>();
            ids[k] = l.GetTransactionId();
        }
        std::sort(ids, ids + NTX);
        bool same = false;
        for (unsigned k = 1; k < NTX; k++) same |= ids[k] == ids[k - 1];
        vp_assert(!same, "a transaction identifier is reused");
    }
    vp_reach("end");
}
