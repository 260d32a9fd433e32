// C16: instances are independent: whatever happens in one, in any interleaving of their transactions on a thread, is invisible in the other.
#include "hist.h"
#ifndef NH
    #define NH 3
#endif
static Ecs ecs[2];
static World w[2], prev[2]; // pending and committed state
using Tecs::AddRemove;
using ARL = Tecs::Lock<Ecs, AddRemove>;
using WRL = Tecs::Lock<Ecs, Tecs::WriteAll>;
#include <optional>
static std::optional<ARL> ar[2];
static std::optional<WRL> wr[2];
static Tecs::Observer<Ecs, Tecs::EntityEvent> oe[2];
static Tecs::Observer<Ecs, Tecs::ComponentEvent<CompA>> oa[2];
static Tecs::Observer<Ecs, Tecs::ComponentEvent<GlobG>> og[2];

// handles of one instance mean nothing in the other
template<typename L> static void foreign(const L &lock, unsigned i) {
    for (unsigned k = 0; k < w[1 - i].n; k++) {
        const Ent h = w[1 - i].e[k].h;
        vp_assert(!h.Exists(lock) && !h.Existed(lock) && !h.template Has<CompA>(lock) && !h.template Had<CompB>(lock), "a handle of another instance exists");
    }
    vp_assert(lock.GetInstance().GetInstanceId() == ecs[i].GetInstanceId() && &lock.GetInstance() == &ecs[i], "a lock refers to another instance");
}
static void check() {
    for (unsigned i = 0; i < 2; i++) {
        if (ar[i]) { checkCurrent(*ar[i], w[i], true, true, ""); checkPrevious(*ar[i], prev[i], prev[i].n, nullptr, false); foreign(*ar[i], i); }
        else if (wr[i]) { checkCurrent(*wr[i], w[i], true, false, ""); foreign(*wr[i], i); }
        else {
            auto lock = ecs[i].StartTransaction<Tecs::ReadAll>();
            checkCurrent(lock, w[i], true, false, "");
            foreign(lock, i);
        }
    }
}
static void release(unsigned i) {
    bool any = ar[i].has_value();
    ar[i].reset();
    wr[i].reset();
    if (any) { // exactly this commit's events, in this instance only
        for (unsigned j = 0; j < 2; j++) {
            if (ar[j] || wr[j]) continue;
            unsigned want[3] = {}, got[3] = {};
            if (j == i) {
                for (unsigned k = 0; k < w[i].n; k++) {
                    bool was = k < prev[i].n && prev[i].e[k].live, is = w[i].e[k].live;
                    want[0] += was != is;
                    want[1] += (was && prev[i].e[k].hasA) != (is && w[i].e[k].hasA);
                }
                want[2] = prev[i].hasG != w[i].hasG;
            }
            auto lock = ecs[j].StartTransaction<>();
            Tecs::EntityEvent e; Tecs::ComponentEvent<CompA> a; Tecs::ComponentEvent<GlobG> g;
            while (oe[j].Poll(lock, e)) { got[0]++; vp_assert(Tecs::IdentifierFromGeneration(e.entity.generation) == ecs[j].GetInstanceId(), "an event carries an entity of another instance"); }
            while (oa[j].Poll(lock, a)) got[1]++;
            while (og[j].Poll(lock, g)) got[2]++;
            vp_assert(got[0] == want[0] && got[1] == want[1] && got[2] == want[2], "a commit produces events in another instance (or not in its own)");
        }
    }
    prev[i] = w[i];
}
void vp_main() {
    vp_assert(ecs[0].GetInstanceId() != ecs[1].GetInstanceId(), "two instances have the same identifier");
    unsigned pop[2] = {(unsigned)vp_choose("pop0", 2) + 1, (unsigned)vp_choose("pop1", 2) * 2};
    for (unsigned i = 0; i < 2; i++) {
        populate(ecs[i], w[i], pop[i]);
        prev[i] = w[i];
        auto lock = ecs[i].StartTransaction<AddRemove>();
        oe[i] = lock.Watch<Tecs::EntityEvent>();
        oa[i] = lock.Watch<Tecs::ComponentEvent<CompA>>();
        og[i] = lock.Watch<Tecs::ComponentEvent<GlobG>>();
    }
    check();
    unsigned i = 0;
    for (unsigned step = 0; step < NH; step++) {
        i = vp_choose("instance", 2);
        if (!ar[i] && !wr[i]) {
            if (vp_choose("kind", 2) == 0) ar[i].emplace(ecs[i].StartTransaction<AddRemove>());
            else wr[i].emplace(ecs[i].StartTransaction<Tecs::WriteAll>());
        }
        if (ar[i]) {
            arOp(*ar[i], w[i], OPSET);
            // operations through handles of the other instance are rejected
            if (w[1 - i].n) {
                const Ent h = w[1 - i].e[0].h;
                bool t = false;
                try { h.Set<CompA>(*ar[i], CompA()); } catch (const std::exception &) { t = true; }
                vp_assert(t, "a write through a handle of another instance is accepted");
                t = false;
                try { h.Destroy(*ar[i]); } catch (const std::exception &) { t = true; }
                vp_assert(t, "a destroy through a handle of another instance is accepted");
            }
        } else wOp(*wr[i], w[i]);
        check();
        if (vp_choose("release", 2)) { release(i); check(); }
    }
    release(0);
    release(1);
    check();
    { // afterwards both still create entities
        for (unsigned k = 0; k < 2; k++) {
            auto lock = ecs[k].StartTransaction<AddRemove>();
            opNew(lock, w[k]);
        }
        check();
    }
    vp_reach("end");
}
