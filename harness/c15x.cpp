// C15: when the index type is exhausted, creation throws and the existing entities stay usable.
#include "vp.h"
#include <Tecs.hh>
#include <algorithm>
#ifndef CAPACITY
    #define CAPACITY 65534
#endif
struct CompA { uint32_t x = 1; };
using Ecs = Tecs::ECS<CompA>;
using Ent = Tecs::Entity;
static Ecs ecs;
template<typename F> static bool throws(F f) {
    try { f(); } catch (...) { return true; }
    return false;
}
static Ent first, last, mid;
static CompA v0, v1, v2;
template<typename L> static void usable(const L &lock) {
    vp_assert(first.Exists(lock) && last.Exists(lock) && mid.Exists(lock), "an existing entity is gone after the index type was exhausted");
    vp_assert(first.template Get<const CompA>(lock).x == v0.x && mid.template Get<const CompA>(lock).x == v1.x && last.template Get<const CompA>(lock).x == v2.x, "a value changed after the index type was exhausted");
}
void vp_main() {
    v0.x = vp_u32("v0"); v1.x = vp_u32("v1"); v2.x = vp_u32("v2");
    unsigned split = vp_choose("commitEarly", 2); // exhausted in the same or in a later transaction
    unsigned n = 0;
    auto fill = [&](auto &lock, unsigned upTo) {
        for (; n < upTo; n++) {
            Ent e = lock.NewEntity();
            if (n == 0) first = e;
            if (n == CAPACITY / 2) mid = e;
            last = e;
        }
    };
    if (split) { auto lock = ecs.StartTransaction<Tecs::AddRemove>(); fill(lock, CAPACITY / 2 + 7); }
    {
        auto lock = ecs.StartTransaction<Tecs::AddRemove>();
        fill(lock, CAPACITY);
        first.Set<CompA>(lock, v0); mid.Set<CompA>(lock, v1); last.Set<CompA>(lock, v2);
        vp_assert(first != last && first != mid && mid != last, "two entities share a handle");
        vp_assert(throws([&] { lock.NewEntity(); }), "creating an entity beyond the index type does not throw");
        usable(lock);
    }
    {
        auto lock = ecs.StartTransaction<Tecs::ReadAll>();
        usable(lock);
        vp_assert(lock.Entities().size() == CAPACITY, "the listing does not have all entities");
    }
    {
        auto lock = ecs.StartTransaction<Tecs::AddRemove>();
        vp_assert(throws([&] { lock.NewEntity(); }), "creating an entity beyond the index type does not throw");
        usable(lock);
        Ent f = first;
        f.Destroy(lock);
        vp_assert(!first.Exists(lock) && mid.Exists(lock), "destroying an entity after exhaustion");
    }
    {
        auto lock = ecs.StartTransaction<Tecs::AddRemove>();
        Ent e;
        vp_assert(!throws([&] { e = lock.NewEntity(); }), "a freed index cannot be used after exhaustion");
        vp_assert(e.Exists(lock) && e != first && !first.Exists(lock) && !e.Has<CompA>(lock), "reuse after exhaustion");
        vp_assert(throws([&] { lock.NewEntity(); }), "creating an entity beyond the index type does not throw");
        vp_assert(mid.Get<const CompA>(lock).x == v1.x && last.Get<const CompA>(lock).x == v2.x, "a value changed after the index type was exhausted");
    }
    {
        auto lock = ecs.StartTransaction<Tecs::ReadAll>();
        vp_assert(lock.Entities().size() == CAPACITY && lock.EntitiesWith<CompA>().size() == 2, "the listings after exhaustion");
    }
    vp_reach("end");
}
