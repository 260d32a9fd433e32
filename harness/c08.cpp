// C08: global components follow the history of set, default-creating get and unset, in every kind of transaction.
#include "hist.h"
#ifndef TXS
    #define TXS {2, 1, 1}
#endif
static Ecs ecs;
template<typename F>
static bool throws(F f) {
    try { f(); } catch (...) { return true; }
    return false;
}
struct Globs { bool hasG = false, hasH = false; GlobG g; GlobH h; };
static World ents; // entities must stay as they are
template<typename L>
static void check(const L &lock, const Globs &c, const Globs &p) {
    vp_assert(lock.template Has<GlobG>() == c.hasG && lock.template Has<GlobH>() == c.hasH, "current presence of a global component is wrong");
    vp_assert(lock.template Had<GlobG>() == p.hasG && lock.template Had<GlobH>() == p.hasH, "previous presence of a global component is wrong");
    vp_assert(lock.template Has<GlobG, GlobH>() == (c.hasG && c.hasH), "presence of several global components is wrong");
    vp_assert(lock.template Had<GlobG, GlobH>() == (p.hasG && p.hasH), "previous presence of several global components is wrong");
    if (c.hasG) vp_assert(lock.template Get<const GlobG>() == c.g, "current value of a global component is wrong");
    if (c.hasH) vp_assert(lock.template Get<const GlobH>() == c.h, "current value of a global component is wrong");
    if (p.hasG) vp_assert(lock.template GetPrevious<GlobG>() == p.g, "previous value of a global component is wrong");
    if (p.hasH) vp_assert(lock.template GetPrevious<GlobH>() == p.h, "previous value of a global component is wrong");
    vp_assert(ents.e[0].h.Exists(lock) && ents.e[0].h.template Get<const CompA>(lock) == ents.e[0].a, "an operation on a global component affected an entity");
    unsigned n = 0;
    for (const Ent &e : lock.template EntitiesWith<CompA>()) n += e == ents.e[0].h;
    vp_assert(n == 1 && lock.Entities().size() == 1, "an operation on a global component affected a listing");
}
template<typename L>
static void op(const L &lock, Globs &c, const Globs &p) {
    constexpr bool ar = Tecs::is_add_remove_allowed<L>();
    constexpr bool wr = Tecs::is_write_allowed<GlobG, L>();
    switch (vp_choose("op", 2 + (wr ? 1 : 0) + (ar ? 3 : 0))) {
    case 0: { // read as const
        GlobG v;
        bool t = throws([&] { v = lock.template Get<const GlobG>(); });
        vp_assert(t == !c.hasG, "reading a missing global component as const does not throw (or a valid read throws)");
        if (!t && c.hasG) vp_assert(v == c.g, "a read of a global component returns another value");
        break;
    }
    case 1: {
        GlobG v;
        bool t = throws([&] { v = lock.template GetPrevious<GlobG>(); });
        vp_assert(t == !p.hasG, "reading the previous value of a missing global component does not throw (or a valid read throws)");
        if (!t && p.hasG) vp_assert(v == p.g, "a read of a global component returns another previous value");
        break;
    }
    default: break;
    case 2:
        if constexpr (wr) {
            GlobG v = symG();
            GlobG seen = v;
            bool had = c.hasG, t;
            unsigned which = vp_choose("write", 4);
            switch (which) {
            case 0: t = throws([&] { lock.template Set<GlobG>(v); }); break;
            case 1: t = throws([&] { lock.template Set<GlobG>(GlobG{v}); }); break;
            case 2: t = throws([&] { GlobG &r = lock.template Get<GlobG>(); seen = r; r = v; }); if (!t && had) vp_assert(seen == c.g, "Get shows another value"); if (!t && !had) vp_assert(seen == GlobG(), "a newly created global component has not its default value"); break;
            default: t = throws([&] { GlobG &r = lock.template Get<GlobG>(); v = r; }); if (had) v = c.g; else v = GlobG(); break;
            }
            vp_assert(t == (!had && !ar), "writing a missing global component without add/remove permission does not throw (or a valid write throws)");
            if (!t) { c.hasG = true; c.g = v; }
        }
        break;
    case 3: if constexpr (ar) { lock.template Unset<GlobG>(); c.hasG = false; } break;
    case 4: if constexpr (ar) { uint64_t v = vp_u64("hv"); lock.template Set<GlobH>(GlobH{v}); c.hasH = true; c.h = GlobH{v}; } break;
    case 5: if constexpr (ar) { lock.template Unset<GlobH, GlobG>(); c.hasG = c.hasH = false; } break;
    }
}
void vp_main() {
    Globs c;
    {
        auto lock = ecs.StartTransaction<Tecs::AddRemove>();
        unsigned k = opNew(lock, ents);
        ents.e[k].h.Set<CompA>(lock, ents.e[k].a = symA());
    }
    static const int txs[] = TXS;
    for (int n : txs) {
        const Globs p = c;
        switch (vp_choose("kind", 5)) {
        case 0: { auto lock = ecs.StartTransaction<Tecs::AddRemove>(); check(lock, c, p); for (int i = 0; i < n; i++) { op(lock, c, p); check(lock, c, p); } break; }
        case 1: { auto lock = ecs.StartTransaction<Tecs::WriteAll>(); check(lock, c, p); for (int i = 0; i < n; i++) { op(lock, c, p); check(lock, c, p); } break; }
        case 2: { auto lock = ecs.StartTransaction<Tecs::ReadAll>(); check(lock, c, p); op(lock, c, p); check(lock, c, p); break; }
        case 3: { auto lock = ecs.StartTransaction<Tecs::Read<GlobH, CompA>, Tecs::Write<GlobG>>(); check(lock, c, p); op(lock, c, p); check(lock, c, p); break; }
        case 4: { // several locks of one transaction
            auto lock = ecs.StartTransaction<Tecs::AddRemove>();
            Tecs::Lock<Ecs, Tecs::WriteAll> wl = lock;
            op(lock, c, p);
            check(wl, c, p);
            op(wl, c, p);
            check(lock, c, p);
            auto ro = lock.ReadOnlySubset();
            check(ro, p, p);
            break;
        }
        }
        auto lock = ecs.StartTransaction<Tecs::ReadAll>();
        check(lock, c, c);
    }
    auto lock = ecs.StartTransaction<Tecs::AddRemove>();
    check(lock, c, c);
    vp_reach("end");
}
