// C09: lock conversions, subsets and dynamic requests grant exactly what the transaction holds, for every pair of the listed permission sets.
#include "hist.h"
#include <optional>
using namespace Tecs;
#ifdef VIA
    #define VIA_ 1
#else
    #define VIA_ 0
#endif
using E3 = ECS<CompA, GlobG, CompB>;
static E3 ecs;
template<typename... P> struct PS { using L = Lock<E3, P...>; using D = DynamicLock<E3, P...>; };
struct Bits { bool ra, wa, rb, wb, rg, wg, ar; };
constexpr bool covers(Bits s, Bits t) {
    return (!t.ra || s.ra) && (!t.wa || s.wa) && (!t.rb || s.rb) && (!t.wb || s.wb) && (!t.rg || s.rg) && (!t.wg || s.wg) && (!t.ar || s.ar);
}
template<typename T, typename... P> struct has : std::disjunction<std::is_same<T, P>...> {};
// what a permission list means, independently of the library
template<typename C, typename P> struct rd : std::false_type {};
template<typename C, typename P> struct wr : std::false_type {};
template<typename C, typename... X> struct rd<C, Read<X...>> : has<C, X...> {};
template<typename C, typename... X> struct rd<C, Write<X...>> : has<C, X...> {};
template<typename C, typename... X> struct wr<C, Write<X...>> : has<C, X...> {};
template<typename C> struct rd<C, ReadAll> : std::true_type {};
template<typename C> struct rd<C, WriteAll> : std::true_type {};
template<typename C> struct wr<C, WriteAll> : std::true_type {};
template<typename C> struct rd<C, AddRemove> : std::true_type {};
template<typename C> struct wr<C, AddRemove> : std::true_type {};
template<typename S> struct bits;
template<typename... P> struct bits<PS<P...>> {
    static constexpr Bits v = {(rd<CompA, P>::value || ...), (wr<CompA, P>::value || ...), (rd<CompB, P>::value || ...), (wr<CompB, P>::value || ...),
        (rd<GlobG, P>::value || ...), (wr<GlobG, P>::value || ...), (std::is_same<P, AddRemove>::value || ...)};
};
using Sets = std::tuple<PS<>, PS<Read<CompA>>, PS<Read<CompB, GlobG>>, PS<ReadAll>, PS<Write<CompA>>, PS<Write<CompB>, Read<CompA>>, PS<Read<CompA, CompB>, Write<GlobG>>,
    PS<Write<CompA, CompB>>, PS<WriteAll>, PS<AddRemove>, PS<Write<CompA>, ReadAll>, PS<Read<CompA>, Write<CompA, GlobG>>, PS<AddRemove, Read<CompA>>>;
static Ent ent, fresh;
static CompA prevA, curA;
static GlobG prevG, curG;
static bool wroteA, wroteG, created, freshA, lostB;
template<typename V> static bool lists(const V &v, Ent a, Ent b) { // exactly the non-null ones of a and b, once each; a removed entity may leave a null entry behind
    unsigned na = 0, nb = 0, n = 0;
    for (const Ent &e : v) { if (lostB && !e) continue; n++; na += a && e == a; nb += b && e == b; }
    return na == (a ? 1u : 0u) && nb == (b ? 1u : 0u) && n == na + nb;
}

template<typename T, typename L> static void view(const L &lock, bool pending) {
    constexpr Bits t = bits<T>::v;
    if constexpr (t.ra) vp_assert(ent.Get<const CompA>(lock) == (pending && wroteA ? curA : prevA), pending ? "a converted lock does not see the pending value" : "a read-only subset does not show the previous value");
    if constexpr (t.rg) vp_assert(lock.template Get<const GlobG>() == (pending && wroteG ? curG : prevG), pending ? "a converted lock does not see the pending global" : "a read-only subset does not show the previous global");
    if constexpr (t.ra) vp_assert(ent.GetPrevious<CompA>(lock) == prevA, "the previous value differs through a converted lock");
    vp_assert(ent.Exists(lock) && ent.template Has<CompA>(lock), "an entity is missing through a converted lock");
    if (created) vp_assert(fresh.Exists(lock) == pending, "a pending creation has the wrong visibility through a converted lock");
    Ent f = created && pending ? fresh : Ent(), none;
    vp_assert(lists(lock.Entities(), ent, f), "a listing through a converted lock is wrong");
    vp_assert(lists(lock.template EntitiesWith<CompA>(), ent, freshA && pending ? fresh : none), "a component listing through a converted lock is wrong");
    vp_assert(lists(lock.template EntitiesWith<CompB>(), lostB && pending ? none : ent, none), "a component listing through a converted lock is wrong");
    vp_assert(lists(lock.PreviousEntities(), ent, none) && lists(lock.template PreviousEntitiesWith<CompA>(), ent, none) && lists(lock.template PreviousEntitiesWith<CompB>(), ent, none), "a previous listing through a converted lock is wrong");
    vp_assert(ent.template Has<CompB>(lock) == !(lostB && pending) && ent.template Had<CompB>(lock) && ent.template Had<CompA>(lock), "a component has the wrong visibility through a converted lock");
    if (created) vp_assert(fresh.template Has<CompA>(lock) == (freshA && pending) && !fresh.template Had<CompA>(lock), "a pending component has the wrong visibility through a converted lock");
    vp_assert(lock.template Has<GlobG>() && lock.template Had<GlobG>(), "a global is missing through a converted lock");
}
template<typename S, typename T> struct Pair;
template<typename... SP, typename... TP> struct Pair<PS<SP...>, PS<TP...>> {
    using S = PS<SP...>;
    using T = PS<TP...>;
    using LS = typename S::L;
    using LT = typename T::L;
    static constexpr Bits s = bits<S>::v, t = bits<T>::v;
    static constexpr bool ok = covers(s, t);
    // the compile-time decisions
    static void decisions() {
        vp_assert(LS::template has_permissions<TP...>() == ok, "has_permissions differs from what the lock holds");
        vp_assert(LS::template has_permissions<LT>() == ok, "has_permissions of a lock type differs from what the lock holds");
        vp_assert(LT::template is_lock_subset<SP...>() == ok, "is_lock_subset differs from the subset relation");
        vp_assert(std::is_constructible<LT, const LS &>::value == ok, "a lock converts to one it does not cover (or does not convert to one it covers)");
        vp_assert(Tecs::is_read_allowed<CompA, LT>::value == t.ra && Tecs::is_write_allowed<CompA, LT>::value == t.wa, "permissions on A are misjudged");
        vp_assert(Tecs::is_read_allowed<CompB, LT>::value == t.rb && Tecs::is_write_allowed<CompB, LT>::value == t.wb, "permissions on B are misjudged");
        vp_assert(Tecs::is_read_allowed<GlobG, LT>::value == t.rg && Tecs::is_write_allowed<GlobG, LT>::value == t.wg, "permissions on G are misjudged");
        vp_assert(Tecs::is_add_remove_allowed<LT>::value == t.ar, "add/remove permission is misjudged");
        if constexpr (t.ra) {
            using R = std::remove_reference_t<decltype(std::declval<Ent>().template Get<CompA>(std::declval<const LT &>()))>;
            vp_assert(std::is_const<R>::value == !t.wa, "a mutable reference is handed out without write permission");
        }
        if constexpr (t.rg) {
            using R = std::remove_reference_t<decltype(std::declval<const LT &>().template Get<GlobG>())>;
            vp_assert(std::is_const<R>::value == !t.wg, "a mutable reference to a global is handed out without write permission");
        }
    }
    static void granted(const LS &lock) {
        decisions();
        if constexpr (ok && std::is_constructible<LT, const LS &>::value) {
            LT c = lock;
            view<T>(c, true);
        }
        DynamicLock<E3> d(lock);
        auto r = d.template TryLock<TP...>();
        vp_assert(r.has_value() == ok, ok ? "a dynamic request for held permissions fails" : "a dynamic request grants permissions the transaction does not hold");
        if (r) view<T>(*r, true);
        DynamicLock<E3, SP...> d2(lock);
        auto r2 = d2.template TryLock<TP...>();
        vp_assert(r2.has_value() == ok, ok ? "a dynamic request for statically held permissions fails" : "a dynamic request grants permissions the lock does not hold");
        if (r2) view<T>(*r2, true);
        // requests through the read-only subset never see pending changes and never grant writes
        auto ro = lock.ReadOnlySubset();
        DynamicLock<E3> d3(ro);
        auto r3 = d3.template TryLock<TP...>();
        constexpr bool readOnly = !t.wa && !t.wb && !t.wg && !t.ar;
        if (readOnly) vp_assert(r3.has_value() == ok, "a dynamic request for reads through a read-only subset is misjudged");
        if (!ok) vp_assert(!r3.has_value(), "a dynamic request through a read-only subset grants permissions the transaction does not hold");
        if (r3 && readOnly) view<T>(*r3, false);
    }
    // S transaction, narrowed to T, then asked for U
    template<typename U> struct Via;
    template<typename... UP> struct Via<PS<UP...>> {
        static void run(const LS &lock) {
            if constexpr (ok && std::is_constructible<LT, const LS &>::value) {
                constexpr Bits u = bits<PS<UP...>>::v;
                LT narrow = lock;
                DynamicLock<E3> d(narrow);
                auto r = d.template TryLock<UP...>();
                if (!covers(s, u)) vp_assert(!r.has_value(), "narrowing and asking again grants permissions the transaction does not hold");
                if (covers(t, u)) vp_assert(r.has_value(), "a dynamic request for permissions of a narrowed lock fails");
                if (r) view<PS<UP...>>(*r, true);
                if constexpr (covers(t, u) && std::is_constructible<Lock<E3, UP...>, const LT &>::value) {
                    Lock<E3, UP...> c = narrow;
                    view<PS<UP...>>(c, true);
                }
            }
        }
    };
};
template<typename S, typename L> static void pending(const L &lock) {
    constexpr Bits s = bits<S>::v;
    if constexpr (s.wa) if (vp_choose("writeA", 2)) { curA = symA(); ent.Set<CompA>(lock, curA); wroteA = true; }
    if constexpr (s.wg) if (vp_choose("writeG", 2)) { curG = symG(); lock.template Set<GlobG>(curG); wroteG = true; }
    if constexpr (s.ar) {
        unsigned k = vp_choose("create", 4);
        if (k == 1 || k == 2) { fresh = lock.NewEntity(); created = true; }
        if (k == 2) { fresh.Set<CompA>(lock, curA); freshA = true; }
        if (k == 3) { ent.Unset<CompB>(lock); lostB = true; }
    }
}
template<typename S> struct Start;
template<typename... SP> struct Start<PS<SP...>> {
    template<typename... T> static void each(const Lock<E3, SP...> &lock, unsigned pick, std::tuple<T...> *) {
        unsigned i = 0;
        if (!VIA_) ((i++ == pick ? Pair<PS<SP...>, T>::granted(lock) : (void)0), ...);
    }
    template<typename M, typename... U> static void viaEach(const Lock<E3, SP...> &lock, unsigned pick, std::tuple<U...> *) {
        unsigned i = 0;
        ((i++ == pick ? Pair<PS<SP...>, M>::template Via<U>::run(lock) : (void)0), ...);
    }
    static void run() {
        auto lock = ecs.StartTransaction<SP...>();
        pending<PS<SP...>>(lock);
        constexpr unsigned N = std::tuple_size<Sets>::value;
        unsigned pick = vp_choose("target", N);
#if VIA_
        unsigned via = vp_choose("via", 3);
        if (via == 0) viaEach<PS<ReadAll>>(lock, pick, (Sets *)nullptr);
        if (via == 1) viaEach<PS<Write<CompA>>>(lock, pick, (Sets *)nullptr);
        if (via == 2) viaEach<PS<Read<CompA>, Write<GlobG>>>(lock, pick, (Sets *)nullptr);
#else
        each(lock, pick, (Sets *)nullptr);
#endif
        auto ro = lock.ReadOnlySubset();
        constexpr Bits s = bits<PS<SP...>>::v;
        vp_assert(ent.Exists(ro), "an entity is missing through a read-only subset");
        vp_assert(lists(ro.Entities(), ent, Ent()) && lists(ro.template EntitiesWith<CompA>(), ent, Ent()) && lists(ro.template EntitiesWith<CompB>(), ent, Ent()), "a listing through a read-only subset shows pending changes");
        vp_assert(ent.template Has<CompB>(ro), "a component is missing through a read-only subset");
        if (created) vp_assert(!fresh.Exists(ro), "a read-only subset shows a pending creation");
        if constexpr (s.ra) {
            vp_assert(ent.Get<CompA>(ro) == prevA, "a read-only subset does not show the previous value");
            using R = std::remove_reference_t<decltype(ent.Get<CompA>(ro))>;
            vp_assert(std::is_const<R>::value, "a read-only subset hands out a mutable reference");
        }
        if constexpr (s.rg) vp_assert(ro.template Get<GlobG>() == prevG, "a read-only subset does not show the previous global");
    }
};
template<typename... S> static void start(unsigned pick, std::tuple<S...> *) {
    unsigned i = 0;
    ((i++ == pick ? Start<S>::run() : (void)0), ...);
}
void vp_main() {
    {
        auto lock = ecs.StartTransaction<AddRemove>();
        ent = lock.NewEntity();
        ent.Set<CompA>(lock, prevA = symA());
        ent.Set<CompB>(lock, CompB{1});
        lock.Set<GlobG>(prevG = symG());
    }
    start(vp_choose("source", std::tuple_size<Sets>::value), (Sets *)nullptr);
    {
        auto lock = ecs.StartTransaction<ReadAll>();
        vp_assert(lists(lock.Entities(), ent, created ? fresh : Ent()), "a conversion changed what is committed");
        vp_assert(lists(lock.template EntitiesWith<CompB>(), lostB ? Ent() : ent, Ent()), "a conversion changed what is committed");
        vp_assert(ent.Get<CompA>(lock) == (wroteA ? curA : prevA), "a conversion changed what is committed");
        vp_assert(lock.Get<GlobG>() == (wroteG ? curG : prevG), "a conversion changed what is committed");
    }
    vp_reach("end");
}
