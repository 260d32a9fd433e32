// C09 for ECS types with many components (permission and presence bitsets of one and of two words).
#include "vp.h"
#include <Tecs.hh>
#include <optional>
#include <utility>
using namespace Tecs;
template<unsigned N> struct C { uint16_t v = N; };
#ifndef NCOMP
    #define NCOMP 63
#endif
template<typename S> struct mk;
template<size_t... I> struct mk<std::index_sequence<I...>> { using E = ECS<C<I>...>; };
using E = typename mk<std::make_index_sequence<NCOMP>>::E;
static E ecs;
static Entity e1, e2;
using Pick = std::index_sequence<0, 31, NCOMP - 2, NCOMP - 1>;
static constexpr unsigned pick[] = {0, 31, NCOMP - 2, NCOMP - 1};
static uint16_t val[NCOMP];
static bool present[NCOMP];

template<unsigned K, typename L> static void checkOne(const L &lock, Entity e) {
    vp_assert(e.Has<C<K>>(lock) == present[K], "presence of a component among many differs from the history");
    if (present[K]) vp_assert(e.Get<const C<K>>(lock).v == val[K], "value of a component among many differs from the history");
    unsigned n = 0;
    for (auto &x : lock.template EntitiesWith<C<K>>()) n += x == e;
    vp_assert(n == present[K], "listing of a component among many differs from the history");
}
template<typename L, size_t... I> static void checkAll(const L &lock, Entity e, std::index_sequence<I...>) { (checkOne<I>(lock, e), ...); }

// a transaction writing component W and reading component R is asked for read and write access to every component of the selection
template<unsigned W, unsigned R, unsigned A, typename D> static void ask(const D &d) {
    bool rd = A == W || A == R, wr = A == W;
    auto r = d.template TryLock<Read<C<A>>>();
    vp_assert(r.has_value() == rd, "a dynamic request for reading one component of many is misjudged");
    auto w = d.template TryLock<Write<C<A>>>();
    vp_assert(w.has_value() == wr, "a dynamic request for writing one component of many is misjudged");
    auto b = d.template TryLock<Read<C<A>>, Write<C<W>>>();
    vp_assert(b.has_value() == rd, "a dynamic request for two components of many is misjudged");
    vp_assert(!d.template TryLock<AddRemove>().has_value(), "a dynamic request for add/remove permission is granted by a write transaction");
    vp_assert(d.template TryLock<>().has_value(), "a dynamic request for nothing fails");
    if (r) vp_assert(e1.Get<const C<A>>(*r).v == val[A], "a dynamically granted lock reads another value");
    if (w) vp_assert(e1.Get<C<A>>(*w).v == val[A], "a dynamically granted lock reads another value");
}
template<unsigned W, unsigned R, size_t... I> static void one(std::index_sequence<I...>) {
    auto lock = ecs.StartTransaction<Write<C<W>>, Read<C<R>>>();
    DynamicLock<E> d(lock);
    (ask<W, R, I>(d), ...);
    val[W] = vp_u16("w");
    e1.Get<C<W>>(lock).v = val[W];
    DynamicLock<E> ro(lock.ReadOnlySubset());
    vp_assert(!ro.template TryLock<Write<C<W>>>().has_value(), "a write is granted through a read-only subset");
    auto p = ro.template TryLock<Read<C<W>>>();
    vp_assert(p.has_value(), "a read through a read-only subset is refused");
}
template<unsigned W, size_t... I> static void second(unsigned r, std::index_sequence<I...> s) { ((pick[r] == I && W != I ? one<W, I>(s) : (void)0), ...); }
template<size_t... I> static void first(unsigned w, unsigned r, std::index_sequence<I...> s) { ((pick[w] == I ? second<I>(r, s) : (void)0), ...); }
template<unsigned K, typename L> static void unsetOne(const L &lock) { e1.Unset<C<K>>(lock); present[K] = false; }
template<typename L, size_t... I> static void unsetPick(const L &lock, unsigned k, std::index_sequence<I...>) { ((k == I ? unsetOne<I>(lock) : (void)0), ...); }
template<unsigned K, typename L> static void setOne(const L &lock) { val[K] = vp_u16("v"); e1.Set<C<K>>(lock).v = val[K]; present[K] = true; }
template<typename L, size_t... I> static void setAll(const L &lock, std::index_sequence<I...>) { (setOne<I>(lock), ...); }

void vp_main() {
    {
        auto lock = ecs.StartTransaction<AddRemove>();
        e2 = lock.NewEntity();
        e1 = lock.NewEntity();
        setAll(lock, Pick());
        checkAll(lock, e1, std::make_index_sequence<NCOMP>());
        vp_assert(!e2.Has<C<0>>(lock) && !e2.Has<C<NCOMP - 1>>(lock), "another entity got a component");
    }
    unsigned w = vp_choose("write", 4), r = vp_choose("read", 4);
    first(w, r, Pick());
    {
        auto lock = ecs.StartTransaction<AddRemove>();
        checkAll(lock, e1, Pick());
        unsetPick(lock, pick[vp_choose("unset", 4)], Pick());
        checkAll(lock, e1, Pick());
        DynamicLock<E> d(lock);
        vp_assert(d.TryLock<AddRemove>().has_value() && d.TryLock<WriteAll>().has_value() && d.TryLock<Write<C<NCOMP - 1>>>().has_value(), "an add/remove transaction refuses a dynamic request");
    }
    {
        auto lock = ecs.StartTransaction<ReadAll>();
        checkAll(lock, e1, std::make_index_sequence<NCOMP>());
        DynamicLock<E> d(lock);
        vp_assert(d.TryLock<ReadAll>().has_value() && !d.TryLock<WriteAll>().has_value() && !d.TryLock<Write<C<NCOMP - 1>>>().has_value() && d.TryLock<Read<C<NCOMP - 1>>>().has_value(), "a read transaction misjudges a dynamic request");
    }
    vp_reach("end");
}
