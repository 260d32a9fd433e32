// C14: a trace that has been running for any number of events (state of the event counter symbolic) is full, keeps its
// first events and has exactly its capacity.
#ifndef TECS_ENABLE_PERFORMANCE_TRACING
    #define TECS_ENABLE_PERFORMANCE_TRACING
#endif
#include "vp.h"
#include <Tecs.hh>
#include <cstring>
using T = Tecs::TraceEvent::Type;
enum { CAP = TECS_PERFORMANCE_TRACING_MAX_EVENTS };
static Tecs::TraceInfo ti;
template<typename W> static W get(size_t o) { W v; memcpy(&v, (char *)&ti + o, sizeof v); return v; }

extern "C" void vp_main() {
    ti.StartTrace();
    // Find the word that counts events: it reads k after k events, for k = 0..4 (more than the capacity as well).
    size_t off = 0, width = 0;
    uint32_t seen[5][sizeof(ti) / 4];
    for (unsigned k = 0; k < 5; k++) {
        for (size_t o = 0; o + 4 <= sizeof ti; o += 4) seen[k][o / 4] = get<uint32_t>(o);
        ti.Trace(k & 1 ? T::ReadUnlock : T::ReadLock);
    }
    for (size_t o = 0; o + 4 <= sizeof ti; o += 4) {
        bool is = true;
        for (unsigned k = 0; k < 5; k++) is = is && seen[k][o / 4] == k;
        if (is && !width) {
            off = o; width = 4;
        }
    }
    if (!width) { (void)ti.StopTrace(); vp_reach("end"); return; } // no such counter: nothing to be decided here
    // Is it the lower half of a 64-bit counter?  (as if 2^32 - 1 events had been recorded, then one more)
    uint32_t low = get<uint32_t>(off), ones = ~0u;
    if (off % 8 == 0 && off + 8 <= sizeof ti && get<uint32_t>(off + 4) == 0) {
        memcpy((char *)&ti + off, &ones, 4);
        ti.Trace(T::WriteLock);
        if (get<uint32_t>(off + 4) == 1) width = 8;
        uint32_t zero = 0;
        memcpy((char *)&ti + off, &low, 4);
        if (width == 8) memcpy((char *)&ti + off + 4, &zero, 4);
    }
    // Any number of events since the start, up to 2^62 (2^32 events take minutes, 2^62 take centuries)
    uint64_t n = vp_u64("events");
    vp_assume(n >= 5 && n < (1ull << 62));
    if (width == 8) memcpy((char *)&ti + off, &n, 8);
    else { uint32_t m = (uint32_t)n; memcpy((char *)&ti + off, &m, 4); }
    ti.Trace(T::WriteLock);
    ti.Trace(T::WriteUnlock);
    auto s = ti.StopTrace();
    vp_assert(s.size() == CAP, "a trace that has been full is shorter than its capacity after more events");
    for (unsigned i = 0; i < CAP; i++) vp_assert(s.begin()[i].type == (i & 1 ? T::ReadUnlock : T::ReadLock), "a recorded event is overwritten after the trace was full");
    vp_reach("end");
}
