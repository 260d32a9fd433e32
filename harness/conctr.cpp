// C14 under concurrency: events recorded by different threads never share a slot, never leave the buffer.
#ifndef TECS_ENABLE_PERFORMANCE_TRACING
    #define TECS_ENABLE_PERFORMANCE_TRACING
#endif
#include "vp.h"
#include <Tecs.hh>
using namespace Tecs;
extern "C" {
void vp_mark(const char *name);
void vp_shared(const void *p, uint64_t n);
}
static TraceInfo ti;
using T = TraceEvent::Type;
extern "C" void vp_setup() {
    vp_shared(&ti, sizeof(ti));
    ti.StartTrace();
    for (int i = 0; i < PRE; i++) ti.Trace(T::WriteLock);
}
extern "C" {
void t_one() { vp_mark("start"); ti.Trace(T::ReadLock); vp_mark("done"); }
void t_two() { vp_mark("start"); ti.Trace(T::ReadLock); ti.Trace(T::ReadUnlock); vp_mark("done"); }
void t_three() { vp_mark("start"); ti.Trace(T::WriteLock); ti.Trace(T::CommitLock); ti.Trace(T::WriteUnlock); vp_mark("done"); }
}
