// Harness interface: symbolic under tse, read from a replay file natively.
#pragma once
#include <cstdint>
extern "C" {
uint8_t vp_u8(const char *name);
uint16_t vp_u16(const char *name);
uint32_t vp_u32(const char *name);
uint64_t vp_u64(const char *name);
uint32_t vp_range(const char *name, uint32_t lo, uint32_t hi);   // symbolic in [lo,hi]
uint32_t vp_choose(const char *name, uint32_t n);                // symbolic in [0,n), split into its values
void vp_assume(int c);
void vp_assert(int c, const char *msg);
void vp_reach(const char *label);
void vp_leakcheck();                                             // heap blocks allocated from here on must be gone at the end
[[noreturn]] void vp_stop();                                     // end of this path (nothing more to check)
uint64_t vp_concrete(uint64_t v);                                // split a symbolic value into its concrete values
uint32_t vp_replace32(uint32_t old, uint32_t v);                 // engine only
int vp_symbolic();                                               // 1 under the engine, 0 natively
void vp_main();
}
