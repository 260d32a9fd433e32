// Native side of vp.h: values come from a replay file ("name value" per line, in call order).
#include "vp.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
static std::vector<std::pair<std::string, uint64_t>> in;
static size_t pos = 0;
static uint64_t next(const char *name) {
    if (pos < in.size()) {
        if (in[pos].first != name) { printf("REPLAY-MISMATCH want %s have %s\n", name, in[pos].first.c_str()); fflush(stdout); _Exit(4); }
        return in[pos++].second;
    }
    return 0;
}
extern "C" {
uint8_t vp_u8(const char *n) { return next(n); }
uint16_t vp_u16(const char *n) { return next(n); }
uint32_t vp_u32(const char *n) { return next(n); }
uint64_t vp_u64(const char *n) { return next(n); }
uint32_t vp_range(const char *n, uint32_t lo, uint32_t hi) { uint64_t v = next(n); return v < lo ? lo : v > hi ? hi : v; }
uint32_t vp_choose(const char *n, uint32_t k) { uint64_t v = next(n); return v < k ? v : 0; }
void vp_assume(int c) { if (!c) { printf("REPLAY-ASSUME-FALSE\n"); fflush(stdout); _Exit(5); } }
void vp_assert(int c, const char *msg) { if (!c) { printf("REPLAY-ASSERT %s\n", msg); fflush(stdout); } }
void vp_reach(const char *) {}
void vp_leakcheck() {}
void vp_stop() { printf("REPLAY-END\n"); fflush(stdout); _Exit(0); }
uint64_t vp_concrete(uint64_t v) { return v; }
uint32_t vp_replace32(uint32_t, uint32_t) { return 0; }
int vp_symbolic() { return 0; }
}
int main(int argc, char **argv) {
    if (argc > 1) {
        FILE *f = fopen(argv[1], "r");
        char b[256];
        unsigned long long v;
        while (f && fscanf(f, "%255s %llu", b, &v) == 2) in.push_back({b, v});
        if (f) fclose(f);
    }
    vp_main();
    printf("REPLAY-END\n");
    return 0;
}
