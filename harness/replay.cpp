// Native side of the concurrency harness: runs the real code on real threads, forced into the interleaving found by the
// solver.  Compiled without ThreadSanitizer so that the scheduler itself does not order anything in its eyes.
#include <atomic>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <pthread.h>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>
struct Step { int t, idx; char k; uint64_t addr; uint64_t val; };
static std::vector<Step> sch;
static std::vector<std::string> names, leaf;
static std::vector<int> park;
static uintptr_t lo, len;
static std::atomic<size_t> head{0};
static std::atomic<int> diverged{0}, freeRun{0}, doneThreads{0};
static std::atomic<uint8_t> finished[8], parked[8], limited[8], sleeping[8];
static thread_local int me = -1;
static thread_local size_t mine = 0; // next own step in the schedule
static std::vector<std::vector<size_t>> own;
struct Waiter { void *p; int t; bool more; bool woken; };
static std::vector<Waiter *> waiters;
static std::atomic_flag wl = ATOMIC_FLAG_INIT;
struct WL { WL() { while (wl.test_and_set()) ; } ~WL() { wl.clear(); } };
static const char *mode = "";

static void nap() { std::this_thread::sleep_for(std::chrono::microseconds(50)); }
static void blockForever() { while (true) std::this_thread::sleep_for(std::chrono::seconds(1)); }
static void diverge(const char *why, char k, uint64_t a) {
    printf("REPLAY-DIVERGED thread %d at own step %zu: %s (%c %lu)\n", me, mine, why, k, (unsigned long)a);
    fflush(stdout);
    _exit(9);
}
// waits until it is this thread's turn; false: the schedule has no further step for it
static bool turn(char k, uint64_t a) {
    if (mine >= own[me].size()) {
        limited[me] = 1;
        // with the schedule over, threads only go on to show whether they are stuck
        while (!freeRun.load(std::memory_order_relaxed)) nap();
        return false;
    }
    size_t at = own[me][mine];
    while (head.load(std::memory_order_acquire) != at) nap();
    const Step &s = sch[at];
    bool same = s.k == k || (k == 'C' && (s.k == 'R' || s.k == 'F'));
    if (!same || (k != 'M' && s.addr != a)) diverge("another operation than predicted", k, a);
    return true;
}
static void passed() {
    head.store(own[me][mine] + 1, std::memory_order_release);
    mine++;
}
static std::vector<std::pair<uintptr_t, uint64_t>> ranges, globals; // memory of global variables, if it takes part
static int64_t offOf(const void *q) {
    uintptr_t p = (uintptr_t)q;
    if (p >= lo && p < lo + len) return p - lo;
    for (size_t i = 0; i < ranges.size(); i++) if (p >= ranges[i].first && p < ranges[i].first + ranges[i].second) return ((int64_t)(i + 1) << 32) + (p - ranges[i].first);
    return -1;
}
static bool shared(const void *p) { return offOf(p) >= 0; }
static thread_local bool inStep = false;
extern "C" {
void vp_setup();
void vp_pre(void *p, int k) {
    if (me < 0 || !shared(p)) return;
    inStep = turn(k, offOf(p));
}
void vp_post(void *p, uint64_t v) {
    if (me < 0 || !shared(p) || !inStep) return;
    inStep = false;
    const Step &s = sch[own[me][mine]];
    if (s.k == 'L' && v != s.val) diverge("another value than predicted", 'L', v);
    passed();
}
void vp_wait(void *p, uint64_t old, int bits) {
    uint64_t cur = 0;
    bool sh = shared(p);
    if (me >= 0 && sh) { if (!turn('W', offOf(p))) inStep = false; else inStep = true; }
    if (bits == 64) cur = __atomic_load_n((uint64_t *)p, __ATOMIC_SEQ_CST);
    else if (bits == 32) cur = __atomic_load_n((uint32_t *)p, __ATOMIC_SEQ_CST);
    else if (bits == 8) cur = __atomic_load_n((uint8_t *)p, __ATOMIC_SEQ_CST);
    Waiter w{p, me, me >= 0 && mine + 1 < own[me].size(), false};
    if (cur == old) { WL l; waiters.push_back(&w); }
    if (me >= 0 && sh && inStep) { inStep = false; passed(); }
    if (cur != old) return;
    if (me >= 0) sleeping[me] = 1;
    while (true) { { WL l; if (w.woken) break; } nap(); }
    if (me >= 0) sleeping[me] = 0;
}
void vp_notify(void *p, int one) {
    bool st = false;
    if (me >= 0 && shared(p)) st = turn('N', offOf(p));
    {
        WL l;
        // notify_one may wake any waiter: take one that still has steps to do
        for (int pass = 0, n = 0; pass < 2; pass++)
            for (size_t i = 0; i < waiters.size();) {
                Waiter *w = waiters[i];
                if (w->p != p || (one && (n || (!pass && !w->more)))) { i++; continue; }
                w->woken = true;
                n++;
                waiters.erase(waiters.begin() + i);
            }
    }
    if (st) passed();
}
void vp_mark(const char *) { if (me >= 0 && turn('M', 0)) passed(); }
void vp_park() {
    if (me < 0 || !park[me]) return;
    parked[me] = 1;
    blockForever();
}
void vp_globals();
void vp_range(const void *p, uint64_t n) { globals.push_back({(uintptr_t)p, n}); }
void vp_shared(const void *p, uint64_t n) {
    if (p) { lo = (uintptr_t)p; len = n; return; }
    vp_globals();
    ranges = globals;
}
static std::vector<std::pair<int, uint64_t>> outs;
void vp_out(uint64_t v) {
    if (me < 0) return;
    { WL l; outs.push_back({me, v}); for (auto &o : outs) if (o.first != me && o.second == v) printf("REPLAY-SAME value %lu in threads %d and %d\n", (unsigned long)v, o.first, me); }
    if (turn('M', 0)) passed();
}
void vp_check(int c, const char *msg) { if (!c && me >= 0) { printf("REPLAY-ASSERT %s\n", msg); fflush(stdout); } }
}
static void onTerminate() {
    printf("REPLAY-TERMINATE thread %d%s\n", me, mine >= (me >= 0 ? own[me].size() : 0) ? "" : " (early)");
    fflush(stdout);
    _exit(7);
}
int main(int argc, char **argv) {
    std::set_terminate(onTerminate);
    FILE *f = fopen(argv[1], "r");
    if (!f) return 2;
    char a[256], b[256];
    int n = 0;
    if (fscanf(f, "%d", &n) != 1) return 2;
    for (int i = 0; i < n; i++) { int p; if (fscanf(f, "%255s %d %255s", a, &p, b) != 3) return 2; names.push_back(a); park.push_back(p); leaf.push_back(b); }
    own.resize(n);
    Step s;
    unsigned long ad, v;
    char k[8];
    while (fscanf(f, "%d %d %7s %lu %lu", &s.t, &s.idx, k, &ad, &v) == 5) { s.k = k[0]; s.addr = ad; s.val = v; own[s.t].push_back(sch.size()); sch.push_back(s); }
    fclose(f);
    vp_setup();
    std::vector<std::thread> th;
    for (int i = 0; i < n; i++) {
        auto fn = (void (*)())dlsym(RTLD_DEFAULT, names[i].c_str());
        if (!fn) { printf("no %s\n", names[i].c_str()); return 2; }
        th.emplace_back([=] { me = i; fn(); me = -1; finished[i] = 1; });
    }
    for (auto &t : th) t.detach();
    // until the schedule is used up
    auto T0 = std::chrono::steady_clock::now();
    auto el = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); };
    while (head.load() < sch.size()) { nap(); if (el() > 20) { printf("REPLAY-DIVERGED schedule not completed, at step %zu of %zu\n", head.load(), sch.size()); fflush(stdout); _exit(9); } }
    // let every thread finish what it does between two operations
    T0 = std::chrono::steady_clock::now();
    while (el() < 5) {
        bool rest = true;
        for (int i = 0; i < n; i++) rest &= finished[i] || parked[i] || limited[i] || sleeping[i];
        if (rest) break;
        nap();
    }
    printf("REPLAY-SCHEDULE-DONE\n");
    fflush(stdout);
    freeRun = 1;
    T0 = std::chrono::steady_clock::now();
    bool all = false;
    while (el() < 3 && !all) { nap(); all = true; for (int i = 0; i < n; i++) all &= finished[i] || parked[i]; }
    for (int i = 0; i < n; i++) if (!finished[i] && !parked[i]) printf("REPLAY-STUCK thread %d %s\n", i, names[i].c_str());
    printf("REPLAY-END\n");
    fflush(stdout);
    _exit(0);
}
