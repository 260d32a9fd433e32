// Models of intrinsics, the C++ runtime and the vp_* harness interface.
#include "exec.h"
#include <llvm/Demangle/Demangle.h>
using namespace llvm;
namespace tse {
#define H(name) static void name(Engine &E, State &s, Inst &I, std::vector<Val> &a, Val &ret)
#define C(i, w) E.resolve(s, a[i], w)

H(nop) { (void)E; (void)s; (void)I; (void)a; (void)ret; }
H(ret0) { (void)E; (void)s; (void)I; (void)a; ret = Val((uint64_t)0); }
H(retArg0) { (void)E; (void)s; (void)I; ret = a[0]; }

// ------------------------------------------------------------ memory functions
H(h_memcpy) {
    uint64_t n = C(2, 64);
    if (n) {
        uint64_t d = E.resolveAddr(s, a[0], n, true), src = E.resolveAddr(s, a[1], n, false);
        if (E.onAccess) { E.onAccess(s, I, src, n, false); E.onAccess(s, I, d, n, true); }
        E.copyMem(s, d, src, n);
    }
    ret = a[0];
}
H(h_memset) {
    uint64_t n = C(2, 64);
    if (n) {
        uint64_t d = E.resolveAddr(s, a[0], n, true), off;
        if (E.onAccess) E.onAccess(s, I, d, n, true);
        Obj *o = E.objAt(s, d, n, true, off);
        Val v = a[1];
        if (v.e) {
            tse::E x = mkExtract(v.e, 0, 8);
            if (o->s.empty()) o->s.assign(o->size, nullptr);
            for (uint64_t i = 0; i < n; i++) { o->s[off + i] = isC(x) ? nullptr : x; if (isC(x)) o->b[off + i] = x->c; }
        } else {
            memset(o->b.data() + off, (int)v.c, n);
            if (!o->s.empty()) std::fill(o->s.begin() + off, o->s.begin() + off + n, nullptr);
        }
    }
    ret = a[0];
}
H(h_memcmp) {
    uint64_t n = C(2, 64);
    ret = Val((uint64_t)0);
    if (n && E.onAccess) { E.onAccess(s, I, C(0, 64), n, false); E.onAccess(s, I, C(1, 64), n, false); }
    for (uint64_t i = 0; i < n; i++) {
        Val x = E.load(s, C(0, 64) + i, 1), y = E.load(s, C(1, 64) + i, 1);
        uint64_t p = E.resolve(s, x, 8), q = E.resolve(s, y, 8);
        if (p != q) { ret = Val((uint64_t)(uint32_t)(p < q ? -1 : 1)); return; }
    }
}
H(h_strlen) {
    uint64_t p = C(0, 64), i = 0;
    while (E.resolve(s, E.load(s, p + i, 1), 8)) i++;
    ret = Val(i);
}
H(h_strcmp) {
    uint64_t p = C(0, 64), q = C(1, 64);
    for (uint64_t i = 0;; i++) {
        uint64_t x = E.resolve(s, E.load(s, p + i, 1), 8), y = E.resolve(s, E.load(s, q + i, 1), 8);
        if (x != y) { ret = Val((uint64_t)(uint32_t)(x < y ? -1 : 1)); return; }
        if (!x) { ret = Val((uint64_t)0); return; }
    }
}
static void freeAcc(Engine &E, State &s, Inst &I, uint64_t a) {
    if (!a || !E.onAccess) return;
    Obj *o = s.mem.get(idOf(a));
    if (o) E.onAccess(s, I, a, o->size, true);
}
H(h_malloc) { ret = Val(E.heapAlloc(s, C(0, 64), AK_MALLOC)); }
H(h_calloc) {
    uint64_t n = C(0, 64) * C(1, 64), p = E.heapAlloc(s, n, AK_MALLOC);
    if (p) { uint64_t off; Obj *o = E.objAt(s, p, n, true, off); std::fill(o->b.begin(), o->b.end(), 0); }
    ret = Val(p);
}
H(h_free) { freeAcc(E, s, I, C(0, 64)); E.heapFree(s, C(0, 64), AK_MALLOC); }
H(h_new) {
    uint64_t p = E.heapAlloc(s, C(0, 64), AK_NEW);
    if (!p) E.throwStd(s, "_ZTISt9bad_alloc");
    ret = Val(p);
}
H(h_newarr) {
    uint64_t p = E.heapAlloc(s, C(0, 64), AK_NEWARR);
    if (!p) E.throwStd(s, "_ZTISt9bad_alloc");
    ret = Val(p);
}
H(h_delete) { freeAcc(E, s, I, C(0, 64)); E.heapFree(s, C(0, 64), AK_NEW); }
H(h_delarr) { freeAcc(E, s, I, C(0, 64)); E.heapFree(s, C(0, 64), AK_NEWARR); }

// ------------------------------------------------------------ exceptions
H(h_cxa_alloc) { ret = Val(baseOf(s.mem.alloc(C(0, 64), OK_EXC, 0))); }
H(h_cxa_free) { uint64_t p = C(0, 64); if (p && s.mem.get(idOf(p))) s.mem.free(idOf(p)); }
H(h_cxa_throw) {
    E.throwExc(s, C(0, 64), C(1, 64));
    throw Unwound{};
}
H(h_cxa_begin) {
    uint64_t o = C(0, 64), ti = 0;
    for (auto &p : s.excTis) if (p.first == o) ti = p.second;
    bool found = false;
    for (auto &c : s.caught) if (c.obj == o) { c.count++; found = true; }
    if (!found) s.caught.push_back({o, ti, 1});
    else { // rethrown object becomes the innermost again
        for (size_t i = 0; i < s.caught.size(); i++) if (s.caught[i].obj == o) { Caught c = s.caught[i]; s.caught.erase(s.caught.begin() + i); s.caught.push_back(c); break; }
    }
    ret = a[0];
}
H(h_cxa_end) {
    if (s.caught.empty()) return;
    Caught &c = s.caught.back();
    if (c.count < 0) { // rethrown: in flight, do not destroy
        if (++c.count == 0) s.caught.pop_back();
        return;
    }
    if (--c.count == 0) {
        uint64_t o = c.obj;
        s.caught.pop_back();
        if (s.mem.get(idOf(o))) s.mem.free(idOf(o));
    }
}
H(h_cxa_rethrow) {
    if (s.caught.empty()) E.fail(s, "rethrow without exception: std::terminate");
    Caught &c = s.caught.back();
    c.count = -c.count;
    E.throwExc(s, c.obj, c.ti);
    throw Unwound{};
}
H(h_terminate) { E.fail(s, "std::terminate called"); }
H(h_abort) { E.fail(s, "abort called"); }
H(h_purevirt) { E.fail(s, "pure virtual call"); }
H(h_assertfail) { E.fail(s, "libstdc++ assertion failed"); }
#define TH(n, ti) H(n) { E.throwStd(s, ti); }
TH(t_oor, "_ZTISt12out_of_range") TH(t_len, "_ZTISt12length_error") TH(t_logic, "_ZTISt11logic_error") TH(t_alloc, "_ZTISt9bad_alloc")
TH(t_anl, "_ZTISt20bad_array_new_length") TH(t_bfc, "_ZTISt17bad_function_call") TH(t_bwp, "_ZTISt12bad_weak_ptr") TH(t_sys, "_ZTISt12system_error") TH(t_cast, "_ZTISt8bad_cast")
TH(t_inv, "_ZTISt16invalid_argument") TH(t_rt, "_ZTISt13runtime_error") TH(t_boa, "_ZTISt19bad_optional_access")

// std::string f(...) stubbed to an empty string (sret in arg 0)
H(h_emptystr) {
    uint64_t p = C(0, 64);
    E.store(s, p, 8, Val(p + 16));
    E.store(s, p + 8, 8, Val((uint64_t)0));
    E.store(s, p + 16, 8, Val((uint64_t)0));
}

// std::to_string(integer): an opaque but injective rendering, eight raw bytes of the value
static void opaqueNum(Engine &E, State &s, std::vector<Val> &a, unsigned w, bool sgn) {
    uint64_t p = C(0, 64);
    tse::E v = toE(a[1], w);
    v = sgn ? mkSext(v, 64) : mkZext(v, 64);
    E.store(s, p, 8, Val(p + 16));
    E.store(s, p + 8, 8, Val((uint64_t)8));
    E.store(s, p + 16, 8, Val(v));
    E.store(s, p + 24, 1, Val((uint64_t)0));
}
H(h_num_i) { (void)I; (void)ret; opaqueNum(E, s, a, 32, true); }
H(h_num_j) { (void)I; (void)ret; opaqueNum(E, s, a, 32, false); }
H(h_num_l) { (void)I; (void)ret; opaqueNum(E, s, a, 64, true); }
H(h_num_m) { (void)I; (void)ret; opaqueNum(E, s, a, 64, false); }

// ------------------------------------------------------------ arithmetic intrinsics
static unsigned W(Inst &I, unsigned k = 0) { return I.leaves[k].w; }
static void ovf(Engine &E, State &s, Inst &I, std::vector<Val> &a, Op o, bool sgn) {
    unsigned w = W(I);
    Frame &f = s.frames.back();
    Val r, ov;
    if (!a[0].e && !a[1].e) {
        __int128 x = sgn ? (__int128)sx(a[0].c, w) : (__int128)a[0].c, y = sgn ? (__int128)sx(a[1].c, w) : (__int128)a[1].c;
        __int128 z = o == ADD ? x + y : o == SUB ? x - y : x * y;
        uint64_t t = (uint64_t)z & maskw(w);
        bool o2 = sgn ? (__int128)sx(t, w) != z : (__int128)t != z || z < 0;
        if (!sgn && o == MUL && w == 64) { unsigned __int128 zz = (unsigned __int128)a[0].c * a[1].c; t = (uint64_t)zz; o2 = (zz >> 64) != 0; }
        r = Val(t);
        ov = Val((uint64_t)o2);
    } else {
        tse::E x = toE(a[0], w), y = toE(a[1], w), z = mkBin(o, x, y);
        r = Val(z);
        if (!sgn && o == ADD) ov = Val(mkCmp(ULT, z, x));
        else if (!sgn && o == SUB) ov = Val(mkCmp(ULT, x, y));
        else if (!sgn && o == MUL && isC(y) && y->c) ov = Val(mkCmp(ULT, mkConst(maskw(w) / y->c, w), x));
        else if (!sgn && o == MUL && isC(x) && x->c) ov = Val(mkCmp(ULT, mkConst(maskw(w) / x->c, w), y));
        else if (2 * w <= 64) {
            tse::E xx = sgn ? mkSext(x, 2 * w) : mkZext(x, 2 * w), yy = sgn ? mkSext(y, 2 * w) : mkZext(y, 2 * w);
            tse::E zz = mkBin(o, xx, yy);
            ov = Val(mkNot(mkCmp(EQ, zz, sgn ? mkSext(z, 2 * w) : mkZext(z, 2 * w))));
        } else E.unsupported(s, "symbolic overflow intrinsic");
    }
    s.regs[f.base + I.dst] = r;
    s.regs[f.base + I.dst + 1] = ov;
}
#define OV(n, o, sg) H(n) { (void)ret; ovf(E, s, I, a, o, sg); }
OV(o_uadd, ADD, false) OV(o_usub, SUB, false) OV(o_umul, MUL, false) OV(o_sadd, ADD, true) OV(o_ssub, SUB, true) OV(o_smul, MUL, true)
static Val minmax(Inst &I, std::vector<Val> &a, Op cmp, bool max) {
    unsigned w = W(I);
    tse::E x = toE(a[0], w), y = toE(a[1], w), c = mkCmp(cmp, x, y);
    return Val(max ? mkIte(c, y, x) : mkIte(c, x, y));
}
H(m_umin) { (void)E; (void)s; ret = minmax(I, a, ULT, false); } H(m_umax) { (void)E; (void)s; ret = minmax(I, a, ULT, true); }
H(m_smin) { (void)E; (void)s; ret = minmax(I, a, SLT, false); } H(m_smax) { (void)E; (void)s; ret = minmax(I, a, SLT, true); }
H(h_abs) {
    (void)E; (void)s;
    unsigned w = W(I);
    tse::E x = toE(a[0], w);
    ret = Val(mkIte(mkCmp(SLT, x, mkConst(0, w)), mkBin(SUB, mkConst(0, w), x), x));
}
H(h_usubsat) {
    (void)E; (void)s;
    unsigned w = W(I);
    tse::E x = toE(a[0], w), y = toE(a[1], w);
    ret = Val(mkIte(mkCmp(ULT, x, y), mkConst(0, w), mkBin(SUB, x, y)));
}
H(h_uaddsat) {
    (void)E; (void)s;
    unsigned w = W(I);
    tse::E x = toE(a[0], w), y = toE(a[1], w), z = mkBin(ADD, x, y);
    ret = Val(mkIte(mkCmp(ULT, z, x), mkConst(maskw(w), w), z));
}
H(h_ctpop) {
    (void)E; (void)s;
    unsigned w = W(I);
    if (!a[0].e) { ret = Val((uint64_t)__builtin_popcountll(a[0].c & maskw(w))); return; }
    tse::E r = mkConst(0, w);
    for (unsigned i = 0; i < w; i++) r = mkBin(ADD, r, mkZext(mkExtract(a[0].e, i, 1), w));
    ret = Val(r);
}
H(h_ctlz) {
    (void)E; (void)s;
    unsigned w = W(I);
    if (!a[0].e) { uint64_t v = a[0].c & maskw(w); ret = Val((uint64_t)(v ? __builtin_clzll(v) - (64 - w) : w)); return; }
    tse::E r = mkConst(w, w);
    for (unsigned i = 0; i < w; i++) r = mkIte(mkCmp(EQ, mkExtract(a[0].e, i, 1), mkConst(1, 1)), mkConst(w - 1 - i, w), r);
    ret = Val(r);
}
H(h_cttz) {
    (void)E; (void)s;
    unsigned w = W(I);
    if (!a[0].e) { uint64_t v = a[0].c & maskw(w); ret = Val((uint64_t)(v ? __builtin_ctzll(v) : w)); return; }
    tse::E r = mkConst(w, w);
    for (unsigned i = w; i-- > 0;) r = mkIte(mkCmp(EQ, mkExtract(a[0].e, i, 1), mkConst(1, 1)), mkConst(i, w), r);
    ret = Val(r);
}
H(h_bswap) {
    (void)E; (void)s;
    unsigned w = W(I);
    tse::E x = toE(a[0], w), r = nullptr;
    for (unsigned i = 0; i < w; i += 8) { tse::E b = mkExtract(x, i, 8); r = r ? mkConcat(r, b) : b; }
    ret = Val(r);
}
static Val fsh(Engine &E, State &s, Inst &I, std::vector<Val> &a, bool left) {
    unsigned w = W(I);
    uint64_t n = E.resolve(s, a[2], w) % w;
    tse::E x = toE(a[0], w), y = toE(a[1], w);
    if (left) return n ? Val(mkBin(OR, mkBin(SHL, x, mkConst(n, w)), mkBin(LSHR, y, mkConst(w - n, w)))) : a[0];
    return n ? Val(mkBin(OR, mkBin(SHL, x, mkConst(w - n, w)), mkBin(LSHR, y, mkConst(n, w)))) : a[1];
}
H(h_fshl) { ret = fsh(E, s, I, a, true); }
H(h_fshr) { ret = fsh(E, s, I, a, false); }
H(h_eh_typeid) {
    uint64_t ti = C(0, 64);
    auto it = E.tiIds.find(ti);
    if (it == E.tiIds.end()) { int n = E.tiIds.size() + 1; E.tiIds[ti] = n; ret = Val((uint64_t)n); }
    else ret = Val((uint64_t)it->second);
}
H(h_trap) { E.fail(s, "trap"); }
H(h_objsize) { (void)E; (void)s; (void)I; ret = Val((uint64_t)-1); }

// ------------------------------------------------------------ environment
H(h_errno) {
    if (!s.errnoAddr) s.errnoAddr = baseOf(s.mem.alloc(8, OK_GLOBAL, 0));
    ret = Val(s.errnoAddr);
}
H(h_pthread_self) { (void)E; (void)s; ret = Val((uint64_t)0x1001); }
H(h_clock) { ret = E.newSym(s, "clock", 64, false); }
H(h_guard_acquire) {
    uint64_t p = C(0, 64);
    Val v = E.load(s, p, 1);
    ret = Val((uint64_t)(v.c == 0));
}
H(h_guard_release) { E.store(s, C(0, 64), 1, Val((uint64_t)1)); }
H(h_syscall) {
    uint64_t nr = C(0, 64);
    if (nr == 202) {
        uint64_t op = C(2, 32) & 127;
        if (op == 0 || op == 9) {
            // FUTEX_WAIT in a single thread: if the word still has the expected value nobody can ever wake us
            Val v = E.load(s, C(1, 64), 4);
            if (E.resolve(s, v, 32) == (C(3, 32) & 0xffffffff)) E.fail(s, "transaction blocks forever (no other thread is running)");
        }
        ret = Val((uint64_t)0);
        return;
    }
    E.unsupported(s, "syscall " + std::to_string(nr));
}
H(h_yield) {
    ret = Val((uint64_t)0);
    // spinning alone: leave it to the instruction limit
    (void)E; s.instrs += 20000;
}

// ------------------------------------------------------------ harness interface
static std::string nameArg(Engine &E, State &s, const Val &v) { return E.readStr(s, E.resolve(s, v, 64)); }
H(vp_u8) { ret = E.newSym(s, nameArg(E, s, a[0]), 8); }
H(vp_u16) { ret = E.newSym(s, nameArg(E, s, a[0]), 16); }
H(vp_u32) { ret = E.newSym(s, nameArg(E, s, a[0]), 32); }
H(vp_u64) { ret = E.newSym(s, nameArg(E, s, a[0]), 64); }
H(vp_range) {
    uint64_t lo = C(1, 32), hi = C(2, 32);
    Val v = E.newSym(s, nameArg(E, s, a[0]), 32);
    s.model.set(v.e->c, lo);
    E.addPC(s, mkCmp(ULE, mkConst(lo, 32), v.e));
    E.addPC(s, mkCmp(ULE, v.e, mkConst(hi, 32)));
    ret = v;
}
H(vp_choose) { // symbolic selector, split into those of its n values the solver finds feasible
    uint64_t n = C(1, 32);
    std::string nm = nameArg(E, s, a[0]);
    if (n == 0) throw StopPath{{PathEnd::KILLED, "choose 0"}};
    Val v = E.newSym(s, nm, 32);
    uint32_t sy = v.e->c;
    s.model.set(sy, 0);
    E.addPC(s, mkCmp(ULT, v.e, mkConst(n, 32)));
    std::vector<uint64_t> feas;
    for (uint64_t k = 0; k < n; k++) {
        Model m;
        if (S.check(s.pc, mkCmp(EQ, v.e, mkConst(k, 32)), &m) != UNSAT) feas.push_back(k);
    }
    for (size_t i = feas.size(); i-- > 1;) {
        uint64_t k = feas[i];
        State *o = E.fork(s);
        o->model.set(sy, k);
        E.addPC(*o, mkCmp(EQ, v.e, mkConst(k, 32)));
        Frame &f = o->frames.back();
        o->regs[f.base + I.dst] = Val(k);
        if (I.invoke) E.gotoEdge(*o, f.f->code[f.pc].edges[0]);
        else f.pc++;
    }
    s.model.set(sy, feas[0]);
    E.addPC(s, mkCmp(EQ, v.e, mkConst(feas[0], 32)));
    ret = Val(feas[0]);
}
H(vp_assume) { E.assume(s, a[0].e ? Val(mkNot(mkCmp(EQ, a[0].e, mkConst(0, 32)))) : Val((uint64_t)(a[0].c != 0))); }
H(vp_assert) { E.assertTrue(s, a[0].e ? Val(mkNot(mkCmp(EQ, a[0].e, mkConst(0, 32)))) : Val((uint64_t)(a[0].c != 0)), nameArg(E, s, a[1])); }
H(vp_reach) { E.reach[nameArg(E, s, a[0])]++; }
H(vp_concrete) { ret = Val(C(0, 64)); }
H(vp_leakcheck) { (void)E; s.leakCheck = true; s.leakFrom = s.mem.next; }
H(vp_stop) { (void)E; throw StopPath{{PathEnd::OK, ""}}; }
H(vp_symbolic) { (void)E; (void)s; ret = Val((uint64_t)1); }
// Replace every aligned 32-bit heap/global/stack word equal to `old` (concrete) by `v`; returns how many
H(vp_replace32) {
    uint64_t old = C(0, 32);
    Val v = a[1];
    uint64_t n = 0;
    for (uint32_t id = 1; id < s.mem.next; id++) {
        Obj *o = s.mem.get(id);
        if (!o || o->kind != OK_HEAP) continue;
        for (uint64_t off = 0; off + 4 <= o->size; off += 4) {
            uint32_t x;
            memcpy(&x, o->b.data() + off, 4);
            if (x != old) continue;
            if (!o->s.empty() && (o->s[off] || o->s[off + 1] || o->s[off + 2] || o->s[off + 3])) continue;
            E.store(s, baseOf(id) + off, 4, v);
            o = s.mem.get(id);
            n++;
        }
    }
    ret = Val(n);
}

Handler Engine::lookupHandler(const std::string &n) {
    static const std::map<std::string, Handler> T = {
        {"memcpy", h_memcpy}, {"memmove", h_memcpy}, {"memset", h_memset}, {"memcmp", h_memcmp}, {"bcmp", h_memcmp}, {"strlen", h_strlen}, {"strcmp", h_strcmp},
        {"malloc", h_malloc}, {"calloc", h_calloc}, {"free", h_free},
        {"_Znwm", h_new}, {"_ZnwmSt11align_val_t", h_new}, {"_Znam", h_newarr}, {"_ZnamSt11align_val_t", h_newarr}, {"_ZnwmRKSt9nothrow_t", h_new},
        {"_ZdlPv", h_delete}, {"_ZdlPvm", h_delete}, {"_ZdlPvSt11align_val_t", h_delete}, {"_ZdlPvmSt11align_val_t", h_delete}, {"_ZdlPvRKSt9nothrow_t", h_delete},
        {"_ZdaPv", h_delarr}, {"_ZdaPvm", h_delarr}, {"_ZdaPvSt11align_val_t", h_delarr}, {"_ZdaPvmSt11align_val_t", h_delarr},
        {"__cxa_allocate_exception", h_cxa_alloc}, {"__cxa_free_exception", h_cxa_free}, {"__cxa_throw", h_cxa_throw},
        {"__cxa_begin_catch", h_cxa_begin}, {"__cxa_end_catch", h_cxa_end}, {"__cxa_rethrow", h_cxa_rethrow}, {"__cxa_get_exception_ptr", retArg0},
        {"_ZSt9terminatev", h_terminate}, {"abort", h_abort}, {"__cxa_pure_virtual", h_purevirt}, {"_ZSt21__glibcxx_assert_failPKciS0_S0_", h_assertfail},
        {"_ZSt20__throw_length_errorPKc", t_len}, {"_ZSt20__throw_out_of_rangePKc", t_oor}, {"_ZSt24__throw_out_of_range_fmtPKcz", t_oor}, {"_ZSt19__throw_logic_errorPKc", t_logic},
        {"_ZSt17__throw_bad_allocv", t_alloc}, {"_ZSt28__throw_bad_array_new_lengthv", t_anl}, {"_ZSt25__throw_bad_function_callv", t_bfc},
        {"_ZSt20__throw_bad_weak_ptrv", t_bwp}, {"_ZSt20__throw_system_errori", t_sys}, {"_ZSt16__throw_bad_castv", t_cast}, {"_ZSt24__throw_invalid_argumentPKc", t_inv}, {"_ZSt21__throw_runtime_errorPKc", t_rt}, {"_ZSt27__throw_bad_optional_accessv", t_boa},
        {"__cxa_atexit", ret0}, {"__cxa_thread_atexit", ret0}, {"__gxx_personality_v0", ret0}, {"__errno_location", h_errno}, {"pthread_self", h_pthread_self},
        {"_ZNSt6chrono3_V212steady_clock3nowEv", h_clock}, {"_ZNSt6chrono3_V212system_clock3nowEv", h_clock}, {"__cxa_guard_acquire", h_guard_acquire}, {"__cxa_guard_release", h_guard_release}, {"__cxa_guard_abort", nop},
        {"syscall", h_syscall}, {"sched_yield", h_yield}, {"pthread_mutex_lock", ret0}, {"pthread_mutex_unlock", ret0}, {"pthread_rwlock_rdlock", ret0}, {"pthread_rwlock_wrlock", ret0}, {"pthread_rwlock_unlock", ret0}, {"pthread_mutex_trylock", ret0}, {"pthread_mutex_destroy", ret0}, {"pthread_mutex_init", ret0},
        {"_ZNSt8ios_base4InitC1Ev", nop}, {"_ZNSt8ios_base4InitD1Ev", nop},
        {"vp_u8", vp_u8}, {"vp_u16", vp_u16}, {"vp_u32", vp_u32}, {"vp_u64", vp_u64}, {"vp_range", vp_range}, {"vp_choose", vp_choose}, {"vp_assume", vp_assume},
        {"vp_assert", vp_assert}, {"vp_reach", vp_reach}, {"vp_leakcheck", vp_leakcheck}, {"vp_stop", vp_stop}, {"vp_replace32", vp_replace32}, {"vp_concrete", vp_concrete}, {"vp_symbolic", vp_symbolic},
    };
    auto it = T.find(n);
    if (it != T.end()) return it->second;
    if (n.compare(0, 5, "llvm.") == 0) {
        auto pre = [&](const char *p) { return n.compare(0, strlen(p), p) == 0; };
        if (pre("llvm.memcpy") || pre("llvm.memmove")) return h_memcpy;
        if (pre("llvm.memset")) return h_memset;
        if (pre("llvm.lifetime") || pre("llvm.assume") || pre("llvm.dbg") || pre("llvm.stackrestore") || pre("llvm.experimental.noalias") || pre("llvm.invariant.end") || pre("llvm.prefetch") || pre("llvm.x86.sse2.pause")) return nop;
        if (pre("llvm.stacksave") || pre("llvm.invariant.start")) return ret0;
        if (pre("llvm.expect") || pre("llvm.threadlocal.address") || pre("llvm.launder") || pre("llvm.strip.invariant")) return retArg0;
        if (pre("llvm.is.constant")) return ret0;
        if (pre("llvm.objectsize")) return h_objsize;
        if (pre("llvm.uadd.with")) return o_uadd;
        if (pre("llvm.usub.with")) return o_usub;
        if (pre("llvm.umul.with")) return o_umul;
        if (pre("llvm.sadd.with")) return o_sadd;
        if (pre("llvm.ssub.with")) return o_ssub;
        if (pre("llvm.smul.with")) return o_smul;
        if (pre("llvm.umin")) return m_umin;
        if (pre("llvm.umax")) return m_umax;
        if (pre("llvm.smin")) return m_smin;
        if (pre("llvm.smax")) return m_smax;
        if (pre("llvm.abs")) return h_abs;
        if (pre("llvm.usub.sat")) return h_usubsat;
        if (pre("llvm.uadd.sat")) return h_uaddsat;
        if (pre("llvm.ctpop")) return h_ctpop;
        if (pre("llvm.ctlz")) return h_ctlz;
        if (pre("llvm.cttz")) return h_cttz;
        if (pre("llvm.bswap")) return h_bswap;
        if (pre("llvm.fshl")) return h_fshl;
        if (pre("llvm.fshr")) return h_fshr;
        if (pre("llvm.eh.typeid")) return h_eh_typeid;
        if (pre("llvm.trap") || pre("llvm.debugtrap")) return h_trap;
        return nullptr;
    }
    if (opaqueNumbers) {
        static const std::map<std::string, Handler> N = {{"_ZNSt7__cxx119to_stringEi", h_num_i}, {"_ZNSt7__cxx119to_stringEj", h_num_j}, {"_ZNSt7__cxx119to_stringEl", h_num_l},
            {"_ZNSt7__cxx119to_stringEm", h_num_m}, {"_ZNSt7__cxx119to_stringEx", h_num_l}, {"_ZNSt7__cxx119to_stringEy", h_num_m}};
        auto it = N.find(n);
        if (it != N.end()) return it->second;
    } else if (stubStrings) {
        std::string d = n.compare(0, 2, "_Z") == 0 ? llvm::demangle(n) : "";
        if (d.compare(0, 19, "std::to_string(Tecs") == 0 || d == "std::to_string(Tecs::Entity const&)" ||
            d.find("std::__cxx11::to_string(") == 0)
            return h_emptystr;
    }
    // std exception objects: constructors / destructors carry no checked state
    if (n.compare(0, 4, "_ZNS") == 0) {
        static const char *ex[] = {"13runtime_error", "11logic_error", "12out_of_range", "12length_error", "9exception", "16invalid_argument", "9bad_alloc", "12domain_error", "11range_error", "14overflow_error"};
        for (auto *x : ex) {
            std::string p = std::string("_ZNSt") + x;
            if (n.compare(0, p.size(), p) == 0 && n.size() > p.size() && (n[p.size()] == 'C' || n[p.size()] == 'D')) return nop;
        }
    }
    return nullptr;
}
} // namespace tse
