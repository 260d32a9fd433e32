#include "exec.h"
#include <cmath>
#include <llvm/Demangle/Demangle.h>
using namespace llvm;
namespace tse {

static inline const Val &V(const State &s, const Frame &f, int32_t x) {
    return x >= 0 ? s.regs[f.base + x] : f.f->consts[~x];
}
#define REG(x) s.regs[s.frames.back().base + (x)]

std::string Engine::where(State &s) {
    std::string r;
    int n = 0;
    for (size_t i = s.frames.size(); i-- > 0 && n < 8; n++) {
        std::string d = llvm::demangle(s.frames[i].f->name);
        if (d.size() > 120) d = d.substr(0, 117) + "...";
        r += (n ? " < " : "") + d;
    }
    return r;
}
void Engine::report(State &s, const std::string &msg, const Model &m) {
    if (violMsgs.insert(msg).second) {
        Violation v;
        v.msg = msg;
        v.where = where(s);
        for (auto &i : s.inputs) v.inputs.push_back({i.name, evalE(i.e, m)});
        violations.push_back(v);
        if (verbose) fprintf(stderr, "VIOL %s @ %s\n", msg.c_str(), v.where.c_str());
    }
}
void Engine::fail(State &s, const std::string &msg) { failWith(s, msg, s.model); }
void Engine::failWith(State &s, const std::string &msg, const Model &m) {
    report(s, msg, m);
    throw StopPath{{PathEnd::VIOLATION, msg}};
}
void Engine::unsupported(State &s, const std::string &msg) {
    errorMsgs[msg + " @ " + where(s)]++;
    throw StopPath{{PathEnd::ERROR, msg}};
}

// ------------------------------------------------------------------ symbolic values
Val Engine::newSym(State &s, const std::string &name, unsigned w, bool input) {
    static std::map<std::string, E> all;
    int k = s.symCount[name]++;
    std::string n = name + "#" + std::to_string(k) + ":" + std::to_string(w);
    auto it = all.find(n);
    E e = it != all.end() ? it->second : (all[n] = mkSym(n, w));
    if (input) {
        static std::set<std::string> names;
        s.inputs.push_back({names.insert(name).first->c_str(), e, w});
        // any value satisfies the path so far; a scattered one makes better samples than zero
        uint64_t h = std::hash<std::string>()(n) ^ (seed * 0x9E3779B97F4A7C15ull);
        h *= 0xff51afd7ed558ccdull;
        s.model.set(e->c, (h ^ (h >> 29)) & maskw(w));
    }
    return Val(e);
}
static E simpRec(E e, const std::map<uint32_t, uint64_t> &sub, std::unordered_map<E, E> &memo) {
    bool hit = false;
    for (uint32_t x : e->syms) if (sub.count(x)) { hit = true; break; }
    if (!hit) return e;
    auto it = memo.find(e);
    if (it != memo.end()) return it->second;
    E r;
    switch (e->op) {
    case SYM: r = mkConst(sub.at(e->c), e->w); break;
    case CONCAT: r = mkConcat(simpRec(e->a, sub, memo), simpRec(e->b, sub, memo)); break;
    case EXTRACT: r = mkExtract(simpRec(e->a, sub, memo), e->c, e->w); break;
    case ZEXT: r = mkZext(simpRec(e->a, sub, memo), e->w); break;
    case SEXT: r = mkSext(simpRec(e->a, sub, memo), e->w); break;
    case ITE: r = mkIte(simpRec(e->a, sub, memo), simpRec(e->b, sub, memo), simpRec(e->k, sub, memo)); break;
    default: r = mkBin(e->op, simpRec(e->a, sub, memo), simpRec(e->b, sub, memo));
    }
    memo[e] = r;
    return r;
}
E Engine::simp(State &s, E e) {
    if (s.subst.empty() || e->syms.empty()) return e;
    std::unordered_map<E, E> memo;
    return simpRec(e, s.subst, memo);
}
void Engine::learn(State &s, E e, uint64_t v) {
    switch (e->op) {
    case SYM: s.subst[e->c] = v & maskw(e->w); break;
    case ADD: if (isC(e->b)) learn(s, e->a, (v - e->b->c) & maskw(e->w)); break;
    case XOR: if (isC(e->b)) learn(s, e->a, (v ^ e->b->c) & maskw(e->w)); break;
    case ZEXT: learn(s, e->a, v); break;
    case SEXT: learn(s, e->a, v & maskw(e->a->w)); break;
    case CONCAT: learn(s, e->b, v & maskw(e->b->w)); learn(s, e->a, v >> e->b->w); break;
    case MUL:
        if (isC(e->b) && e->b->c && e->a->op == ZEXT && v % e->b->c == 0 && e->a->a->w + 64 - __builtin_clzll(e->b->c) <= e->w) learn(s, e->a, v / e->b->c);
        break;
    case EQ: if (v == 1 && isC(e->b)) learn(s, e->a, e->b->c); break;
    case AND: if (e->w == 1 && v == 1) { learn(s, e->a, 1); learn(s, e->b, 1); } break;
    default: break;
    }
}
void Engine::addPC(State &s, E c) {
    if (isC(c)) return;
    s.pc.push_back(c);
    learn(s, c, 1);
}
State *Engine::fork(State &s) {
    forks++;
    work.emplace_back(new State(s));
    return work.back().get();
}
// Returns the truth of c on this path; forks the other side if feasible.
bool Engine::branch(State &s, const Val &cv) {
    if (!cv.e) return cv.c & 1;
    E c = simp(s, cv.e);
    if (isC(c)) return c->c;
    {
        E n = mkNot(c);
        size_t k = 0;
        for (size_t i = s.pc.size(); i-- > 0 && k < 12; k++) {
            if (s.pc[i] == c) return true;
            if (s.pc[i] == n) return false;
        }
    }
    branchesSym++;
    bool side = evalE(c, s.model) & 1;
    E other = side ? mkNot(c) : c;
    Model m = s.model;
    SatResult r = S.check(s.pc, other, &m);
    if (r == UNKNOWN) unknowns++;
    if (r != UNSAT) {
        State *o = fork(s);
        o->model = m;
        addPC(*o, other);
        addPC(s, side ? c : mkNot(c));
    }
    return side;
}
uint64_t Engine::resolve(State &s, const Val &v, unsigned w) {
    if (!v.e) return v.c;
    E e = simp(s, v.e);
    if (isC(e)) return e->c;
    uint64_t x = evalE(e, s.model);
    E eq = mkCmp(EQ, e, mkConst(x, w));
    Model m = s.model;
    SatResult r = S.check(s.pc, mkNot(eq), &m);
    if (r == UNKNOWN) unknowns++;
    if (r != UNSAT) {
        State *o = fork(s);
        o->model = m;
        addPC(*o, mkNot(eq));
        addPC(s, eq);
    }
    learn(s, e, x);
    return x;
}
void Engine::assume(State &s, const Val &v) {
    if (!v.e) { if (!(v.c & 1)) throw StopPath{{PathEnd::KILLED, "assume"}}; return; }
    E c = simp(s, v.e);
    if (isC(c)) { if (!c->c) throw StopPath{{PathEnd::KILLED, "assume"}}; return; }
    if (!(evalE(c, s.model) & 1)) {
        Model m = s.model;
        SatResult r = S.check(s.pc, c, &m);
        if (r != SAT) throw StopPath{{PathEnd::KILLED, "assume"}};
        s.model = m;
    }
    addPC(s, c);
}
void Engine::assertTrue(State &s, const Val &v, const std::string &msg) {
    if (!v.e) { assertsFolded++; if (!(v.c & 1)) fail(s, msg); return; }
    E c = simp(s, v.e);
    if (isC(c)) { assertsFolded++; if (!c->c) fail(s, msg); return; }
    assertsSolver++;
    Model m = s.model;
    SatResult r = evalE(c, s.model) & 1 ? S.check(s.pc, mkNot(c), &m) : SAT;
    if (r == SAT) {
        report(s, msg, m);
        // continue with the assertion assumed, if possible
        if (!(evalE(c, s.model) & 1)) {
            Model m2 = s.model;
            if (S.check(s.pc, c, &m2) != SAT) throw StopPath{{PathEnd::VIOLATION, msg}};
            s.model = m2;
        }
        addPC(s, c);
    } else if (r == UNKNOWN) unknowns++;
}

// ------------------------------------------------------------------ memory
Obj *Engine::objAt(State &s, uint64_t addr, uint64_t bytes, bool write, uint64_t &off) {
    uint32_t id = idOf(addr);
    if (id == 0 || addr < REGION_MID) fail(s, addr < 4096 ? "null pointer access" : "wild pointer access");
    Obj *o = s.mem.get(id);
    if (!o) {
        if (id < s.mem.next) fail(s, "access to freed memory or dead stack object");
        fail(s, "wild pointer access");
    }
    off = addr - baseOf(id);
    if (off > o->size || bytes > o->size - off) fail(s, std::string("out-of-bounds ") + (write ? "write" : "read"));
    if (write) {
        if (o->kind == OK_CONSTGLOBAL) fail(s, "write to constant");
        o = s.mem.wget(id);
    }
    return o;
}
Val Engine::load(State &s, uint64_t addr, unsigned n) {
    uint64_t off;
    Obj *o = objAt(s, addr, n, false, off);
    bool sym = false;
    if (!o->s.empty()) for (unsigned i = 0; i < n; i++) if (o->s[off + i]) { sym = true; break; }
    if (!sym) {
        uint64_t v = 0;
        memcpy(&v, o->b.data() + off, n > 8 ? 8 : n);
        return Val(v);
    }
    E r = nullptr;
    for (unsigned i = 0; i < n; i++) {
        E by = o->s[off + i] ? o->s[off + i] : mkConst(o->b[off + i], 8);
        r = r ? mkConcat(by, r) : by;
    }
    return Val(r);
}
void Engine::store(State &s, uint64_t addr, unsigned n, const Val &v) {
    uint64_t off;
    Obj *o = objAt(s, addr, n, true, off);
    if (!v.e) {
        memcpy(o->b.data() + off, &v.c, n);
        if (!o->s.empty()) for (unsigned i = 0; i < n; i++) o->s[off + i] = nullptr;
        return;
    }
    if (o->s.empty()) o->s.assign(o->size, nullptr);
    for (unsigned i = 0; i < n; i++) {
        E x = mkExtract(v.e, i * 8, 8);
        if (isC(x)) { o->b[off + i] = x->c; o->s[off + i] = nullptr; }
        else o->s[off + i] = x;
    }
}
uint64_t Engine::resolveAddr(State &s, const Val &v, uint64_t bytes, bool write) {
    if (!v.e) return v.c;
    E e = simp(s, v.e);
    if (isC(e)) return e->c;
    uint64_t x = evalE(e, s.model);
    uint32_t id = idOf(x);
    Obj *o = s.mem.get(id);
    if (o && bytes && o->size >= bytes) {
        uint64_t b = baseOf(id);
        // is an address outside this object feasible?  (reported as its own path)
        E in = mkCmp(ULE, mkBin(SUB, e, mkConst(b, 64)), mkConst(o->size - bytes, 64));
        if (evalE(in, s.model) & 1) {
            Model m = s.model;
            if (S.check(s.pc, mkNot(in), &m) == SAT) {
                State *q = fork(s);
                q->model = m;
                addPC(*q, mkNot(in));
                addPC(s, in);
            }
        }
    }
    if (!o || x - baseOf(id) > o->size) return x; // error path: no need to enumerate
    return resolve(s, Val(e), 64);
}
uint64_t Engine::heapAlloc(State &s, uint64_t size, AllocKind k) {
    if (size > (1ull << 30)) return 0;
    uint32_t id = s.mem.alloc(size, OK_HEAP, 0xCD);
    s.mem.wget(id)->ak = k;
    return baseOf(id);
}
void Engine::heapFree(State &s, uint64_t addr, AllocKind k) {
    if (addr == 0) return;
    uint32_t id = idOf(addr);
    Obj *o = id && addr >= REGION_MID ? s.mem.get(id) : nullptr;
    if (!o) fail(s, id && id < s.mem.next ? "double free" : "free of invalid pointer");
    if (o->kind != OK_HEAP || addr != baseOf(id)) fail(s, "free of invalid pointer");
    if (o->ak != k) fail(s, "mismatched allocation and deallocation functions");
    s.mem.free(id);
}
std::string Engine::readStr(State &s, uint64_t a) {
    std::string r;
    for (int i = 0; i < 4096; i++) {
        Val v = load(s, a + i, 1);
        if (v.e || !v.c) break;
        r += (char)v.c;
    }
    return r;
}
void Engine::copyMem(State &s, uint64_t d, uint64_t src, uint64_t n) {
    if (!n) return;
    uint64_t so, doff;
    Obj *os = objAt(s, src, n, false, so);
    std::vector<uint8_t> tb(os->b.begin() + so, os->b.begin() + so + n);
    std::vector<E> ts;
    bool sym = false;
    if (!os->s.empty()) {
        ts.assign(os->s.begin() + so, os->s.begin() + so + n);
        for (E e : ts) if (e) { sym = true; break; }
    }
    Obj *od = objAt(s, d, n, true, doff);
    memcpy(od->b.data() + doff, tb.data(), n);
    if (sym) {
        if (od->s.empty()) od->s.assign(od->size, nullptr);
        std::copy(ts.begin(), ts.end(), od->s.begin() + doff);
    } else if (!od->s.empty()) std::fill(od->s.begin() + doff, od->s.begin() + doff + n, nullptr);
}

// ------------------------------------------------------------------ control
void Engine::popFrame(State &s) {
    Frame &f = s.frames.back();
    for (uint32_t id : f.allocas) s.mem.free(id);
    s.regs.resize(f.base);
    s.frames.pop_back();
}
void Engine::startFunction(State &s, Func *f, const std::vector<Val> &args) {
    decode(f);
    f->executed = true;
    f->calls++;
    if (s.frames.size() > 400) unsupported(s, "call stack too deep");
    uint32_t base = s.regs.size();
    s.regs.resize(base + f->nregs);
    for (size_t i = 0; i < args.size() && i < f->nparams; i++) s.regs[base + i] = args[i];
    s.frames.push_back({f, 0, base, {}});
}
void Engine::gotoEdge(State &s, Edge &e) {
    Frame &f = s.frames.back();
    if (!e.copies.empty()) {
        if (e.copies.size() == 1) s.regs[f.base + e.copies[0].first] = V(s, f, e.copies[0].second);
        else {
            Val tmp[64];
            std::vector<Val> big;
            Val *t = tmp;
            if (e.copies.size() > 64) { big.resize(e.copies.size()); t = big.data(); }
            for (size_t i = 0; i < e.copies.size(); i++) t[i] = V(s, f, e.copies[i].second);
            for (size_t i = 0; i < e.copies.size(); i++) s.regs[f.base + e.copies[i].first] = t[i];
        }
    }
    f.pc = e.target;
}
static bool tiMatches(Engine &E, uint64_t thrown, uint64_t want) {
    if (want == 0 || thrown == want) return true;
    static const std::map<std::string, const char *> stdBase = {
        {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"},
        {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"},
        {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"},
        {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"},
        {"_ZTISt12bad_weak_ptr", "_ZTISt9exception"}, {"_ZTISt19bad_optional_access", "_ZTISt9exception"},
        {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"}};
    auto b = E.tiBases.find(thrown);
    if (b != E.tiBases.end()) {
        for (uint64_t x : b->second) if (tiMatches(E, x, want)) return true;
        return false;
    }
    auto n = E.tiNames.find(thrown);
    if (n == E.tiNames.end()) return false;
    auto sb = stdBase.find(n->second);
    if (sb == stdBase.end()) return false;
    auto it = E.extTi.find(sb->second);
    if (it != E.extTi.end()) return tiMatches(E, it->second, want);
    // base typeinfo not referenced in the module: climb by name
    static uint64_t dummy = 0x5000;
    uint64_t a = E.extTi[sb->second] = (dummy += 8);
    E.tiNames[a] = sb->second;
    return tiMatches(E, a, want);
}
static int tiId(Engine &E, uint64_t ti) {
    auto it = E.tiIds.find(ti);
    if (it != E.tiIds.end()) return it->second;
    int n = E.tiIds.size() + 1;
    return E.tiIds[ti] = n;
}
// The exception in flight leaves the function on top (popFirst) or continues from it.
void Engine::unwind(State &s, bool popFirst) {
    bool pop = popFirst;
    while (true) {
        if (pop) popFrame(s);
        pop = true;
        if (s.frames.empty()) {
            auto n = tiNames.find(s.excTi);
            std::string nm = n == tiNames.end() ? "?" : n->second;
            if (nm.compare(0, 4, "_ZTI") == 0) nm = llvm::demangle(nm);
            fail(s, "uncaught exception (" + nm + ")");
        }
        Frame &f = s.frames.back();
        Inst &I = f.f->code[f.pc];
        if (I.op != I_CALL || !I.invoke) {
            if (f.f->f && f.f->f->doesNotThrow()) fail(s, "exception leaves a noexcept function: std::terminate");
            continue;
        }
        Inst &L = f.f->code[I.edges[1].target];
        if (L.op != I_LANDINGPAD) unsupported(s, "unwind target is not a landingpad");
        int sel = 0;
        bool match = false;
        for (uint64_t c : L.clauses) if (tiMatches(*this, s.excTi, c)) { sel = c ? tiId(*this, c) : 1000000; match = true; break; }
        if (!match && !L.cleanup) continue;
        gotoEdge(s, I.edges[1]);
        Frame &f2 = s.frames.back();
        s.regs[f2.base + L.dst] = Val(s.excObj);
        s.regs[f2.base + L.dst + 1] = Val((uint64_t)(uint32_t)sel);
        f2.pc++; // past the landingpad
        return;
    }
}
void Engine::throwExc(State &s, uint64_t obj, uint64_t ti) {
    s.excObj = obj;
    s.excTi = ti;
    s.excTis.push_back({obj, ti});
    unwind(s, false); // the call instruction itself may be an invoke
}
void Engine::throwStd(State &s, const char *tn) {
    uint64_t ti = typeinfoByName(s, tn);
    uint32_t id = s.mem.alloc(64, OK_EXC, 0);
    throwExc(s, baseOf(id), ti);
    throw Unwound{};
}

void Engine::doRet(State &s, Inst *I) {
    Frame &f = s.frames.back();
    Val rv[32];
    unsigned n = I ? I->n : 0;
    if (n > 32) unsupported(s, "large return value");
    for (unsigned k = 0; k < n; k++) rv[k] = V(s, f, I->a >= 0 ? I->a + (int)k : I->a - (int)k);
    popFrame(s);
    if (s.frames.empty()) return;
    Frame &c = s.frames.back();
    Inst &C = c.f->code[c.pc];
    if (C.op == I_CALL) {
        if (C.dst >= 0) for (unsigned k = 0; k < n; k++) s.regs[c.base + C.dst + k] = rv[k];
        if (C.invoke) gotoEdge(s, C.edges[0]);
        else c.pc++;
    } else unsupported(s, "return into a non-call");
}

void Engine::doCall(State &s, Inst &I, Func *f, std::vector<Val> &args) {
    Val ret;
    if (onCall && onCall(s, I, f, args)) return;
    if (f->h) {
        f->executed = true;
        f->h(*this, s, I, args, ret);
    } else if (f->defined) {
        startFunction(s, f, args);
        return;
    } else if (I.weak) {
        fail(s, "call of a null function");
    } else {
        havocExt[f->name]++;
        if (I.n == 1) ret = newSym(s, "ext:" + f->name, I.leaves[0].w, false);
        else if (I.n > 1) unsupported(s, "external function with aggregate result: " + f->name);
    }
    Frame &c = s.frames.back();
    if (I.dst >= 0 && I.n == 1) s.regs[c.base + I.dst] = ret;
    if (I.invoke) gotoEdge(s, I.edges[0]);
    else c.pc++;
}

static double asD(uint64_t v, unsigned w) {
    if (w == 32) { float f; uint32_t x = v; memcpy(&f, &x, 4); return f; }
    double d; memcpy(&d, &v, 8); return d;
}
static uint64_t fromD(double d, unsigned w) {
    if (w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return x; }
    uint64_t v; memcpy(&v, &d, 8); return v;
}

void Engine::step(State &s) {
    Frame &f = s.frames.back();
    Inst &I = f.f->code[f.pc];
    s.instrs++;
#define SETR(v) s.regs[f.base + I.dst] = (v)
    switch (I.op) {
    case I_BIN: {
        const Val &a = V(s, f, I.a), &b = V(s, f, I.b);
        if (!a.e && !b.e) {
            uint64_t r;
            if (!foldBin((Op)I.sub, I.w, a.c, b.c, r)) fail(s, "division by zero");
            SETR(Val(r));
        } else {
            if ((I.sub == UDIV || I.sub == SDIV || I.sub == UREM || I.sub == SREM) && b.e) {
                uint64_t d = resolve(s, b, I.w);
                if (!d) fail(s, "division by zero");
                SETR(Val(mkBin((Op)I.sub, toE(a, I.w), mkConst(d, I.w))));
            } else SETR(Val(mkBin((Op)I.sub, toE(a, I.w), toE(b, I.w))));
        }
        f.pc++;
        break;
    }
    case I_ICMP: {
        const Val &a = V(s, f, I.a), &b = V(s, f, I.b);
        if (!a.e && !b.e) {
            uint64_t r;
            foldBin((Op)I.sub, I.w, a.c, b.c, r);
            SETR(Val(r ^ I.imm));
        } else {
            E r = mkCmp((Op)I.sub, toE(a, I.w), toE(b, I.w));
            if (I.imm) r = mkNot(r);
            SETR(Val(r));
        }
        f.pc++;
        break;
    }
    case I_LOAD: {
        if (I.ord && onAtomic && onAtomic(s, I)) break;
        uint64_t a = resolveAddr(s, V(s, f, I.a), I.imm, false);
        if (onAccess) onAccess(s, I, a, I.imm, false);
        if (I.n == 1) {
            unsigned n = (I.w + 7) / 8;
            Val v = load(s, a, n);
            if (I.w & 7) { if (v.e) v = Val(mkExtract(v.e, 0, I.w)); else v.c &= maskw(I.w); }
            SETR(v);
        } else {
            for (unsigned k = 0; k < I.n; k++) {
                unsigned n = (I.leaves[k].w + 7) / 8;
                Val v = load(s, a + I.leaves[k].off, n);
                if (I.leaves[k].w & 7) { if (v.e) v = Val(mkExtract(v.e, 0, I.leaves[k].w)); else v.c &= maskw(I.leaves[k].w); }
                s.regs[f.base + I.dst + k] = v;
            }
        }
        f.pc++;
        break;
    }
    case I_STORE: {
        if (I.ord && onAtomic && onAtomic(s, I)) break;
        uint64_t a = resolveAddr(s, V(s, f, I.a), I.imm, true);
        if (onAccess) onAccess(s, I, a, I.imm, true);
        for (unsigned k = 0; k < I.n; k++) {
            unsigned n = (I.leaves[k].w + 7) / 8;
            Val v = V(s, f, I.b >= 0 ? I.b + (int)k : I.b - (int)k);
            if ((I.leaves[k].w & 7) && v.e) v = Val(mkZext(v.e, n * 8));
            store(s, a + I.leaves[k].off, n, v);
        }
        f.pc++;
        break;
    }
    case I_GEP: {
        Val b = V(s, f, I.a);
        uint64_t off = I.imm;
        E e = b.e;
        uint64_t c = b.c;
        for (auto &t : I.gep) {
            const Val &x = V(s, f, t.opnd);
            if (!x.e) off += (uint64_t)(sx(x.c, t.w) * t.scale);
            else {
                E y = mkSext(simp(s, x.e), 64);
                if (t.w > 64) unsupported(s, "wide gep index");
                uint64_t sc = (uint64_t)t.scale;
                y = (sc & (sc - 1)) == 0 && sc ? mkBin(SHL, y, mkConst(__builtin_ctzll(sc), 64)) : mkBin(MUL, y, mkConst(sc, 64));
                e = e ? mkBin(ADD, e, y) : mkBin(ADD, mkConst(c, 64), y);
            }
        }
        if (!e) SETR(Val(c + off));
        else SETR(Val(mkBin(ADD, e, mkConst(off, 64))));
        f.pc++;
        break;
    }
    case I_BR: gotoEdge(s, I.edges[0]); break;
    case I_CBR: {
        bool t = branch(s, V(s, f, I.a));
        gotoEdge(s, I.edges[t ? 0 : 1]);
        break;
    }
    case I_SWITCH: {
        const Val sv = V(s, f, I.a);
        size_t k = 0;
        if (sv.e) {
            for (size_t i = 0; i < I.cases.size(); i++) if (branch(s, Val(mkCmp(EQ, sv.e, mkConst(I.cases[i], I.w))))) { k = i + 1; break; }
            gotoEdge(s, I.edges[k]);
            break;
        }
        uint64_t v = sv.c;
        for (size_t i = 0; i < I.cases.size(); i++) if (I.cases[i] == v) { k = i + 1; break; }
        gotoEdge(s, I.edges[k]);
        break;
    }
    case I_RET: doRet(s, &I); break;
    case I_CALL: {
        Func *cf = I.callee;
        if (!cf) {
            uint64_t a = resolve(s, V(s, f, I.a), 64);
            auto it = byAddr.find(a);
            if (it == byAddr.end()) fail(s, "call through an invalid function pointer");
            cf = it->second;
        }
        std::vector<Val> args;
        args.reserve(8);
        std::vector<uint32_t> temps;
        for (size_t k = 0; k < I.args.size(); k++) {
            if (I.byval[k]) {
                uint64_t src = resolveAddr(s, V(s, f, I.args[k]), I.byval[k], false);
                uint32_t id = s.mem.alloc(I.byval[k], OK_STACK, 0);
                copyMem(s, baseOf(id), src, I.byval[k]);
                temps.push_back(id);
                args.push_back(Val(baseOf(id)));
                continue;
            }
            for (unsigned j = 0; j < I.argN[k]; j++) args.push_back(V(s, f, I.args[k] >= 0 ? I.args[k] + (int)j : I.args[k] - (int)j));
        }
        try {
            size_t depth = s.frames.size();
            doCall(s, I, cf, args);
            if (!temps.empty() && s.frames.size() > depth) for (uint32_t t : temps) s.frames.back().allocas.push_back(t);
        } catch (Unwound &) {}
        break;
    }
    case I_UNREACHABLE: fail(s, "unreachable code reached");
    case I_SELECT: {
        Val c = V(s, f, I.a);
        if (c.e) c = Val(simp(s, c.e));
        for (unsigned k = 0; k < I.n; k++) {
            const Val &x = V(s, f, I.b >= 0 ? I.b + (int)k : I.b - (int)k), &y = V(s, f, I.c >= 0 ? I.c + (int)k : I.c - (int)k);
            Val r;
            if (!c.e) r = (c.c & 1) ? x : y;
            else if (!x.e && !y.e && x.c == y.c) r = x;
            else r = Val(mkIte(c.e, toE(x, I.leaves[k].w), toE(y, I.leaves[k].w)));
            s.regs[f.base + I.dst + k] = r;
        }
        f.pc++;
        break;
    }
    case I_TRUNC: { const Val &a = V(s, f, I.a); SETR(a.e ? Val(mkExtract(a.e, 0, I.imm)) : Val(a.c & maskw(I.imm))); f.pc++; break; }
    case I_ZEXT: { const Val &a = V(s, f, I.a); SETR(a.e ? Val(mkZext(a.e, I.imm)) : Val(a.c & maskw(I.w))); f.pc++; break; }
    case I_SEXT: { const Val &a = V(s, f, I.a); SETR(a.e ? Val(mkSext(a.e, I.imm)) : Val((uint64_t)sx(a.c, I.w) & maskw(I.imm))); f.pc++; break; }
    case I_COPY:
        for (unsigned k = 0; k < I.n; k++) s.regs[f.base + I.dst + k] = V(s, f, I.a >= 0 ? I.a + (int)k : I.a - (int)k);
        f.pc++;
        break;
    case I_ALLOCA: {
        uint64_t n = resolve(s, V(s, f, I.a), I.w);
        uint32_t id = s.mem.alloc(I.imm * n, OK_STACK, 0xCC);
        s.frames.back().allocas.push_back(id);
        REG(I.dst) = Val(baseOf(id));
        s.frames.back().pc++;
        break;
    }
    case I_LANDINGPAD: unsupported(s, "fell into a landingpad");
    case I_RESUME: {
        const Val &v = V(s, f, I.a);
        uint64_t obj = v.c;
        s.excObj = obj;
        for (auto &p : s.excTis) if (p.first == obj) s.excTi = p.second;
        unwind(s, true);
        break;
    }
    case I_RMW: {
        if (onAtomic && onAtomic(s, I)) break;
        uint64_t a = resolveAddr(s, V(s, f, I.a), I.w / 8, true);
        Val old = load(s, a, I.w / 8);
        const Val &b = V(s, f, I.b);
        Op o;
        Val nv;
        switch ((AtomicRMWInst::BinOp)I.sub) {
        case AtomicRMWInst::Xchg: nv = b; o = ADD; break;
        case AtomicRMWInst::Add: o = ADD; break; case AtomicRMWInst::Sub: o = SUB; break;
        case AtomicRMWInst::And: o = AND; break; case AtomicRMWInst::Or: o = OR; break; case AtomicRMWInst::Xor: o = XOR; break;
        default: unsupported(s, "atomicrmw op");
        }
        if ((AtomicRMWInst::BinOp)I.sub != AtomicRMWInst::Xchg) {
            if (!old.e && !b.e) { uint64_t r; foldBin(o, I.w, old.c, b.c, r); nv = Val(r); }
            else nv = Val(mkBin(o, toE(old, I.w), toE(b, I.w)));
        }
        store(s, a, I.w / 8, nv);
        if (I.dst >= 0) SETR(old);
        f.pc++;
        break;
    }
    case I_CMPXCHG: {
        if (onAtomic && onAtomic(s, I)) break;
        uint64_t a = resolveAddr(s, V(s, f, I.a), I.w / 8, true);
        Val old = load(s, a, I.w / 8);
        const Val &cmp = V(s, f, I.b), &nv = V(s, f, I.c);
        Val c;
        if (!old.e && !cmp.e) c = Val((uint64_t)(old.c == cmp.c));
        else c = Val(mkCmp(EQ, toE(old, I.w), toE(cmp, I.w)));
        bool ok = branch(s, c);
        if (ok) store(s, a, I.w / 8, nv);
        s.regs[f.base + I.dst] = old;
        s.regs[f.base + I.dst + 1] = Val((uint64_t)ok);
        f.pc++;
        break;
    }
    case I_FENCE: f.pc++; break;
    case I_FBIN: {
        const Val &a = V(s, f, I.a), &b = V(s, f, I.b);
        uint64_t x = resolve(s, a, I.w), y = resolve(s, b, I.w);
        double p = asD(x, I.w), q = asD(y, I.w), r = I.sub == 0 ? p + q : I.sub == 1 ? p - q : I.sub == 2 ? p * q : p / q;
        SETR(Val(fromD(r, I.w)));
        f.pc++;
        break;
    }
    case I_FCMP: {
        double p = asD(resolve(s, V(s, f, I.a), I.w), I.w), q = asD(resolve(s, V(s, f, I.b), I.w), I.w);
        bool un = std::isnan(p) || std::isnan(q);
        unsigned pr = I.sub;
        bool r = false;
        if (un) r = pr & 8;
        else r = ((pr & 1) && p == q) || ((pr & 2) && p > q) || ((pr & 4) && p < q);
        SETR(Val((uint64_t)r));
        f.pc++;
        break;
    }
    case I_FCAST: {
        uint64_t x = resolve(s, V(s, f, I.a), I.w);
        uint64_t r = 0;
        switch (I.sub) {
        case Instruction::UIToFP: r = fromD((double)x, I.imm); break;
        case Instruction::SIToFP: r = fromD((double)sx(x, I.w), I.imm); break;
        case Instruction::FPToUI: r = (uint64_t)asD(x, I.w) & maskw(I.imm); break;
        case Instruction::FPToSI: r = (uint64_t)(int64_t)asD(x, I.w) & maskw(I.imm); break;
        case Instruction::FPExt: case Instruction::FPTrunc: r = fromD(asD(x, I.w), I.imm); break;
        default: unsupported(s, "cast");
        }
        SETR(Val(r));
        f.pc++;
        break;
    }
    case I_UNSUP: {
        std::string t;
        raw_string_ostream os(t);
        I.src->print(os);
        unsupported(s, "unsupported instruction:" + t);
    }
    }
}

bool Engine::runPath(State &s) {
    try {
        while (!s.frames.empty()) {
            step(s);
            if (s.instrs > maxInstrs) fail(s, "operation does not terminate (instruction limit)");
        }
        paths++;
        totalInstrs += s.instrs;
        if (s.leakCheck) {
            for (uint32_t id = s.leakFrom; id < s.mem.next; id++) {
                Obj *o = s.mem.get(id);
                if (o && o->kind == OK_HEAP) { report(s, "memory leak: heap block never released", s.model); break; }
            }
        }
        if (onPathEnd) onPathEnd(s, {PathEnd::OK, ""});
        return true;
    } catch (StopPath &p) {
        totalInstrs += s.instrs;
        if (p.e.k == PathEnd::KILLED) killed++;
        else if (p.e.k == PathEnd::ERROR) errors++;
        else paths++;
        if (onPathEnd) onPathEnd(s, p.e);
        return false;
    }
}
} // namespace tse
