// Concurrency mode.  Every thread function is explored symbolically on its own (shared atomic loads return free values);
// a query then combines one path per thread and asks the solver for an interleaving, with reads-from, happens-before and
// the property as constraints.
#include "exec.h"
#include <algorithm>
#include <array>
#include <chrono>
#include <functional>
#include <fstream>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/Support/raw_ostream.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <atomic>
#include <unistd.h>
using llvm::AtomicOrdering;
namespace tse {
struct Ev {
    char k;            // L load, S store, R successful read-modify-write, F failed compare-exchange, N notify, W sleep check, M mark
    uint64_t addr = 0;
    unsigned bytes = 4;
    E rd = nullptr, wr = nullptr;
    bool acq = false, rel = false, one = false;
    std::string mark;
    size_t npc = 0;
    E g = nullptr; // executed only if this holds (null: always)
    std::string where;
    std::string desc;
    E out = nullptr; // value given to vp_out
};
struct Acc { E g; int seg; uint32_t obj; uint64_t lo, hi; bool w; int phase; const llvm::Instruction *at; Func *fn; size_t npc = 0; };
struct ConcState {
    std::vector<Ev> ev;
    std::vector<Acc> acc;
    struct Seen { int ev; uint64_t writes; int n; };
    std::map<std::string, Seen> seen; // call stack + address -> event, last write count, visits
    uint64_t writes = 0;
    int phase = 0; // 0 before, 1 start..begun, 2 body, 3 release..done, 4 after
    Val pending;
    bool hasPending = false;
    int waits = 0, txs = 0;
};
enum LeafKind { L_COMPLETE, L_SPIN, L_WAIT, L_THROW, L_PARK, L_BOUND };
static const char *leafName[] = {"complete", "spin", "wait", "throw", "park", "bound"};
struct Path {
    LeafKind leaf;
    std::string msg;
    int spinFrom = 0;
    std::vector<Ev> ev;
    std::vector<Acc> acc;
    std::vector<E> pc;
    std::shared_ptr<State> end; // final memory
    int find(const char *m) const { for (size_t i = 0; i < ev.size(); i++) if (ev[i].k == 'M' && ev[i].mark == m) return i; return -1; }
};
struct Thread {
    std::string name, func;
    bool park = false;
    int unroll = 0;
    bool commitOnly = false;
    std::vector<Path> paths;
    uint64_t explored = 0, errors = 0, instrs = 0, joined = 0;
    double secs = 0;
};
struct ConcStop { LeafKind k; int spinFrom; std::string msg; };

static Engine *EN;
static uint64_t shLo = 1, shHi = 0;
static uint32_t s0next = 1;
static std::set<uint32_t> tlsObjs;
static Thread *cur;
static unsigned maxEvents = 150;
static int maxVisits = 2;
static std::shared_ptr<State> S0;
static std::map<uint32_t, std::pair<uint32_t, uint64_t>> cellOf; // object -> (object, offset) of the pointer that names it

static ConcState &wc(State &s) {
    if (s.conc.use_count() > 1) s.conc = std::make_shared<ConcState>(*s.conc);
    return *s.conc;
}
static std::vector<std::pair<uint64_t, uint64_t>> ranges; // further memory whose atomics synchronize: the global variables
static bool isShared(uint64_t a, unsigned n) {
    if (a >= shLo && a + n <= shHi) return true;
    for (auto &r : ranges) if (a >= r.first && a + n <= r.second) return true;
    return false;
}
// position independent name of a shared location
static uint64_t shOff(uint64_t a) {
    if (a >= shLo && a < shHi) return a - shLo;
    for (size_t i = 0; i < ranges.size(); i++) if (a >= ranges[i].first && a < ranges[i].second) return ((i + 1) << 32) + (a - ranges[i].first);
    return a - shLo;
}
static std::vector<const llvm::GlobalVariable *> sharedGlobals(llvm::Module &M) {
    std::vector<const llvm::GlobalVariable *> v;
    for (auto &g : M.globals())
        if (!g.isConstant() && !g.isThreadLocal() && !g.isDeclaration() && !g.getName().starts_with("llvm.") && g.getValueType()->isSized() && M.getDataLayout().getTypeAllocSize(g.getValueType()) <= 256) v.push_back(&g);
    std::sort(v.begin(), v.end(), [](auto *a, auto *b) { return a->getName() < b->getName(); });
    return v;
}
static bool isAcq(uint8_t o) { auto x = (AtomicOrdering)o; return x == AtomicOrdering::Acquire || x == AtomicOrdering::AcquireRelease || x == AtomicOrdering::SequentiallyConsistent; }
static bool isRel(uint8_t o) { auto x = (AtomicOrdering)o; return x == AtomicOrdering::Release || x == AtomicOrdering::AcquireRelease || x == AtomicOrdering::SequentiallyConsistent; }

static std::string stackKey(State &s) {
    std::string k;
    for (auto &f : s.frames) { k += std::to_string((uintptr_t)f.f); k += ':'; k += std::to_string(f.pc); k += ';'; }
    return k;
}
static std::string shortWhere(State &s) {
    for (size_t i = s.frames.size(); i-- > 0;) {
        std::string d = llvm::demangle(s.frames[i].f->name);
        if (d.find("std::") == 0 || d.find(" std::") != std::string::npos || d.find("Tecs::") == std::string::npos) continue;
        size_t p = d.find('(');
        if (d.size() > 160) d = d.substr(0, 160);
        (void)p;
        return d;
    }
    return "";
}
static void stop(State &s, LeafKind k, const std::string &msg, int from = 0) {
    (void)s;
    throw ConcStop{k, from, msg};
}
static void addEv(State &s, Ev e) {
    ConcState &c = wc(s);
    e.npc = s.pc.size();
    e.where = e.k == 'M' ? e.mark : shortWhere(s);
    c.ev.push_back(e);
    if (c.ev.size() > maxEvents) stop(s, L_BOUND, "event bound");
}
static Val symRead(State &s, unsigned w) {
    ConcState &c = wc(s);
    if (c.hasPending) return c.pending;
    c.pending = EN->newSym(s, cur->name + ".r" + std::to_string(c.ev.size()), w, false);
    c.hasPending = true;
    return c.pending;
}
static const Val &RV(const State &s, const Frame &f, int32_t x) { return x >= 0 ? s.regs[f.base + x] : f.f->consts[~x]; }

static bool conAtomic(State &s, Inst &I) {
    Frame &f = s.frames.back();
    const Val &pv = RV(s, f, I.a);
    uint64_t a = EN->resolve(s, pv, 64);
    unsigned w = I.op == I_STORE ? I.leaves[0].w : I.w;
    unsigned n = (w + 7) / 8;
    if (!isShared(a, n)) return false;
    // the object must be accessible
    EN->load(s, a, n);
    int dst = I.dst;
    switch (I.op) {
    case I_LOAD: {
        std::string key = stackKey(s) + std::to_string(a);
        {
            ConcState &c = wc(s);
            auto it = c.seen.find(key);
            int n = 1;
            if (it != c.seen.end()) {
                if (it->second.writes == c.writes) stop(s, L_SPIN, "spins", it->second.ev);
                if ((n = it->second.n + 1) > maxVisits) stop(s, L_BOUND, "retry bound");
            }
            c.seen[key] = {(int)c.ev.size(), c.writes, n};
        }
        Val v = EN->newSym(s, cur->name + ".r" + std::to_string(s.conc->ev.size()), n * 8, false);
        Ev e; e.k = 'L'; e.addr = a; e.bytes = n; e.rd = v.e; e.acq = isAcq(I.ord);
        addEv(s, e);
        Frame &g = s.frames.back();
        s.regs[g.base + dst] = w == n * 8 ? v : Val(mkExtract(v.e, 0, w));
        g.pc++;
        return true;
    }
    case I_STORE: {
        Ev e; e.k = 'S'; e.addr = a; e.bytes = n; e.wr = toE(RV(s, f, I.b), n * 8); e.rel = isRel(I.ord);
        if (e.wr->w != n * 8) e.wr = mkZext(e.wr, n * 8);
        addEv(s, e);
        wc(s).writes++;
        s.frames.back().pc++;
        return true;
    }
    case I_RMW: {
        Val old = EN->newSym(s, cur->name + ".r" + std::to_string(s.conc->ev.size()), w, false);
        E b = toE(RV(s, f, I.b), w), nv = nullptr;
        switch ((llvm::AtomicRMWInst::BinOp)I.sub) {
        case llvm::AtomicRMWInst::Xchg: nv = b; break;
        case llvm::AtomicRMWInst::Add: nv = mkBin(ADD, old.e, b); break;
        case llvm::AtomicRMWInst::Sub: nv = mkBin(SUB, old.e, b); break;
        case llvm::AtomicRMWInst::And: nv = mkBin(AND, old.e, b); break;
        case llvm::AtomicRMWInst::Or: nv = mkBin(OR, old.e, b); break;
        case llvm::AtomicRMWInst::Xor: nv = mkBin(XOR, old.e, b); break;
        default: EN->unsupported(s, "atomicrmw operation");
        }
        Ev e; e.k = 'R'; e.addr = a; e.bytes = n; e.rd = old.e; e.wr = nv; e.acq = isAcq(I.ord); e.rel = isRel(I.ord);
        addEv(s, e);
        wc(s).writes++;
        Frame &g = s.frames.back();
        if (dst >= 0) s.regs[g.base + dst] = old;
        g.pc++;
        return true;
    }
    case I_CMPXCHG: {
        Val old = symRead(s, w);
        E cmp = toE(RV(s, f, I.b), w), nv = toE(RV(s, f, I.c), w);
        bool ok = EN->branch(s, Val(mkCmp(EQ, old.e, cmp)));
        wc(s).hasPending = false;
        Ev e; e.k = ok ? 'R' : 'F'; e.addr = a; e.bytes = n; e.rd = old.e;
        if (ok) { e.wr = nv; e.acq = isAcq(I.ord); e.rel = isRel(I.ord); }
        else e.acq = isAcq(I.ord2);
        addEv(s, e);
        if (ok) wc(s).writes++;
        Frame &g = s.frames.back();
        s.regs[g.base + dst] = old;
        s.regs[g.base + dst + 1] = Val((uint64_t)ok);
        g.pc++;
        return true;
    }
    default: return false;
    }
}
static void access(State &s, uint64_t a, uint64_t n, bool w, const llvm::Instruction *at) {
    if (!n) return;
    uint32_t id = idOf(a);
    Obj *o = s.mem.get(id);
    if (!o) return; // reported by the access itself
    if (o->kind == OK_STACK || o->kind == OK_CONSTGLOBAL || o->kind == OK_EXC) return;
    if (o->kind == OK_GLOBAL && tlsObjs.count(id)) return;
    if (s.errnoAddr && idOf(s.errnoAddr) == id) return;
    ConcState &c = wc(s);
    int seg = (int)c.ev.size() - 1;
    uint64_t lo = a - baseOf(id), hi = lo + n;
    for (size_t i = c.acc.size(), k = 0; i-- > 0 && k < 40 && c.acc[i].seg == seg; k++) {
        Acc &x = c.acc[i];
        if (!x.g && x.npc == s.pc.size() && x.obj == id && x.w == w && x.phase == c.phase && lo <= x.hi && hi >= x.lo) { x.lo = std::min(x.lo, lo); x.hi = std::max(x.hi, hi); return; }
    }
    c.acc.push_back({nullptr, seg, id, lo, hi, w, c.phase, at, s.frames.empty() ? nullptr : s.frames.back().f, s.pc.size()});
}
static int callKind(Func *f) { // 1 wait, 2 notify, 3 yield, 4 mutex lock, 5 mutex unlock, 6 trylock
    static std::map<Func *, int> memo;
    auto it = memo.find(f);
    if (it != memo.end()) return it->second;
    int k = 0;
    std::string d = llvm::demangle(f->name);
    auto is = [&](const char *m) {
        for (const char *c : {"std::__atomic_base<", "std::atomic<", "std::atomic_flag::", "std::__atomic_flag_base::"}) {
            size_t p = d.find(c);
            if (p == std::string::npos || p > 5) continue;
            size_t q = d.find(std::string("::") + m + "(");
            if (q != std::string::npos) return true;
        }
        return false;
    };
    if (is("wait")) k = 1;
    else if (is("notify_all")) k = 2;
    else if (is("notify_one")) k = 7;
    else if (d == "sched_yield" || d.find("std::this_thread::yield") != std::string::npos) k = 3;
    else if (d == "pthread_mutex_lock") k = 4;
    else if (d == "pthread_mutex_unlock") k = 5;
    else if (d == "pthread_mutex_trylock") k = 6;
    return memo[f] = k;
}
static void retVoid(State &s, Inst &I) {
    Frame &c = s.frames.back();
    if (I.invoke) EN->gotoEdge(s, I.edges[0]);
    else c.pc++;
}
static bool conCall(State &s, Inst &I, Func *f, std::vector<Val> &args) {
    int k = callKind(f);
    if (!k) {
        const std::string &n = f->name;
        if (n == "vp_mark") {
            std::string m = EN->readStr(s, EN->resolve(s, args[0], 64));
            Ev e; e.k = 'M'; e.mark = m;
            ConcState &c = wc(s);
            if (m == "start") c.phase = 1;
            else if (m == "begun") c.phase = 2;
            else if (m == "release") c.phase = 3;
            else if (m == "done") c.phase = 4;
            addEv(s, e);
            wc(s).writes++;
            retVoid(s, I);
            return true;
        }
        if (n == "vp_out") {
            Ev e; e.k = 'M'; e.mark = "out"; e.out = toE(args[0], 64);
            addEv(s, e);
            retVoid(s, I);
            return true;
        }
        if (n == "vp_park") {
            if (cur->park) stop(s, L_PARK, "held open");
            retVoid(s, I);
            return true;
        }
        if (n == "vp_check") { retVoid(s, I); return true; }
        return false;
    }
    if (k == 3) {
        if (I.dst >= 0 && I.n == 1) s.regs[s.frames.back().base + I.dst] = Val((uint64_t)0);
        retVoid(s, I);
        return true;
    }
    uint64_t a = EN->resolve(s, args[0], 64);
    if (k >= 4 && k <= 6) {
        if (!isShared(a, 4)) return false;
        if (k == 5) {
            Ev e; e.k = 'S'; e.addr = a; e.bytes = 4; e.wr = mkConst(0, 32); e.rel = true;
            addEv(s, e);
            wc(s).writes++;
        } else {
            Val old = symRead(s, 32);
            bool ok = EN->branch(s, Val(mkCmp(EQ, old.e, mkConst(0, 32))));
            wc(s).hasPending = false;
            int from = s.conc->ev.size();
            Ev e; e.k = ok ? 'R' : 'F'; e.addr = a; e.rd = old.e; e.acq = ok;
            if (ok) e.wr = mkConst(1, 32);
            addEv(s, e);
            if (ok) wc(s).writes++;
            else if (k == 4) stop(s, L_SPIN, "waits for a mutex", from);
            if (k == 6 && I.dst >= 0) s.regs[s.frames.back().base + I.dst] = Val((uint64_t)(ok ? 0 : 16));
        }
        if (k != 6 && I.dst >= 0 && I.n == 1) s.regs[s.frames.back().base + I.dst] = Val((uint64_t)0);
        retVoid(s, I);
        return true;
    }
    if (!isShared(a, 1)) { if (k != 1) { retVoid(s, I); return true; } EN->unsupported(s, "wait on a private atomic"); }
    if (k != 1) {
        Ev e; e.k = 'N'; e.addr = a; e.one = k == 7;
        addEv(s, e);
        retVoid(s, I);
        return true;
    }
    // wait(old, order): blocks while the value is still `old`
    unsigned w = 32;
    if (I.args.size() > 1 && I.callee && I.callee->f && I.callee->f->arg_size() > 1 && I.callee->f->getArg(1)->getType()->isIntegerTy()) w = I.callee->f->getArg(1)->getType()->getIntegerBitWidth();
    if (w < 8) w = 8;
    Val v = EN->newSym(s, cur->name + ".w" + std::to_string(s.conc->ev.size()), w, false);
    E old = toE(args[1], w);
    Ev e; e.k = 'W'; e.addr = a; e.bytes = w / 8; e.rd = v.e; e.acq = true;
    E still = mkCmp(EQ, v.e, old);
    if (wc(s).waits < cur->unroll && !(cur->commitOnly && s.conc->phase != 3)) {
        // also continue after having been woken
        State *o = EN->fork(s);
        ConcState &oc = wc(*o);
        oc.waits++;
        oc.writes++;
        addEv(*o, e);
        o->conc->ev.back().acq = false;
        EN->addPC(*o, still);
        retVoid(*o, I);
    }
    addEv(s, e);
    EN->addPC(s, still);
    stop(s, L_WAIT, "sleeps");
    return true;
}


static E andE(E a, E b) { return !a ? b : !b ? a : a == b ? a : mkBin(AND, a, b); }
static bool sameObj(const Obj *a, const Obj *b) {
    if (a == b) return true;
    if (!a || !b || a->kind != b->kind || a->ak != b->ak || a->size != b->size || a->b != b->b) return false;
    if (a->s == b->s) return true;
    for (size_t i = 0; i < a->size; i++) if ((a->s.empty() ? nullptr : a->s[i]) != (b->s.empty() ? nullptr : b->s[i])) return false;
    return true;
}
static bool sameMem(const Mem &a, const Mem &b) {
    size_t n = std::max(a.ch.size(), b.ch.size());
    for (size_t i = 0; i < n; i++) {
        Chunk *x = i < a.ch.size() ? a.ch[i] : nullptr, *y = i < b.ch.size() ? b.ch[i] : nullptr;
        if (x == y) continue;
        for (unsigned k = 0; k < CH; k++) if (!sameObj(x ? x->o[k] : nullptr, y ? y->o[k] : nullptr)) return false;
    }
    return true;
}
static bool sameEv(const Ev &a, const Ev &b) { return a.k == b.k && a.addr == b.addr && a.rd == b.rd && a.wr == b.wr && a.g == b.g && a.npc == b.npc && a.mark == b.mark && a.out == b.out; }
static bool sameAcc(const Acc &a, const Acc &b) { return a.g == b.g && a.seg == b.seg && a.obj == b.obj && a.lo == b.lo && a.hi == b.hi && a.w == b.w && a.phase == b.phase && a.at == b.at && a.npc == b.npc; }
// Where control flow meets inside a function, and which registers still matter there (SSA: only values whose definition
// dominates the block).
struct FnInfo {
    std::vector<char> meet;
    std::vector<const llvm::BasicBlock *> def;
    std::map<const llvm::BasicBlock *, std::vector<char>> live;
    std::unique_ptr<llvm::DominatorTree> dt;
};
static FnInfo &fnInfo(Func *f) {
    static std::map<Func *, std::unique_ptr<FnInfo>> memo;
    auto &m = memo[f];
    if (m) return *m;
    m = std::make_unique<FnInfo>();
    m->meet.assign(f->code.size(), 0);
    m->def.assign(f->nregs, nullptr);
    m->dt = std::make_unique<llvm::DominatorTree>(*f->f);
    for (auto &I : f->code) {
        if (I.dst >= 0) {
            unsigned n = std::max<unsigned>(1, I.n);
            if (I.op == I_CMPXCHG) n = std::max(n, 2u);
            for (unsigned k = 0; k < n && I.dst + k < f->nregs; k++) m->def[I.dst + k] = I.src->getParent();
        }
        for (auto &e : I.edges) {
            const llvm::BasicBlock *b = f->code[e.target].src->getParent();
            if (b->hasNPredecessorsOrMore(2)) m->meet[e.target] = 1;
            for (auto &c : e.copies) if (c.first >= 0 && c.first < (int)f->nregs) m->def[c.first] = b;
        }
    }
    return *m;
}
static const std::vector<char> &liveAt(Func *f, uint32_t pc) {
    FnInfo &m = fnInfo(f);
    const llvm::BasicBlock *b = f->code[pc].src->getParent();
    auto it = m.live.find(b);
    if (it != m.live.end()) return it->second;
    std::vector<char> v(f->nregs, 1);
    for (size_t i = 0; i < v.size(); i++) if (m.def[i] && !m.dt->dominates(m.def[i], b)) v[i] = 0;
    return m.live[b] = v;
}
// Joins b into a if the two only differ in how they got here: the events that differ become conditional.
static bool join(State &a, State &b) {
    if (a.frames.size() != b.frames.size() || a.regs.size() != b.regs.size()) return false;
    for (size_t i = 0; i < a.frames.size(); i++)
        if (a.frames[i].f != b.frames[i].f || a.frames[i].pc != b.frames[i].pc || a.frames[i].base != b.frames[i].base || a.frames[i].allocas != b.frames[i].allocas) return false;
    ConcState &x = wc(a), &y = wc(b);
    if (x.phase != y.phase || x.hasPending || y.hasPending || x.waits != y.waits) return false;
    if (a.caught.size() != b.caught.size() || a.errnoAddr != b.errnoAddr || a.excObj != b.excObj) return false;
    for (auto &fr : a.frames) {
        auto &lv = liveAt(fr.f, fr.pc);
        for (size_t i = 0; i < lv.size(); i++) {
            Val &u = a.regs[fr.base + i], &v = b.regs[fr.base + i];
            if (lv[i] && (u.e != v.e || u.c != v.c)) return false;
        }
    }
    if (!sameMem(a.mem, b.mem)) return false;
    size_t pp = 0, pe = 0, pa = 0;
    while (pp < a.pc.size() && pp < b.pc.size() && a.pc[pp] == b.pc[pp]) pp++;
    while (pe < x.ev.size() && pe < y.ev.size() && sameEv(x.ev[pe], y.ev[pe])) pe++;
    while (pa < x.acc.size() && pa < y.acc.size() && sameAcc(x.acc[pa], y.acc[pa])) pa++;
    E ga = nullptr, gb = nullptr;
    for (size_t i = pp; i < a.pc.size(); i++) ga = andE(ga, a.pc[i]);
    for (size_t i = pp; i < b.pc.size(); i++) gb = andE(gb, b.pc[i]);
    if (!ga || !gb) { // cannot happen: two states always differ by a decision
        return false;
    }
    // the last common event stays last common for accesses
    size_t la = x.ev.size() - pe;
    bool wrote = false;
    for (size_t i = pe; i < x.ev.size(); i++) { Ev &e = x.ev[i]; e.g = andE(e.g, ga); e.npc = std::min(e.npc, pp); wrote |= e.wr != nullptr; }
    for (size_t i = pa; i < x.acc.size(); i++) { x.acc[i].g = andE(x.acc[i].g, ga); x.acc[i].npc = std::min(x.acc[i].npc, pp); }
    for (size_t i = pe; i < y.ev.size(); i++) { Ev e = y.ev[i]; e.g = andE(e.g, gb); e.npc = std::min(e.npc, pp); wrote |= e.wr != nullptr; x.ev.push_back(e); }
    for (size_t i = pa; i < y.acc.size(); i++) { Acc c = y.acc[i]; c.g = andE(c.g, gb); c.npc = std::min(c.npc, pp); if (c.seg >= (int)pe) c.seg += la; x.acc.push_back(c); }
    uint64_t nw = std::max(x.writes, y.writes) + (wrote ? 1 : 0);
    for (auto &k : y.seen) {
        auto v = k.second;
        if (v.ev >= (int)pe) v.ev += la;
        auto it = x.seen.find(k.first);
        if (it == x.seen.end()) x.seen[k.first] = v;
        else { it->second.n = std::max(it->second.n, v.n); it->second.ev = std::min(it->second.ev, v.ev); it->second.writes = std::max(it->second.writes, v.writes); }
    }
    x.writes = nw;
    x.txs = std::max(x.txs, y.txs);
    a.pc.resize(pp);
    if (ga != mkNot(gb)) {
        E o = mkBin(OR, ga, gb);
        if (!isC(o)) a.pc.push_back(o);
    }
    for (auto it = a.subst.begin(); it != a.subst.end();) {
        auto q = b.subst.find(it->first);
        if (q == b.subst.end() || q->second != it->second) it = a.subst.erase(it);
        else ++it;
    }
    a.mem.next = std::max(a.mem.next, b.mem.next);
    a.instrs = std::max(a.instrs, b.instrs);
    if (x.ev.size() > maxEvents) throw ConcStop{L_BOUND, 0, "event bound"};
    return true;
}

static bool behind(const State &a, const State &b) {
    size_t n = std::min(a.frames.size(), b.frames.size());
    for (size_t i = 0; i < n; i++) {
        if (a.frames[i].f != b.frames[i].f) return a.frames[i].f < b.frames[i].f;
        if (a.frames[i].pc != b.frames[i].pc) return a.frames[i].pc < b.frames[i].pc;
    }
    return a.frames.size() < b.frames.size();
}
static void explore(Thread &t) {
    cur = &t;
    Engine &en = *EN;
    auto *f = en.mod->getFunction(t.func);
    if (!f) { fprintf(stderr, "no function %s\n", t.func.c_str()); exit(3); }
    auto st = std::make_unique<State>(*S0);
    st->conc = std::make_shared<ConcState>();
    st->pc.clear();
    st->instrs = 0;
    en.startFunction(*st, en.getFunc(f), {});
    en.work.clear();
    en.work.push_back(std::move(st));
    auto T0 = std::chrono::steady_clock::now();
    while (!en.work.empty()) {
        // the state furthest behind in the program first, so that the ways through it meet again
        size_t best = 0;
        for (size_t i = 1; i < en.work.size(); i++) if (behind(*en.work[i], *en.work[best])) best = i;
        auto s = std::move(en.work[best]);
        en.work.erase(en.work.begin() + best);
        Path p;
        bool keep = true, paused = false;
        try {
            while (!s->frames.empty()) {
                size_t d = s->frames.size();
                uint32_t pc0 = s->frames.back().pc;
                en.step(*s);
                if (!en.work.empty() && !s->frames.empty() && (s->frames.size() < d || (s->frames.size() == d && s->frames.back().pc != pc0 + 1 && fnInfo(s->frames.back().f).meet[s->frames.back().pc]))) {
                    bool joined = false;
                    for (auto &o : en.work) if (o->frames.size() == s->frames.size() && join(*o, *s)) { joined = true; break; }
                    if (joined) t.joined++;
                    else en.work.push_back(std::move(s));
                    paused = true;
                    break;
                }
                if (s->instrs > en.maxInstrs) throw ConcStop{L_BOUND, 0, "instruction limit"};
            }
            if (paused) continue;
            p.leaf = L_COMPLETE;
        } catch (ConcStop &c) {
            p.leaf = c.k;
            p.msg = c.msg;
            p.spinFrom = c.spinFrom;
        } catch (StopPath &q) {
            if (q.e.k == PathEnd::VIOLATION) { p.leaf = L_THROW; p.msg = q.e.msg; }
            else { if (q.e.k == PathEnd::ERROR) t.errors++; keep = false; }
        }
        t.explored++;
        t.instrs += s->instrs;
        if (getenv("VP_DBG")) { fprintf(stderr, "%s path %lu: %s %s, %zu events, %lu instrs\n", t.name.c_str(), t.explored, keep ? leafName[p.leaf] : "-", p.msg.c_str(), s->conc->ev.size(), s->instrs); if (atoi(getenv("VP_DBG")) > 2) for (auto &e : s->pc) fprintf(stderr, "      pc %s\n", showE(e).c_str()); if (getenv("VP_DBG") && atoi(getenv("VP_DBG")) > 1) for (auto &e : s->conc->ev) fprintf(stderr, "      %c %s %lx %s %s\n", e.k, e.mark.c_str(), e.k == 'M' ? 0 : shOff(e.addr), e.where.substr(0, 90).c_str(), e.g ? "?" : ""); }
        if (!keep) continue;
        p.ev = s->conc->ev;
        p.acc = s->conc->acc;
        p.pc = s->pc;
        p.end = std::shared_ptr<State>(s.release());
        t.paths.push_back(std::move(p));
    }
    t.secs = std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count();
}

// ------------------------------------------------------------------------------------------------ queries
static E renameE(E e, int tag) {
    if (!tag || e->syms.empty()) return e;
    static std::map<std::pair<E, int>, E> memo;
    static std::map<std::pair<uint32_t, int>, E> sy;
    auto it = memo.find({e, tag});
    if (it != memo.end()) return it->second;
    E r;
    switch (e->op) {
    case SYM: {
        auto k = std::make_pair((uint32_t)e->c, tag);
        auto q = sy.find(k);
        r = q != sy.end() ? q->second : (sy[k] = mkSym(P.symNames[e->c] + "'" + std::to_string(tag), e->w));
        break;
    }
    case CONCAT: r = mkConcat(renameE(e->a, tag), renameE(e->b, tag)); break;
    case EXTRACT: r = mkExtract(renameE(e->a, tag), e->c, e->w); break;
    case ZEXT: r = mkZext(renameE(e->a, tag), e->w); break;
    case SEXT: r = mkSext(renameE(e->a, tag), e->w); break;
    case ITE: r = mkIte(renameE(e->a, tag), renameE(e->b, tag), renameE(e->k, tag)); break;
    default: r = mkBin(e->op, renameE(e->a, tag), renameE(e->b, tag));
    }
    return memo[{e, tag}] = r;
}

struct Combo {
    std::vector<const Path *> p;
    Z3_context c;
    Z3_solver s;
    Z3_ast T, F;
    int n;
    std::vector<std::vector<Z3_ast>> ex, act; // position reached; event executed
    std::map<std::pair<int, int>, std::vector<Z3_ast>> ordv; // t1<t2: row major
    std::map<std::array<int, 4>, Z3_ast> knows;              // (t,e,u,i): event e of t knows event i of u
    std::map<std::array<int, 4>, Z3_ast> msgv;
    int fresh = 0;

    Z3_ast mkAnd(std::vector<Z3_ast> v) {
        std::vector<Z3_ast> r;
        for (auto x : v) { if (x == F) return F; if (x != T) r.push_back(x); }
        if (r.empty()) return T;
        if (r.size() == 1) return r[0];
        return Z3_mk_and(c, r.size(), r.data());
    }
    Z3_ast mkOr(std::vector<Z3_ast> v) {
        std::vector<Z3_ast> r;
        for (auto x : v) { if (x == T) return T; if (x != F) r.push_back(x); }
        if (r.empty()) return F;
        if (r.size() == 1) return r[0];
        return Z3_mk_or(c, r.size(), r.data());
    }
    Z3_ast mkN(Z3_ast a) { return a == T ? F : a == F ? T : Z3_mk_not(c, a); }
    Z3_ast impl(Z3_ast a, Z3_ast b) { return mkOr({mkN(a), b}); }
    Z3_ast bvar() { return Z3_mk_const(c, Z3_mk_int_symbol(c, 1000000 + fresh++), Z3_mk_bool_sort(c)); }
    void add(Z3_ast a) { if (a != T) Z3_solver_assert(c, s, a); }

    Combo(std::vector<const Path *> ps) : p(ps) {
        c = S.ctx;
        n = p.size();
        s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, "QF_BV"));
        Z3_solver_inc_ref(c, s);
        T = Z3_mk_true(c);
        F = Z3_mk_false(c);
        ex.resize(n);
        act.resize(n);
        for (int t = 0; t < n; t++) {
            for (auto &e : p[t]->ev) { ex[t].push_back(bvar()); act[t].push_back(e.g ? mkAnd({ex[t].back(), guard(t, e.g)}) : ex[t].back()); }
            for (size_t i = 1; i < ex[t].size(); i++) add(impl(ex[t][i], ex[t][i - 1]));
        }
        // interleaving
        for (int a = 0; a < n; a++)
            for (int b = a + 1; b < n; b++) {
                size_t N = p[a]->ev.size(), M = p[b]->ev.size();
                auto &v = ordv[{a, b}];
                v.resize(N * M);
                for (size_t i = 0; i < N * M; i++) v[i] = bvar();
                for (size_t i = 0; i < N; i++)
                    for (size_t j = 0; j < M; j++) {
                        if (j + 1 < M) add(impl(v[i * M + j], v[i * M + j + 1]));
                        if (i + 1 < N) add(impl(v[(i + 1) * M + j], v[i * M + j]));
                    }
            }
        for (int a = 0; a < n; a++)
            for (int b = 0; b < n; b++)
                for (int d = 0; d < n; d++) {
                    if (a == b || b == d || a == d) continue;
                    for (size_t i = 0; i < p[a]->ev.size(); i++)
                        for (size_t j = 0; j < p[b]->ev.size(); j++)
                            for (size_t k = 0; k < p[d]->ev.size(); k++) add(mkOr({mkN(before(a, i, b, j)), mkN(before(b, j, d, k)), before(a, i, d, k)}));
                }
        // path conditions and values
        for (int t = 0; t < n; t++) {
            const Path &q = *p[t];
            size_t e = 0;
            for (size_t k = 0; k < q.pc.size(); k++) {
                while (e < q.ev.size() && q.ev[e].npc <= k) e++;
                // decided before event e; guarded by it (by the last event if the path ends there)
                Z3_ast g = q.ev.empty() ? T : e < q.ev.size() ? ex[t][e] : ex[t].back();
                add(impl(g, tobool(renameE(q.pc[k], t))));
            }
            for (size_t i = 0; i < q.ev.size(); i++)
                if (q.ev[i].rd) readConstraint(t, i);
        }
    }
    ~Combo() { Z3_solver_dec_ref(c, s); }
    std::map<std::pair<int, E>, Z3_ast> gv;
    Z3_ast guard(int t, E g) {
        if (!g) return T;
        auto it = gv.find({t, g});
        if (it != gv.end()) return it->second;
        Z3_ast b = bvar();
        add(Z3_mk_iff(c, b, tobool(renameE(g, t))));
        return gv[{t, g}] = b;
    }
    Z3_ast tobool(E e) { return Z3_mk_eq(c, S.tr(e), Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1))); }
    Z3_ast before(int a, int i, int b, int j) {
        if (a == b) return i < j ? T : F;
        if (a < b) return ordv[{a, b}][i * p[b]->ev.size() + j];
        return mkN(ordv[{b, a}][j * p[a]->ev.size() + i]);
    }
    struct W { int t, i; }; // t = -1: initial value
    std::map<std::pair<int, int>, std::vector<std::pair<W, Z3_ast>>> rfs;
    void readConstraint(int t, int i) {
        const Ev &r = p[t]->ev[i];
        std::vector<W> ws;
        bool sure = false;
        for (int j = i; j-- > 0 && !sure;) if (p[t]->ev[j].wr && p[t]->ev[j].addr == r.addr) { ws.push_back({t, j}); if (!p[t]->ev[j].g || p[t]->ev[j].g == r.g) sure = true; }
        if (!sure) ws.push_back({-1, 0});
        for (int u = 0; u < n; u++) {
            if (u == t) continue;
            for (size_t j = 0; j < p[u]->ev.size(); j++) if (p[u]->ev[j].wr && p[u]->ev[j].addr == r.addr) ws.push_back({u, (int)j});
        }
        auto pre = [&](const W &w) { return w.t < 0 ? T : mkAnd({before(w.t, w.i, t, i), act[w.t][w.i]}); };
        auto &out = rfs[{t, i}];
        std::vector<Z3_ast> any;
        for (auto &w : ws) {
            std::vector<Z3_ast> cond{pre(w)};
            for (auto &x : ws) {
                if (x.t == w.t && x.i == w.i) continue;
                if (x.t < 0) continue;
                // x is not between w and the read
                std::vector<Z3_ast> alt{mkN(pre(x))};
                if (w.t >= 0) alt.push_back(before(x.t, x.i, w.t, w.i));
                cond.push_back(mkOr(alt));
            }
            Z3_ast last = mkAnd(cond);
            if (last == F) continue;
            Z3_ast val;
            if (w.t < 0) {
                Val v = EN->load(*S0, r.addr, r.bytes);
                val = Z3_mk_unsigned_int64(c, v.c, Z3_mk_bv_sort(c, r.bytes * 8));
            } else {
                E we = renameE(p[w.t]->ev[w.i].wr, w.t);
                val = S.tr(we);
            }
            Z3_ast b = bvar();
            add(Z3_mk_iff(c, b, mkAnd({last, act[t][i]})));
            add(impl(b, Z3_mk_eq(c, S.tr(renameE(r.rd, t)), val)));
            out.push_back({w, b});
        }
    }
    // event e of thread t knows (happens after) event i of thread u
    Z3_ast K(int t, int e, int u, int i) {
        if (e < 0 || i >= (int)p[u]->ev.size()) return F;
        if (i < 0) return F;
        if (t == u) return i <= e ? T : F;
        std::array<int, 4> key{t, e, u, i};
        auto it = knows.find(key);
        if (it != knows.end()) return it->second;
        std::vector<Z3_ast> alt{K(t, e - 1, u, i)};
        const Ev &r = p[t]->ev[e];
        if (r.rd && r.acq)
            for (auto &x : rfs[{t, e}]) if (x.first.t >= 0) alt.push_back(mkAnd({x.second, M(x.first.t, x.first.i, u, i)}));
        Z3_ast d = mkOr(alt);
        if (d != F && d != T) { Z3_ast b = bvar(); add(Z3_mk_iff(c, b, d)); d = b; }
        return knows[key] = d;
    }
    // what a read from write w of thread t learns about event i of thread u
    Z3_ast M(int t, int w, int u, int i) {
        std::array<int, 4> key{t, w, u, i};
        auto it = msgv.find(key);
        if (it != msgv.end()) return it->second;
        const Ev &e = p[t]->ev[w];
        std::vector<Z3_ast> alt;
        Z3_ast b = bvar();
        msgv[key] = b;
        if (e.rel) alt.push_back(K(t, w, u, i));
        if (e.k == 'R')
            for (auto &x : rfs[{t, w}]) if (x.first.t >= 0) alt.push_back(mkAnd({x.second, M(x.first.t, x.first.i, u, i)}));
        add(Z3_mk_iff(c, b, mkOr(alt)));
        return b;
    }
    // access in segment sx of t happens before access in segment sy of u
    Z3_ast hb(int t, int sx, int u, int sy) { return K(u, sy, t, sx + 1); }
    // what was decided between the event before an access and the access
    Z3_ast decided(int t, const Acc &a) {
        const Path &q = *p[t];
        std::vector<Z3_ast> r;
        for (size_t k = a.seg < 0 ? 0 : q.ev[a.seg].npc; k < a.npc && k < q.pc.size(); k++) r.push_back(guard(t, q.pc[k]));
        return mkAnd(r);
    }
    Z3_ast exSeg(int t, int sg) { return sg < 0 ? T : ex[t][sg]; }
    Z3_ast full(int t) { return p[t]->ev.empty() ? T : ex[t].back(); }

    // ---------------------------------------------------------------- conflicts between two threads
    struct Conf { int sx, sy; Z3_ast cond; const Acc *x, *y; };
    static int firstRead(const Path &q, uint32_t obj, uint64_t off) {
        for (auto &a : q.acc) if (!a.w && a.obj == obj && a.lo <= off && off < a.hi) return a.seg;
        return -2;
    }
    static int lastWrite(const Path &q, uint32_t obj, uint64_t off) {
        int r = -2;
        for (auto &a : q.acc) if (a.w && a.obj == obj && a.lo <= off && off < a.hi) r = std::max(r, a.seg);
        return r;
    }
    static uint32_t finalObj(const Path &q, uint32_t obj, uint64_t off) {
        Obj *o = q.end->mem.get(obj);
        if (!o || off + 8 > o->size) return 0;
        if (!o->s.empty()) for (int i = 0; i < 8; i++) if (o->s[off + i]) return 0;
        uint64_t v;
        memcpy(&v, o->b.data() + off, 8);
        return v >= REGION_MID ? idOf(v) : 0;
    }
    std::vector<Conf> conflicts(int t, int u, std::function<bool(const Acc &)> fx, std::function<bool(const Acc &)> fy) {
        // one entry per pair of segments, objects and condition
        std::map<std::tuple<int, int, Z3_ast>, Conf> m;
        struct Info { Z3_ast g; uint32_t to; bool has; };
        auto info = [&](const Path &mine, int me, const Path &other, int oth, uint32_t obj, int sx) {
            Info f{F, 0, false};
            auto it = cellOf.find(obj);
            if (it == cellOf.end()) return f;
            int lw = lastWrite(other, it->second.first, it->second.second);
            if (lw < -1) return f;
            uint32_t to = finalObj(other, it->second.first, it->second.second);
            if (!to || to == obj) return f;
            int fr = firstRead(mine, it->second.first, it->second.second);
            if (fr < -1) fr = sx;
            f.g = K(me, fr, oth, lw + 1);
            f.to = to;
            f.has = true;
            return f;
        };
        std::map<uint32_t, std::vector<const Acc *>> by;
        for (auto &b : p[u]->acc) if (fy(b)) by[b.obj].push_back(&b);
        std::map<uint32_t, Info> iy;
        for (auto &pr : by) { int sy = pr.second.back()->seg; iy[pr.first] = info(*p[u], u, *p[t], t, pr.first, sy); }
        std::map<uint32_t, Info> ix;
        for (auto &a : p[t]->acc) {
            if (!fx(a)) continue;
            auto i1 = ix.find(a.obj);
            if (i1 == ix.end()) i1 = ix.emplace(a.obj, info(*p[t], t, *p[u], u, a.obj, a.seg)).first;
            Info &A = i1->second;
            auto pair = [&](const Acc &b, Z3_ast cond) {
                if (cond != F && (a.g || b.g)) cond = mkAnd({cond, guard(t, a.g), guard(u, b.g)});
                if (!(a.w || b.w) || a.lo >= b.hi || b.lo >= a.hi || cond == F) return;
                cond = mkAnd({cond, decided(t, a), decided(u, b)});
                auto key = std::make_tuple(a.seg, b.seg, cond);
                if (!m.count(key)) m[key] = {a.seg, b.seg, cond, &a, &b};
            };
            // same block in memory
            auto q = by.find(a.obj);
            if (q != by.end())
                for (auto *b : q->second) {
                    // fresh blocks of different threads only share a number
                    if (a.obj >= s0next) continue;
                    Z3_ast cond = T;
                    if (A.has) cond = mkAnd({cond, mkN(A.g)});
                    if (iy[a.obj].has) cond = mkAnd({cond, mkN(iy[a.obj].g)});
                    pair(*b, cond);
                }
            // the block this access really uses if the other thread replaced the pointer before
            if (A.has) {
                auto q2 = by.find(A.to);
                if (q2 != by.end()) for (auto *b : q2->second) pair(*b, A.g);
            }
            // and the other way round
            for (auto &pr : iy)
                if (pr.second.has && pr.second.to == a.obj)
                    for (auto *b : by[pr.first]) pair(*b, pr.second.g);
        }
        std::vector<Conf> r;
        for (auto &x : m) r.push_back(x.second);
        return r;
    }
    Z3_model model = nullptr;
    int check() {
        Z3_lbool r = Z3_solver_check(c, s);
        if (r == Z3_L_TRUE) { model = Z3_solver_get_model(c, s); Z3_model_inc_ref(c, model); return 1; }
        return r == Z3_L_FALSE ? 0 : 2;
    }
    bool val(Z3_ast a) {
        if (a == T) return true;
        if (a == F) return false;
        Z3_ast o;
        if (!Z3_model_eval(c, model, a, true, &o)) return false;
        return Z3_get_bool_value(c, o) == Z3_L_TRUE;
    }
    uint64_t bv(E e, int t) {
        Z3_ast o;
        uint64_t v = 0;
        if (Z3_model_eval(c, model, S.tr(renameE(e, t)), true, &o)) Z3_get_numeral_uint64(c, o, &v);
        return v;
    }
    // executed events in a total order
    std::vector<std::pair<int, int>> schedule() {
        std::vector<std::pair<int, int>> r;
        std::vector<int> pos(n, 0), lim(n, 0);
        for (int t = 0; t < n; t++) while (lim[t] < (int)ex[t].size() && val(ex[t][lim[t]])) lim[t]++;
        while (true) {
            int pick = -1;
            for (int t = 0; t < n; t++) {
                if (pos[t] >= lim[t]) continue;
                bool ok = true;
                for (int u = 0; u < n && ok; u++) if (u != t && pos[u] < lim[u] && val(before(u, pos[u], t, pos[t]))) ok = false;
                if (ok) { pick = t; break; }
            }
            if (pick < 0) break;
            if (val(act[pick][pos[pick]])) r.push_back({pick, pos[pick]});
            pos[pick]++;
        }
        return r;
    }
};

static std::string jesc(const std::string &s) {
    std::string r = "\"";
    for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; }
    return r + "\"";
}
static std::string addrName(uint64_t a) {
    std::ostringstream o;
    o << "ecs+" << std::hex << shOff(a);
    return o.str();
}
static std::string accName(const Acc *a) {
    std::ostringstream o;
    o << (a->w ? "write" : "read") << " of object " << a->obj << " [" << a->lo << "," << a->hi << ") in " << (a->fn ? llvm::demangle(a->fn->name).substr(0, 200) : "?");
    return o.str();
}

struct Query {
    std::string kind;
    std::vector<int> th;
    std::string line;
};
struct QResult { uint64_t combos = 0, sat = 0, unsat = 0, unknown = 0; double secs = 0; };

// ------------------------------------------------------------------------------------------------ deciding queries
struct Item { int q; std::vector<int> pi; };
static bool stuckLeaf(const Path &p) { return p.leaf == L_SPIN || p.leaf == L_WAIT; }
static const char *phaseName[] = {"before", "start", "body", "release", "after"};

static Z3_ast stuckCond(Combo &C, int t) {
    const Path &q = *C.p[t];
    std::vector<Z3_ast> r{C.full(t)};
    if (q.leaf == L_WAIT) {
        int w = q.ev.size() - 1;
        std::map<std::pair<int, int>, std::vector<Z3_ast>> used; // a wait of another thread -> notify_one calls it consumed
        for (int u = 0; u < C.n; u++)
            if (u != t)
                for (size_t j = 0; j < C.p[u]->ev.size(); j++) {
                    const Ev &e = C.p[u]->ev[j];
                    if (e.k != 'N' || e.addr != q.ev[w].addr) continue;
                    std::vector<Z3_ast> alt{C.mkN(C.mkAnd({C.act[u][j], C.before(t, w, u, j)}))};
                    if (e.one)
                        for (int x = 0; x < C.n; x++) {
                            if (x == t || x == u) continue;
                            auto &xe = C.p[x]->ev;
                            for (size_t i = 0; i < xe.size(); i++) {
                                if (xe[i].k != 'W' || xe[i].addr != e.addr) continue;
                                Z3_ast took = C.bvar();
                                std::vector<Z3_ast> c{C.act[x][i], C.before(x, i, u, j)};
                                if (i + 1 < xe.size()) c.push_back(C.mkOr({C.mkN(C.ex[x][i + 1]), C.before(u, j, x, i + 1)}));
                                C.add(C.impl(took, C.mkAnd(c)));
                                for (auto o : used[{x, (int)i}]) C.add(C.mkOr({C.mkN(o), C.mkN(took)}));
                                used[{x, (int)i}].push_back(took);
                                alt.push_back(took);
                            }
                        }
                    r.push_back(C.mkOr(alt));
                }
    } else if (q.leaf == L_SPIN) {
        std::set<uint64_t> ad;
        for (size_t i = q.spinFrom; i < q.ev.size(); i++) if (q.ev[i].rd) ad.insert(q.ev[i].addr);
        for (int u = 0; u < C.n; u++)
            if (u != t)
                for (size_t j = 0; j < C.p[u]->ev.size(); j++)
                    if (C.p[u]->ev[j].wr && ad.count(C.p[u]->ev[j].addr)) r.push_back(C.mkN(C.mkAnd({C.act[u][j], C.before(t, q.spinFrom, u, j)})));
    }
    return C.mkAnd(r);
}
static std::string describe(Combo &C, const std::vector<Thread> &th, const Query &q, const Item &it, const std::string &msg, const std::string &detail, Z3_ast = nullptr) {
    std::ostringstream o;
    o << "{\"query\":" << jesc(q.line) << ",\"kind\":" << jesc(q.kind) << ",\"msg\":" << jesc(msg) << ",\"detail\":" << jesc(detail) << ",\"threads\":[";
    for (int t = 0; t < C.n; t++) {
        const Thread &x = th[q.th[t]];
        o << (t ? "," : "") << "{\"name\":" << jesc(x.name) << ",\"func\":" << jesc(x.func) << ",\"park\":" << (x.park ? 1 : 0) << ",\"leaf\":" << jesc(leafName[C.p[t]->leaf]) << ",\"leafmsg\":" << jesc(C.p[t]->msg)
          << ",\"events\":" << C.p[t]->ev.size() << "}";
    }
    (void)it;
    o << "],\"schedule\":[";
    bool c = false;
    for (auto &e : C.schedule()) {
        const Ev &v = C.p[e.first]->ev[e.second];
        o << (c ? "," : "") << "[" << e.first << "," << e.second << ",\"" << v.k << "\"," << (v.k == 'M' ? 0 : shOff(v.addr)) << "," << (v.rd ? C.bv(v.rd, e.first) : 0) << ","
          << jesc(v.k == 'M' ? v.mark : v.where.substr(0, 110)) << "]";
        c = true;
    }
    o << "]}";
    return o.str();
}
// decides one combination of paths; returns 0 unsat, 1 sat, 2 unknown, -1 trivially unsat
static int decide(const std::vector<Thread> &th, const Query &q, const Item &it, std::string *out, uint64_t &nconf) {
    std::vector<const Path *> ps;
    for (size_t i = 0; i < q.th.size(); i++) ps.push_back(&th[q.th[i]].paths[it.pi[i]]);
    auto fin = [&](Combo &C, const std::string &msg, const std::string &det) {
        int r = C.check();
        if (r == 1 && out) *out = describe(C, th, q, it, msg, det);
        return r;
    };
    Combo C(ps);
    const std::string &k = q.kind;
    auto anyAcc = [](const Acc &) { return true; };
    auto body = [](const Acc &a) { return a.phase == 2; };
    if (k == "live") {
        for (int t = 0; t < C.n; t++) C.add(C.full(t));
        return fin(C, "live", "");
    }
    if (k == "race") {
        auto cf = C.conflicts(0, 1, anyAcc, anyAcc);
        nconf += cf.size();
        if (cf.empty()) return -1;
        std::vector<Z3_ast> alt, sel;
        for (auto &f : cf) {
            Z3_ast a = C.mkAnd({C.exSeg(0, f.sx), C.exSeg(1, f.sy), f.cond, C.mkN(C.hb(0, f.sx, 1, f.sy)), C.mkN(C.hb(1, f.sy, 0, f.sx))});
            Z3_ast b = C.bvar();
            C.add(C.impl(b, a));
            alt.push_back(b);
        }
        C.add(C.mkOr(alt));
        int r = C.check();
        if (r == 1 && out) {
            std::string det;
            for (size_t i = 0; i < cf.size(); i++) if (C.val(alt[i])) { det = accName(cf[i].x) + " (" + phaseName[cf[i].x->phase] + ") and " + accName(cf[i].y) + " (" + phaseName[cf[i].y->phase] + ")"; break; }
            *out = describe(C, th, q, it, "unordered conflicting accesses", det);
        }
        return r;
    }
    if (k == "uniform" || k == "serial") {
        auto cf = k == "uniform" ? C.conflicts(0, 1, body, anyAcc) : C.conflicts(0, 1, anyAcc, anyAcc);
        nconf += cf.size();
        std::vector<Z3_ast> fw, bw;
        for (auto &f : cf) {
            Z3_ast e = C.mkAnd({C.exSeg(0, f.sx), C.exSeg(1, f.sy), f.cond});
            // neither all of 0's conflicting accesses before 1's nor all after
            fw.push_back(C.mkAnd({e, C.mkN(C.hb(1, f.sy, 0, f.sx))}));
            bw.push_back(C.mkAnd({e, C.mkN(C.hb(0, f.sx, 1, f.sy))}));
        }
        Z3_ast v = C.mkAnd({C.mkOr(fw), C.mkOr(bw)});
        if (k == "serial") {
            int ab = ps[0]->find("begun"), ar = ps[0]->find("release"), bb = ps[1]->find("begun"), br = ps[1]->find("release");
            std::vector<Z3_ast> ov;
            if (ab >= 0 && bb >= 0) {
                // both open at once: each begun before the other one is released (or its release is not executed)
                ov.push_back(C.ex[0][ab]);
                ov.push_back(C.ex[1][bb]);
                if (br >= 0) ov.push_back(C.mkOr({C.mkN(C.ex[1][br]), C.before(0, ab, 1, br)}));
                if (ar >= 0) ov.push_back(C.mkOr({C.mkN(C.ex[0][ar]), C.before(1, bb, 0, ar)}));
                v = C.mkOr({v, C.mkAnd(ov)});
            }
        }
        if (v == C.F) return -1;
        C.add(v);
        return fin(C, k == "uniform" ? "a transaction sees part of another one's changes" : "two writers of the same data overlap or do not see each other's result", "");
    }
    if (k == "throw") {
        for (int t = 0; t < C.n; t++) if (ps[t]->leaf == L_THROW) C.add(C.full(t));
        std::string m;
        for (auto *p : ps) if (p->leaf == L_THROW) m = p->msg;
        return fin(C, "a transaction fails: " + m, "");
    }
    if (k == "stuck") {
        for (int t = 0; t < C.n; t++) C.add(stuckLeaf(*ps[t]) ? stuckCond(C, t) : C.full(t));
        return fin(C, "a transaction never completes", "");
    }
    if (k == "block" || k == "block3") {
        for (int t = 0; t < C.n; t++) C.add(stuckLeaf(*ps[t]) ? stuckCond(C, t) : C.full(t));
        return fin(C, "a transaction waits for one it does not conflict with", "");
    }
    if (k == "overtake") {
        // R W P
        C.add(stuckCond(C, 1));
        C.add(C.full(2));
        int rs = ps[0]->find("start"), rb = ps[0]->find("begun");
        C.add(C.ex[0][rb]);
        C.add(C.before(1, ps[1]->ev.size() - 1, 0, rs));
        return fin(C, "a transaction started while a commit was waiting for readers of the same data begins before it", "");
    }
    if (k == "late") {
        int rs = ps[0]->find("start"), w = -1;
        for (size_t i = 0; i < ps[1]->ev.size(); i++) if (ps[1]->ev[i].k == 'W') { w = i; break; }
        C.add(C.before(1, w, 0, rs));
        C.add(C.full(1));
        auto cf = C.conflicts(0, 1, body, anyAcc);
        nconf += cf.size();
        std::vector<Z3_ast> fw;
        for (auto &f : cf) if (f.y->phase == 3 && f.y->w) fw.push_back(C.mkAnd({C.exSeg(0, f.sx), C.exSeg(1, f.sy), f.cond, C.hb(0, f.sx, 1, f.sy)}));
        if (fw.empty()) return -1;
        C.add(C.mkOr(fw));
        return fin(C, "a transaction started while a commit was waiting sees the data from before it", "");
    }
    if (k == "distinct") {
        for (int t = 0; t < C.n; t++) C.add(C.full(t));
        std::vector<Z3_ast> alt;
        for (int t = 0; t < C.n; t++)
            for (int u = t + 1; u < C.n; u++)
                for (size_t i = 0; i < ps[t]->ev.size(); i++)
                    for (size_t j = 0; j < ps[u]->ev.size(); j++) {
                        auto &x = ps[t]->ev[i], &y = ps[u]->ev[j];
                        if (x.out && y.out) alt.push_back(C.mkAnd({C.act[t][i], C.act[u][j], Z3_mk_eq(C.c, S.tr(renameE(x.out, t)), S.tr(renameE(y.out, u)))}));
                    }
        nconf += alt.size();
        if (alt.empty()) return -1;
        C.add(C.mkOr(alt));
        return fin(C, "the same identifier is given out twice", "");
    }
    fprintf(stderr, "unknown query %s\n", k.c_str());
    exit(3);
}
static bool wants(const Query &q, const std::vector<const Path *> &ps) {
    const std::string &k = q.kind;
    auto L = [&](int i) { return ps[i]->leaf; };
    if (k == "live") { for (auto *p : ps) if (p->leaf != L_COMPLETE && p->leaf != L_PARK) return false; return true; }
    if (k == "race" || k == "uniform" || k == "serial" || k == "distinct") { for (auto *p : ps) if (p->leaf != L_COMPLETE) return false; return true; }
    if (k == "throw") {
        int n = 0;
        for (auto *p : ps) { if (p->leaf == L_THROW) n++; else if (p->leaf != L_COMPLETE) return false; }
        return n == 1;
    }
    if (k == "stuck") {
        int n = 0;
        for (auto *p : ps) { if (stuckLeaf(*p)) n++; else if (p->leaf != L_COMPLETE) return false; }
        return n > 0;
    }
    if (k == "block") return stuckLeaf(*ps[0]) && L(1) == L_PARK;
    if (k == "block3") return stuckLeaf(*ps[0]) && (L(1) == L_COMPLETE || stuckLeaf(*ps[1])) && L(2) == L_PARK;
    if (k == "overtake") return (L(0) == L_COMPLETE || L(0) == L_PARK) && ps[0]->find("begun") >= 0 && stuckLeaf(*ps[1]) && ps[1]->find("release") >= 0 && L(2) == L_PARK;
    if (k == "late") {
        if (L(0) != L_COMPLETE || L(1) != L_COMPLETE) return false;
        for (auto &e : ps[1]->ev) if (e.k == 'W') return true;
        return false;
    }
    fprintf(stderr, "unknown query %s\n", k.c_str());
    exit(3);
}
static int runQueries(std::vector<Thread> &th, std::vector<Query> &qs, int jobs, double budget, const std::string &out, double texp) {
    auto T0 = std::chrono::steady_clock::now();
    auto el = [&]() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); };
    std::vector<std::vector<Item>> per(qs.size());
    for (size_t q = 0; q < qs.size(); q++) {
        size_t n = qs[q].th.size();
        std::vector<int> ix(n, 0);
        bool more = true;
        for (size_t t = 0; t < n; t++) if (th[qs[q].th[t]].paths.empty()) more = false;
        while (more) {
            std::vector<const Path *> ps;
            for (size_t t = 0; t < n; t++) ps.push_back(&th[qs[q].th[t]].paths[ix[t]]);
            bool sym = n == 2 && qs[q].th[0] == qs[q].th[1] && ix[0] > ix[1] && (qs[q].kind == "race" || qs[q].kind == "serial" || qs[q].kind == "stuck" || qs[q].kind == "throw" || qs[q].kind == "distinct");
            if (!sym && wants(qs[q], ps)) per[q].push_back({(int)q, ix});
            size_t t = 0;
            for (; t < n; t++) { if (++ix[t] < (int)th[qs[q].th[t]].paths.size()) break; ix[t] = 0; }
            if (t == n) more = false;
        }
        // shortest combinations first
        std::stable_sort(per[q].begin(), per[q].end(), [&](const Item &a, const Item &b) {
            size_t x = 0, y = 0;
            for (size_t t = 0; t < n; t++) { x += th[qs[q].th[t]].paths[a.pi[t]].ev.size(); y += th[qs[q].th[t]].paths[b.pi[t]].ev.size(); }
            return x < y;
        });
    }
    // round robin over the queries
    std::vector<Item> items;
    for (size_t k = 0, left = 1; left; k++) {
        left = 0;
        for (auto &v : per) if (k < v.size()) { items.push_back(v[k]); left++; }
    }
    struct Shared { std::atomic<uint64_t> next, viol; std::atomic<uint8_t> done[4000]; };
    if (qs.size() > 4000) return 3;
    auto *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<pid_t> pids;
    for (int w = 0; w < jobs; w++) {
        pid_t p = ::fork();
        if (p == 0) {
            std::ofstream f(out + "." + std::to_string(w));
            std::vector<QResult> r(qs.size());
            std::vector<uint64_t> left(qs.size(), 0), triv(qs.size(), 0), conf(qs.size(), 0);
            std::vector<std::string> found;
            double slow = 0;
            std::string slowQ;
            while (true) {
                uint64_t i = sh->next.fetch_add(1);
                if (i >= items.size()) break;
                Item &it = items[i];
                Query &q = qs[it.q];
                bool once = q.kind == "live"; // one witness is enough; so is one violation
                if (sh->done[it.q].load()) continue;
                (void)once;
                if (el() > budget || sh->viol.load() > 5) { left[it.q]++; continue; }
                double t0 = el();
                std::string desc;
                int v = decide(th, q, it, &desc, conf[it.q]);
                double dt = el() - t0;
                if (dt > slow) { slow = dt; slowQ = q.line + " " + std::to_string(it.pi[0]) + "," + std::to_string(it.pi.size() > 1 ? it.pi[1] : 0); }
                r[it.q].secs += dt;
                r[it.q].combos++;
                if (v == 1) { r[it.q].sat++; sh->done[it.q] = 1; if (q.kind != "live") { sh->viol++; } found.push_back(desc); }
                else if (v == 0) r[it.q].unsat++;
                else if (v == 2) r[it.q].unknown++;
                else triv[it.q]++;
            }
            f << "{\"queries\":[";
            for (size_t q = 0; q < qs.size(); q++)
                f << (q ? "," : "") << "[" << r[q].combos << "," << r[q].sat << "," << r[q].unsat << "," << r[q].unknown << "," << left[q] << "," << triv[q] << "," << conf[q] << "," << r[q].secs << "]";
            f << "],\"slow\":" << slow << ",\"slow_query\":" << jesc(slowQ) << ",\"found\":[";
            for (size_t i = 0; i < found.size(); i++) f << (i ? "," : "") << found[i] << "\n";
            f << "]}\n";
            f.close();
            _exit(0);
        }
        pids.push_back(p);
    }
    int bad = 0;
    for (pid_t p : pids) { int s; waitpid(p, &s, 0); if (!WIFEXITED(s) || WEXITSTATUS(s)) bad++; }
    std::ofstream f(out);
    f << "{\"bad\":" << bad << ",\"jobs\":" << jobs << ",\"items\":" << items.size() << ",\"explore_s\":" << texp << ",\"wall_s\":" << el() << ",\"queries\":[";
    for (size_t q = 0; q < qs.size(); q++) f << (q ? "," : "") << "{\"line\":" << jesc(qs[q].line) << ",\"combos\":" << per[q].size() << "}";
    f << "],\"threads\":[";
    for (size_t t = 0; t < th.size(); t++) {
        int c[6] = {0};
        size_t me = 0, ma = 0;
        for (auto &p : th[t].paths) { c[p.leaf]++; me = std::max(me, p.ev.size()); ma = std::max(ma, p.acc.size()); }
        f << (t ? "," : "") << "{\"name\":" << jesc(th[t].name) << ",\"paths\":" << th[t].paths.size() << ",\"explored\":" << th[t].explored << ",\"errors\":" << th[t].errors << ",\"instrs\":" << th[t].instrs << ",\"events\":" << me << ",\"accesses\":" << ma;
        for (int i = 0; i < 6; i++) f << ",\"" << leafName[i] << "\":" << c[i];
        f << "}";
    }
    f << "],\"errmsgs\":[";
    bool c = false;
    for (auto &m : EN->errorMsgs) { f << (c ? "," : "") << jesc(m.first); c = true; }
    f << "],\"functions\":[";
    c = false;
    for (auto &p : EN->funcs) if (p.second->executed && p.second->defined && !p.second->h) { f << (c ? "," : "") << jesc(p.second->name); c = true; }
    f << "]}\n";
    return bad ? 3 : 0;
}

// every atomic operation, wait and notify announces itself to the native replay runtime
static void instrument(Engine &en, const std::string &path) {
    using namespace llvm;
    Module &M = *en.mod;
    auto &X = M.getContext();
    auto *P8 = PointerType::get(X, 0);
    auto *I32 = Type::getInt32Ty(X);
    auto *I64 = Type::getInt64Ty(X);
    auto pre = M.getOrInsertFunction("vp_pre", FunctionType::get(Type::getVoidTy(X), {P8, I32}, false));
    auto post = M.getOrInsertFunction("vp_post", FunctionType::get(Type::getVoidTy(X), {P8, I64}, false));
    auto wait = M.getOrInsertFunction("vp_wait", FunctionType::get(Type::getVoidTy(X), {P8, I64, I32}, false));
    auto notify = M.getOrInsertFunction("vp_notify", FunctionType::get(Type::getVoidTy(X), {P8, I32}, false));
    for (auto &F : M) {
        if (F.isDeclaration()) continue;
        F.addFnAttr(Attribute::SanitizeThread);
        std::vector<Instruction *> v;
        for (auto &B : F) for (auto &I : B) v.push_back(&I);
        for (auto *I : v) {
            IRBuilder<> b(I);
            Value *p = nullptr;
            int k = 0;
            if (auto *l = dyn_cast<LoadInst>(I)) { if (l->isAtomic()) { p = l->getPointerOperand(); k = 'L'; } }
            else if (auto *s = dyn_cast<StoreInst>(I)) { if (s->isAtomic()) { p = s->getPointerOperand(); k = 'S'; } }
            else if (auto *r = dyn_cast<AtomicRMWInst>(I)) { p = r->getPointerOperand(); k = 'R'; }
            else if (auto *x = dyn_cast<AtomicCmpXchgInst>(I)) { p = x->getPointerOperand(); k = 'C'; }
            else if (auto *cb = dyn_cast<CallBase>(I)) {
                Function *cf = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
                if (!cf || cf->isIntrinsic()) continue;
                int ck = callKind(en.getFunc(cf));
                if (ck == 1 && cb->arg_size() >= 2 && cb->getArgOperand(1)->getType()->isIntegerTy()) {
                    b.CreateCall(wait, {cb->getArgOperand(0), b.CreateZExt(cb->getArgOperand(1), I64), b.getInt32(cb->getArgOperand(1)->getType()->getIntegerBitWidth())});
                } else if (ck == 2 || ck == 7) b.CreateCall(notify, {cb->getArgOperand(0), b.getInt32(ck == 7)});
                else continue;
                if (auto *ii = dyn_cast<InvokeInst>(I)) { BranchInst::Create(ii->getNormalDest(), I); ii->getUnwindDest()->removePredecessor(ii->getParent()); }
                I->eraseFromParent();
                continue;
            }
            if (!p) continue;
            b.CreateCall(pre, {p, b.getInt32(k)});
            IRBuilder<> a(I->getNextNode());
            Value *val = a.getInt64(0);
            if (k == 'L' && I->getType()->isIntegerTy() && I->getType()->getIntegerBitWidth() <= 64) val = a.CreateZExt(I, I64);
            a.CreateCall(post, {p, val});
        }
    }
    {
        auto reg = M.getOrInsertFunction("vp_range", FunctionType::get(Type::getVoidTy(X), {P8, I64}, false));
        auto *F = Function::Create(FunctionType::get(Type::getVoidTy(X), {}, false), GlobalValue::ExternalLinkage, "vp_globals", M);
        IRBuilder<> b(BasicBlock::Create(X, "", F));
        for (auto *g : sharedGlobals(M)) b.CreateCall(reg, {const_cast<GlobalVariable *>(g), b.getInt64(M.getDataLayout().getTypeAllocSize(g->getValueType()))});
        b.CreateRetVoid();
    }
    std::error_code ec;
    raw_fd_ostream os(path, ec);
    WriteBitcodeToFile(M, os);
}

int concMain(Engine &E_, int argc, char **argv) {
    EN = &E_;
    Engine &en = E_;
    std::string spec, out = "/dev/stdout", instr;
    int jobs = 8;
    double budget = 600;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--spec") spec = argv[++i];
        else if (a == "--out") out = argv[++i];
        else if (a == "--jobs") jobs = atoi(argv[++i]);
        else if (a == "--budget") budget = atof(argv[++i]);
        else if (a == "--instrument") instr = argv[++i];
        else if (a == "--max-visits") maxVisits = atoi(argv[++i]);
        else if (a == "--max-events") maxEvents = atoi(argv[++i]);
    }
    if (!instr.empty()) { instrument(en, instr); return 0; }
    auto T0 = std::chrono::steady_clock::now();
    auto el = [&]() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); };
    std::vector<Thread> th;
    std::map<std::string, int> tix;
    std::vector<Query> qs;
    {
        std::ifstream f(spec);
        std::string l;
        while (std::getline(f, l)) {
            std::istringstream is(l);
            std::string k;
            is >> k;
            if (k.empty() || k[0] == '#') continue;
            Query q;
            q.kind = k;
            q.line = l;
            std::string t;
            while (is >> t) {
                if (!tix.count(t)) {
                    Thread x;
                    x.name = t;
                    std::string fn = t;
                    // suffixes: ! stays open in its body, + may be woken once during its commit, * may be woken once anywhere
                    if (fn.back() == '!') { x.park = true; fn.pop_back(); }
                    if (fn.back() == '+') { x.unroll = 1; x.commitOnly = true; fn.pop_back(); }
                    if (fn.back() == '*') { x.unroll = 1; fn.pop_back(); }
                    x.func = "t_" + fn;
                    tix[t] = th.size();
                    th.push_back(x);
                }
                q.th.push_back(tix[t]);
            }
            qs.push_back(q);
        }
    }
    // constructors and set-up, concretely
    auto st = std::make_unique<State>();
    en.initState(*st);
    runCtors(en, *st);
    uint64_t lo = 1, hi = 0;
    en.onCall = [&](State &s, Inst &I, Func *f, std::vector<Val> &a) {
        if (f->name == "vp_shared") {
            if (a[0].c) { lo = a[0].c; hi = lo + a[1].c; }
            else if (ranges.empty()) for (auto *g : sharedGlobals(*en.mod)) { uint64_t b = baseOf(en.gids.at(g)); ranges.push_back({b, b + en.mod->getDataLayout().getTypeAllocSize(g->getValueType())}); }
            Frame &c = s.frames.back();
            if (I.invoke) en.gotoEdge(s, I.edges[0]); else c.pc++;
            return true;
        }
        return false;
    };
    auto *sf = en.mod->getFunction("vp_setup");
    if (!sf) { fprintf(stderr, "no vp_setup\n"); return 3; }
    en.startFunction(*st, en.getFunc(sf), {});
    if (!en.runPath(*st) || !en.work.empty()) { fprintf(stderr, "set-up failed: %s\n", en.violations.empty() ? "fork or unsupported" : en.violations[0].msg.c_str()); for (auto &x : en.errorMsgs) fprintf(stderr, "  %s\n", x.first.c_str()); return 3; }
    en.violations.clear();
    en.violMsgs.clear();
    shLo = lo;
    shHi = hi;
    st->conc.reset();
    S0 = std::shared_ptr<State>(st.release());
    s0next = S0->mem.next;
    for (auto &g : en.gids) if (g.first->isThreadLocal()) tlsObjs.insert(g.second);
    // names of heap blocks: the first pointer to them, breadth first from the shared object
    {
        std::vector<uint32_t> q{idOf(shLo)};
        std::set<uint32_t> done{idOf(shLo)};
        for (size_t i = 0; i < q.size(); i++) {
            Obj *o = S0->mem.get(q[i]);
            if (!o) continue;
            for (uint64_t off = 0; off + 8 <= o->size; off += 8) {
                uint64_t v;
                memcpy(&v, o->b.data() + off, 8);
                if (v < REGION_MID) continue;
                uint32_t id = idOf(v);
                Obj *t = id < s0next ? S0->mem.get(id) : nullptr;
                if (!t || t->kind != OK_HEAP || v - baseOf(id) >= t->size) continue;
                if (done.insert(id).second) { cellOf[id] = {q[i], off}; q.push_back(id); }
            }
        }
    }
    en.concMode = true;
    en.onAtomic = conAtomic;
    en.onCall = conCall;
    en.onAccess = [](State &s, Inst &I, uint64_t a, unsigned n, bool w) { access(s, a, n, w, I.src); };
    for (auto &t : th) explore(t);
    en.work.clear();
    double texp = el();
    if (en.verbose)
        for (auto &t : th) {
            int c[6] = {0};
            for (auto &p : t.paths) c[p.leaf]++;
            fprintf(stderr, "%s: %zu paths (complete %d spin %d wait %d throw %d park %d bound %d) errors %lu instrs %lu\n", t.name.c_str(), t.paths.size(), c[0], c[1], c[2], c[3], c[4], c[5], t.errors, t.instrs);
            for (auto &p : t.paths) if (p.leaf == L_COMPLETE) { fprintf(stderr, "   %zu events %zu accesses %zu pc\n", p.ev.size(), p.acc.size(), p.pc.size()); }
            if (getenv("VP_DUMP")) for (auto &p : t.paths) { fprintf(stderr, "   -- %s %s\n", leafName[p.leaf], p.msg.c_str()); for (auto &e : p.ev) fprintf(stderr, "      %c %s %s rd=%s wr=%s %s%s %s\n", e.k, e.k == 'M' ? e.mark.c_str() : "", e.k == 'M' ? "" : addrName(e.addr).c_str(), e.rd ? showE(e.rd).c_str() : "", e.wr ? showE(e.wr).c_str() : "", e.acq ? "A" : "", e.rel ? "R" : "", e.where.substr(0, 80).c_str()); }
        }
    for (auto &m : en.errorMsgs) if (en.verbose) fprintf(stderr, "unsupported: %s\n", m.first.c_str());
    return runQueries(th, qs, jobs, budget, out, texp);
}
} // namespace tse
