#pragma once
#include "expr.h"
#include "solver.h"
#include <functional>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Module.h>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_set>

namespace tse {
struct Val {
    uint64_t c = 0;
    E e = nullptr;
    Val() {}
    explicit Val(uint64_t c) : c(c) {}
    explicit Val(E e) : c(0), e(e) { if (isC(e)) { c = e->c; this->e = nullptr; } }
};
inline E toE(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

// ---------------------------------------------------------------- memory
constexpr unsigned REGION_BITS = 38;
constexpr uint64_t REGION_MID = 1ull << 37;
inline uint64_t baseOf(uint32_t id) { return ((uint64_t)id << REGION_BITS) + REGION_MID; }
inline uint32_t idOf(uint64_t addr) { return addr >> REGION_BITS; }

enum ObjKind : uint8_t { OK_GLOBAL, OK_CONSTGLOBAL, OK_HEAP, OK_STACK, OK_EXC };
enum AllocKind : uint8_t { AK_NONE, AK_MALLOC, AK_NEW, AK_NEWARR };
struct Obj {
    uint32_t refs = 1;
    ObjKind kind;
    AllocKind ak = AK_NONE;
    uint64_t size;
    std::vector<uint8_t> b;
    std::vector<E> s; // empty, or one entry per byte (null = concrete)
    const char *name = nullptr;
};
constexpr unsigned CH = 64;
struct Chunk {
    uint32_t refs = 1;
    Obj *o[CH] = {};
};
struct Mem {
    std::vector<Chunk *> ch;
    uint32_t next = 1;
    Mem() {}
    Mem(const Mem &m) : ch(m.ch), next(m.next) { for (auto *c : ch) if (c) c->refs++; }
    Mem &operator=(const Mem &) = delete;
    ~Mem() { for (auto *c : ch) if (c) unref(c); }
    static void unrefO(Obj *o) { if (--o->refs == 0) delete o; }
    static void unref(Chunk *c) {
        if (--c->refs) return;
        for (auto *o : c->o) if (o) unrefO(o);
        delete c;
    }
    Obj *get(uint32_t id) const {
        uint32_t ci = id / CH;
        if (ci >= ch.size() || !ch[ci]) return nullptr;
        return ch[ci]->o[id % CH];
    }
    Chunk *wchunk(uint32_t id) {
        uint32_t ci = id / CH;
        if (ci >= ch.size()) ch.resize(ci + 1, nullptr);
        Chunk *&c = ch[ci];
        if (!c) c = new Chunk;
        else if (c->refs > 1) {
            Chunk *n = new Chunk;
            for (unsigned i = 0; i < CH; i++) { n->o[i] = c->o[i]; if (n->o[i]) n->o[i]->refs++; }
            c->refs--;
            c = n;
        }
        return c;
    }
    Obj *wget(uint32_t id) {
        Chunk *c = wchunk(id);
        Obj *&o = c->o[id % CH];
        if (o && o->refs > 1) {
            Obj *n = new Obj(*o);
            n->refs = 1;
            o->refs--;
            o = n;
        }
        return o;
    }
    uint32_t alloc(uint64_t size, ObjKind k, uint8_t fill) {
        uint32_t id = next++;
        Chunk *c = wchunk(id);
        Obj *o = new Obj;
        o->kind = k;
        o->size = size;
        o->b.assign(size, fill);
        c->o[id % CH] = o;
        return id;
    }
    void free(uint32_t id) {
        Chunk *c = wchunk(id);
        Obj *&o = c->o[id % CH];
        if (o) { unrefO(o); o = nullptr; }
    }
};

// ---------------------------------------------------------------- decoded IR
enum IOp : uint8_t {
    I_BIN, I_ICMP, I_LOAD, I_STORE, I_GEP, I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_UNREACHABLE, I_SELECT,
    I_TRUNC, I_ZEXT, I_SEXT, I_COPY, I_ALLOCA, I_LANDINGPAD, I_RESUME, I_RMW, I_CMPXCHG, I_FENCE, I_FBIN, I_FCMP, I_FCAST, I_UNSUP
};
struct Leaf { uint16_t w; uint32_t off; };
struct Func;
struct Edge { uint32_t target; std::vector<std::pair<int32_t, int32_t>> copies; };
struct GepTerm { int32_t opnd; uint16_t w; int64_t scale; };
struct Inst {
    IOp op;
    uint8_t sub = 0;   // Op for I_BIN, predicate for I_ICMP, rmw op, ordering
    uint8_t ord = 0;   // success ordering for atomics (0: not atomic)
    uint8_t ord2 = 0;  // failure ordering
    uint16_t w = 0;    // operand width
    uint16_t n = 1;    // leaf count
    int32_t dst = -1, a = -1, b = -1, c = -1;
    uint64_t imm = 0;
    std::vector<Leaf> leaves;
    std::vector<Edge> edges;          // br: [0], cbr: [true,false], switch: [default, cases...], invoke: [normal, unwind]
    std::vector<uint64_t> cases;
    std::vector<GepTerm> gep;
    std::vector<int32_t> args;        // flattened argument slots (arg start slots)
    std::vector<uint16_t> argN;       // leaves per argument
    std::vector<uint64_t> byval;      // 0 or size per argument
    Func *callee = nullptr;
    bool invoke = false;
    bool weak = false;
    std::vector<uint64_t> clauses;    // landingpad: catch typeinfo addresses (0 = catch all)
    bool cleanup = false;
    const llvm::Instruction *src = nullptr;
    uint32_t uid = 0;
};
struct Engine;
struct State;
struct Frame;
typedef void (*Handler)(Engine &, State &, Inst &, std::vector<Val> &args, Val &ret);
struct Func {
    std::string name;
    llvm::Function *f = nullptr;
    bool defined = false, decoded = false;
    bool executed = false;
    uint64_t addr = 0;
    uint32_t nregs = 0, nparams = 0;
    std::vector<uint16_t> paramW;
    std::vector<Inst> code;
    std::vector<Val> consts;
    Handler h = nullptr;
    int builtin = 0;
    uint64_t calls = 0;
};
struct Frame {
    Func *f;
    uint32_t pc;
    uint32_t base;   // register base
    std::vector<uint32_t> allocas;
};
struct Caught { uint64_t obj, ti; int count; };
struct Input { const char *name; E e; unsigned w; };

struct ConcState;
struct State {
    Mem mem;
    std::vector<Val> regs;
    std::vector<Frame> frames;
    std::vector<E> pc;
    Model model;
    std::map<uint32_t, uint64_t> subst;
    std::vector<Input> inputs;
    std::map<std::string, int> symCount;
    uint64_t instrs = 0;
    uint64_t excObj = 0, excTi = 0;   // exception in flight
    std::vector<Caught> caught;
    std::vector<std::pair<uint64_t, uint64_t>> excTis; // exception object -> typeinfo
    uint64_t errnoAddr = 0;
    bool leakCheck = false;
    uint32_t leakFrom = 0;
    std::shared_ptr<ConcState> conc;
    bool done = false;
    std::vector<std::string> trace;
    State() {}
    State(const State &) = default;
};

struct Violation {
    std::string msg, where;
    std::vector<std::pair<std::string, uint64_t>> inputs;
};

struct PathEnd { enum Kind { OK, KILLED, VIOLATION, ERROR } k; std::string msg; };
struct StopPath { PathEnd e; };
struct Unwound {}; // an exception was raised and the frames already unwound

struct Engine {
    std::unique_ptr<llvm::Module> mod;
    const llvm::DataLayout *DL = nullptr;
    std::map<const llvm::Function *, Func *> funcs;
    std::map<uint64_t, Func *> byAddr;
    std::map<const llvm::GlobalVariable *, uint32_t> gids;
    std::map<std::string, uint64_t> extTi;
    std::map<uint64_t, int> tiIds;
    std::map<uint64_t, std::string> tiNames;
    std::map<uint64_t, std::vector<uint64_t>> tiBases;
    uint32_t nextUid = 0;

    // options
    bool stubStrings = true, opaqueNumbers = false;
    uint64_t maxInstrs = 50000000;
    bool verbose = false;
    uint64_t seed = 1;

    // exploration
    std::vector<std::unique_ptr<State>> work;
    std::vector<Violation> violations;
    std::set<std::string> violMsgs;
    uint64_t paths = 0, killed = 0, errors = 0, totalInstrs = 0, forks = 0;
    uint64_t assertsSolver = 0, assertsFolded = 0, branchesSym = 0;
    std::map<std::string, uint64_t> reach;
    std::map<std::string, uint64_t> havocExt;
    std::map<std::string, uint64_t> errorMsgs;
    std::vector<std::string> samples;
    uint64_t unknowns = 0;

    // loading
    void load(const std::string &path);
    void initState(State &s);
    void decode(Func *f);
    Func *getFunc(const llvm::Function *f);
    uint64_t typeinfoByName(State &s, const std::string &name);
    uint64_t constAddr(const llvm::Constant *c);
    void evalConst(const llvm::Constant *c, std::vector<Val> &out);
    void flatten(llvm::Type *t, std::vector<Leaf> &out, uint64_t off = 0);
    void writeInit(Obj *o, uint64_t off, const llvm::Constant *c);

    // running
    void startFunction(State &s, Func *f, const std::vector<Val> &args);
    bool runPath(State &s); // returns when the path ends
    void step(State &s);
    void doCall(State &s, Inst &I, Func *f, std::vector<Val> &args);
    void doRet(State &s, Inst *I);
    void throwExc(State &s, uint64_t obj, uint64_t ti);
    void unwind(State &s, bool popFirst);
    void throwStd(State &s, const char *tiName);
    void gotoEdge(State &s, Edge &e);
    void popFrame(State &s);

    // values
    E simp(State &s, E e);
    uint64_t resolve(State &s, const Val &v, unsigned w);   // may throw Retry after forking... (never: forks others)
    bool branch(State &s, const Val &c);
    void addPC(State &s, E c);
    void learn(State &s, E e, uint64_t v);
    State *fork(State &s);

    Val load(State &s, uint64_t addr, unsigned bytes);
    void store(State &s, uint64_t addr, unsigned bytes, const Val &v);
    uint64_t resolveAddr(State &s, const Val &v, uint64_t bytes, bool write);
    Obj *objAt(State &s, uint64_t addr, uint64_t bytes, bool write, uint64_t &off);
    uint64_t heapAlloc(State &s, uint64_t size, AllocKind k);
    void heapFree(State &s, uint64_t addr, AllocKind k);
    std::string readStr(State &s, uint64_t addr);
    void copyMem(State &s, uint64_t d, uint64_t src, uint64_t n);

    [[noreturn]] void fail(State &s, const std::string &msg);              // property violation on this path
    [[noreturn]] void failWith(State &s, const std::string &msg, const Model &m);
    void report(State &s, const std::string &msg, const Model &m);
    [[noreturn]] void unsupported(State &s, const std::string &msg);
    std::string where(State &s);
    Val newSym(State &s, const std::string &name, unsigned w, bool input = true);

    Handler lookupHandler(const std::string &n);
    void assertTrue(State &s, const Val &v, const std::string &msg);
    void assume(State &s, const Val &v);

    // concurrency hooks (conc.cpp)
    bool concMode = false;
    std::function<bool(State &, Inst &)> onAtomic; // true: handled
    std::function<void(State &, Inst &, uint64_t addr, unsigned bytes, bool write)> onAccess;
    std::function<bool(State &, Inst &, Func *, std::vector<Val> &)> onCall;
    std::function<void(State &, const PathEnd &)> onPathEnd;
};

bool runCtors(Engine &E, State &st);
int concMain(Engine &E, int argc, char **argv);
} // namespace tse
