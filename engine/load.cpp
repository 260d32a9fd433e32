// Bitcode loading and decoding into a compact executable form.
#include "exec.h"
#include <llvm/ADT/APFloat.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
using namespace llvm;
namespace tse {
static LLVMContext Ctx;

void Engine::flatten(Type *t, std::vector<Leaf> &out, uint64_t off) {
    if (t->isVoidTy()) return;
    if (t->isIntegerTy()) { out.push_back({(uint16_t)t->getIntegerBitWidth(), (uint32_t)off}); return; }
    if (t->isPointerTy()) { out.push_back({64, (uint32_t)off}); return; }
    if (t->isFloatTy()) { out.push_back({32, (uint32_t)off}); return; }
    if (t->isDoubleTy()) { out.push_back({64, (uint32_t)off}); return; }
    if (auto *st = dyn_cast<StructType>(t)) {
        auto *sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++) flatten(st->getElementType(i), out, off + sl->getElementOffset(i));
        return;
    }
    if (auto *at = dyn_cast<ArrayType>(t)) {
        uint64_t es = DL->getTypeAllocSize(at->getElementType());
        for (uint64_t i = 0; i < at->getNumElements(); i++) flatten(at->getElementType(), out, off + i * es);
        return;
    }
    out.push_back({65, (uint32_t)off}); // unsupported marker
}

Func *Engine::getFunc(const Function *f) {
    auto it = funcs.find(f);
    if (it != funcs.end()) return it->second;
    Func *F = new Func;
    F->f = const_cast<Function *>(f);
    F->name = f->getName().str();
    F->defined = !f->isDeclaration();
    F->addr = 0x10000 + 16 * funcs.size();
    F->h = lookupHandler(F->name);
    funcs[f] = F;
    byAddr[F->addr] = F;
    return F;
}

uint64_t Engine::constAddr(const Constant *c) {
    if (auto *f = dyn_cast<Function>(c)) {
        if (f->hasExternalWeakLinkage() && f->isDeclaration()) return 0;
        return getFunc(f)->addr;
    }
    if (auto *g = dyn_cast<GlobalVariable>(c)) return baseOf(gids.at(g));
    if (auto *a = dyn_cast<GlobalAlias>(c)) return constAddr(a->getAliasee());
    fprintf(stderr, "constAddr?\n");
    abort();
}

void Engine::evalConst(const Constant *c, std::vector<Val> &out) {
    if (auto *ci = dyn_cast<ConstantInt>(c)) {
        if (ci->getBitWidth() > 64) { out.push_back(Val(ci->getValue().trunc(64).getZExtValue())); return; }
        out.push_back(Val(ci->getZExtValue()));
        return;
    }
    if (isa<ConstantPointerNull>(c)) { out.push_back(Val((uint64_t)0)); return; }
    if (auto *cf = dyn_cast<ConstantFP>(c)) { out.push_back(Val(cf->getValueAPF().bitcastToAPInt().getZExtValue())); return; }
    if (isa<GlobalValue>(c)) { out.push_back(Val(constAddr(c))); return; }
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
        std::vector<Leaf> l;
        flatten(c->getType(), l);
        for (size_t i = 0; i < l.size(); i++) out.push_back(Val((uint64_t)0));
        return;
    }
    if (isa<ConstantStruct>(c) || isa<ConstantArray>(c)) {
        for (unsigned i = 0; i < c->getNumOperands(); i++) evalConst(cast<Constant>(c->getOperand(i)), out);
        return;
    }
    if (auto *ca = dyn_cast<ConstantDataSequential>(c)) {
        for (unsigned i = 0; i < ca->getNumElements(); i++) evalConst(ca->getElementAsConstant(i), out);
        return;
    }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
        std::vector<Val> a, b;
        unsigned w = ce->getType()->isPointerTy() ? 64 : ce->getType()->isIntegerTy() ? ce->getType()->getIntegerBitWidth() : 64;
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
            auto *g = cast<GEPOperator>(ce);
            APInt off(64, 0);
            if (!g->accumulateConstantOffset(*DL, off)) break;
            evalConst(cast<Constant>(g->getPointerOperand()), a);
            out.push_back(Val(a[0].c + off.getZExtValue()));
            return;
        }
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc: case Instruction::ZExt:
            evalConst(ce->getOperand(0), a);
            out.push_back(Val(a[0].c & maskw(w)));
            return;
        case Instruction::Add: case Instruction::Sub: case Instruction::Xor: case Instruction::Mul: {
            evalConst(ce->getOperand(0), a);
            evalConst(ce->getOperand(1), b);
            uint64_t r;
            Op o = ce->getOpcode() == Instruction::Add ? ADD : ce->getOpcode() == Instruction::Sub ? SUB : ce->getOpcode() == Instruction::Mul ? MUL : XOR;
            foldBin(o, w, a[0].c, b[0].c, r);
            out.push_back(Val(r));
            return;
        }
        case Instruction::ICmp: {
            evalConst(ce->getOperand(0), a);
            evalConst(ce->getOperand(1), b);
            bool r = ce->getPredicate() == CmpInst::ICMP_EQ ? a[0].c == b[0].c : a[0].c != b[0].c;
            out.push_back(Val((uint64_t)r));
            return;
        }
        default: break;
        }
    }
    std::vector<Leaf> l;
    flatten(c->getType(), l);
    fprintf(stderr, "warning: unsupported constant\n");
    for (size_t i = 0; i < l.size(); i++) out.push_back(Val((uint64_t)0));
}

void Engine::writeInit(Obj *o, uint64_t off, const Constant *c) {
    std::vector<Leaf> l;
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    if (auto *cs = dyn_cast<ConstantDataSequential>(c)) {
        StringRef r = cs->getRawDataValues();
        memcpy(o->b.data() + off, r.data(), r.size());
        return;
    }
    if (auto *st = dyn_cast<ConstantStruct>(c)) {
        auto *sl = DL->getStructLayout(st->getType());
        for (unsigned i = 0; i < st->getNumOperands(); i++) writeInit(o, off + sl->getElementOffset(i), st->getOperand(i));
        return;
    }
    if (auto *ar = dyn_cast<ConstantArray>(c)) {
        uint64_t es = DL->getTypeAllocSize(ar->getType()->getElementType());
        for (unsigned i = 0; i < ar->getNumOperands(); i++) writeInit(o, off + i * es, ar->getOperand(i));
        return;
    }
    std::vector<Val> v;
    evalConst(c, v);
    uint64_t sz = DL->getTypeStoreSize(c->getType());
    if (sz <= 8) memcpy(o->b.data() + off, &v[0].c, sz);
}

void Engine::load(const std::string &path) {
    SMDiagnostic err;
    mod = parseIRFile(path, err, Ctx);
    if (!mod) { err.print("tse", errs()); exit(3); }
    DL = &mod->getDataLayout();
}

void Engine::initState(State &s) {
    for (auto &f : *mod) getFunc(&f);
    for (auto &g : mod->globals()) {
        uint64_t sz = g.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 64;
        if (g.isDeclaration() && sz < 256) sz = 256;
        uint32_t id = s.mem.alloc(sz ? sz : 1, g.isConstant() && !g.isDeclaration() ? OK_CONSTGLOBAL : OK_GLOBAL, 0);
        gids[&g] = id;
        s.mem.wget(id)->name = strdup(g.getName().str().c_str());
    }
    for (auto &g : mod->globals()) {
        if (g.hasInitializer()) writeInit(s.mem.wget(gids[&g]), 0, g.getInitializer());
        std::string n = g.getName().str();
        if (n.compare(0, 4, "_ZTI") == 0) {
            uint64_t a = baseOf(gids[&g]);
            extTi[n] = a;
            tiNames[a] = n;
            if (g.hasInitializer()) {
                auto *c = dyn_cast<ConstantStruct>(g.getInitializer());
                if (c && c->getNumOperands() >= 3) {
                    std::vector<Val> v;
                    if (c->getNumOperands() == 3) { evalConst(c->getOperand(2), v); tiBases[a].push_back(v[0].c); }
                    else for (unsigned i = 4; i < c->getNumOperands(); i += 2) { v.clear(); evalConst(c->getOperand(i), v); tiBases[a].push_back(v[0].c); }
                }
            }
        }
    }
}

uint64_t Engine::typeinfoByName(State &s, const std::string &n) {
    auto it = extTi.find(n);
    if (it != extTi.end()) return it->second;
    // synthetic address, never dereferenced
    static uint64_t nxt = 0x7000;
    nxt += 8;
    extTi[n] = nxt;
    tiNames[nxt] = n;
    return nxt;
}

static uint8_t ordNum(AtomicOrdering o) { return (uint8_t)o; }

void Engine::decode(Func *F) {
    if (F->decoded) return;
    F->decoded = true;
    Function *f = F->f;
    std::map<const Value *, int32_t> slot;
    uint32_t nr = 0;
    auto nleaves = [&](Type *t) { std::vector<Leaf> l; flatten(t, l); return (uint32_t)l.size(); };
    for (auto &a : f->args()) { slot[&a] = nr; nr += nleaves(a.getType()); }
    F->nparams = nr;
    for (auto &bb : *f) for (auto &i : bb) if (!i.getType()->isVoidTy()) { slot[&i] = nr; nr += nleaves(i.getType()); }
    F->nregs = nr;
    std::map<const Value *, int32_t> cpool;
    auto opnd = [&](const Value *v) -> int32_t {
        if (auto *c = dyn_cast<Constant>(v)) {
            auto it = cpool.find(v);
            if (it != cpool.end()) return it->second;
            int32_t k = ~(int32_t)F->consts.size();
            evalConst(c, F->consts);
            cpool[v] = k;
            return k;
        }
        if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return 0;
        auto it = slot.find(v);
        if (it == slot.end()) { fprintf(stderr, "no slot\n"); abort(); }
        return it->second;
    };
    // consts are consecutive: leaf k of constant at ~base is ~(base+k): handled in at()
    auto at = [&](int32_t s, unsigned k) -> int32_t { return s >= 0 ? s + (int32_t)k : s - (int32_t)k; };
    std::map<const BasicBlock *, uint32_t> start;
    std::vector<std::tuple<size_t, size_t, const BasicBlock *>> fix; // inst, edge, block
    auto width = [&](Type *t) -> uint16_t { return t->isPointerTy() ? 64 : t->isIntegerTy() ? t->getIntegerBitWidth() : t->isFloatTy() ? 32 : t->isDoubleTy() ? 64 : 65; };
    auto mkEdge = [&](const BasicBlock *from, const BasicBlock *to) {
        Edge e;
        e.target = 0;
        for (auto &phi : to->phis()) {
            int32_t d = slot[&phi], sr = opnd(phi.getIncomingValueForBlock(from));
            unsigned n = nleaves(phi.getType());
            for (unsigned k = 0; k < n; k++) e.copies.push_back({at(d, k), at(sr, k)});
        }
        return e;
    };
    for (auto &bb : *f) {
        start[&bb] = F->code.size();
        for (auto &i : bb) {
            if (isa<PHINode>(i)) continue;
            Inst I;
            I.src = &i;
            I.uid = nextUid++;
            if (!i.getType()->isVoidTy()) I.dst = slot[&i];
            auto addEdge = [&](const BasicBlock *to) {
                fix.push_back({F->code.size(), I.edges.size(), to});
                I.edges.push_back(mkEdge(&bb, to));
            };
            I.op = I_UNSUP;
            if (auto *b = dyn_cast<BinaryOperator>(&i)) {
                I.a = opnd(b->getOperand(0)); I.b = opnd(b->getOperand(1));
                I.w = width(b->getType());
                I.op = I_BIN;
                switch (b->getOpcode()) {
                case Instruction::Add: I.sub = ADD; break; case Instruction::Sub: I.sub = SUB; break;
                case Instruction::Mul: I.sub = MUL; break; case Instruction::UDiv: I.sub = UDIV; break;
                case Instruction::SDiv: I.sub = SDIV; break; case Instruction::URem: I.sub = UREM; break;
                case Instruction::SRem: I.sub = SREM; break; case Instruction::Shl: I.sub = SHL; break;
                case Instruction::LShr: I.sub = LSHR; break; case Instruction::AShr: I.sub = ASHR; break;
                case Instruction::And: I.sub = AND; break; case Instruction::Or: I.sub = OR; break;
                case Instruction::Xor: I.sub = XOR; break;
                case Instruction::FAdd: I.op = I_FBIN; I.sub = 0; break; case Instruction::FSub: I.op = I_FBIN; I.sub = 1; break;
                case Instruction::FMul: I.op = I_FBIN; I.sub = 2; break; case Instruction::FDiv: I.op = I_FBIN; I.sub = 3; break;
                default: I.op = I_UNSUP;
                }
                if (I.w > 64) I.op = I_UNSUP;
            } else if (auto *c = dyn_cast<ICmpInst>(&i)) {
                I.op = I_ICMP;
                I.a = opnd(c->getOperand(0)); I.b = opnd(c->getOperand(1));
                I.w = width(c->getOperand(0)->getType());
                bool sw = false, neg = false;
                switch (c->getPredicate()) {
                case CmpInst::ICMP_EQ: I.sub = EQ; break; case CmpInst::ICMP_NE: I.sub = EQ; neg = true; break;
                case CmpInst::ICMP_ULT: I.sub = ULT; break; case CmpInst::ICMP_ULE: I.sub = ULE; break;
                case CmpInst::ICMP_UGT: I.sub = ULT; sw = true; break; case CmpInst::ICMP_UGE: I.sub = ULE; sw = true; break;
                case CmpInst::ICMP_SLT: I.sub = SLT; break; case CmpInst::ICMP_SLE: I.sub = SLE; break;
                case CmpInst::ICMP_SGT: I.sub = SLT; sw = true; break; case CmpInst::ICMP_SGE: I.sub = SLE; sw = true; break;
                default: break;
                }
                if (sw) std::swap(I.a, I.b);
                I.imm = neg;
                if (I.w > 64) I.op = I_UNSUP;
            } else if (auto *c = dyn_cast<FCmpInst>(&i)) {
                I.op = I_FCMP; I.a = opnd(c->getOperand(0)); I.b = opnd(c->getOperand(1)); I.w = width(c->getOperand(0)->getType());
                I.sub = c->getPredicate();
            } else if (auto *l = dyn_cast<LoadInst>(&i)) {
                I.op = I_LOAD; I.a = opnd(l->getPointerOperand());
                flatten(l->getType(), I.leaves);
                I.n = I.leaves.size();
                I.w = I.n == 1 ? I.leaves[0].w : 0;
                I.imm = DL->getTypeStoreSize(l->getType());
                I.ord = l->isAtomic() ? ordNum(l->getOrdering()) : 0;
                for (auto &x : I.leaves) if (x.w > 64) I.op = I_UNSUP;
            } else if (auto *st = dyn_cast<StoreInst>(&i)) {
                I.op = I_STORE; I.a = opnd(st->getPointerOperand()); I.b = opnd(st->getValueOperand());
                flatten(st->getValueOperand()->getType(), I.leaves);
                I.n = I.leaves.size();
                I.w = I.n == 1 ? I.leaves[0].w : 0;
                I.imm = DL->getTypeStoreSize(st->getValueOperand()->getType());
                I.ord = st->isAtomic() ? ordNum(st->getOrdering()) : 0;
                for (auto &x : I.leaves) if (x.w > 64) I.op = I_UNSUP;
            } else if (auto *g = dyn_cast<GetElementPtrInst>(&i)) {
                I.op = I_GEP; I.a = opnd(g->getPointerOperand());
                uint64_t off = 0;
                for (gep_type_iterator it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
                    Value *ix = it.getOperand();
                    if (StructType *sty = it.getStructTypeOrNull()) {
                        off += DL->getStructLayout(sty)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
                    } else {
                        int64_t sc = DL->getTypeAllocSize(it.getIndexedType());
                        if (auto *ci = dyn_cast<ConstantInt>(ix)) off += (uint64_t)(ci->getSExtValue() * sc);
                        else I.gep.push_back({opnd(ix), width(ix->getType()), sc});
                    }
                }
                I.imm = off;
            } else if (auto *b = dyn_cast<BranchInst>(&i)) {
                if (b->isConditional()) {
                    I.op = I_CBR; I.a = opnd(b->getCondition());
                    addEdge(b->getSuccessor(0)); addEdge(b->getSuccessor(1));
                } else { I.op = I_BR; addEdge(b->getSuccessor(0)); }
            } else if (auto *sw = dyn_cast<SwitchInst>(&i)) {
                I.op = I_SWITCH; I.a = opnd(sw->getCondition()); I.w = width(sw->getCondition()->getType());
                addEdge(sw->getDefaultDest());
                for (auto &cs : sw->cases()) { I.cases.push_back(cs.getCaseValue()->getZExtValue()); addEdge(cs.getCaseSuccessor()); }
            } else if (auto *r = dyn_cast<ReturnInst>(&i)) {
                I.op = I_RET;
                if (r->getReturnValue()) { I.a = opnd(r->getReturnValue()); I.n = nleaves(r->getReturnValue()->getType()); }
                else I.n = 0;
            } else if (auto *cb = dyn_cast<CallBase>(&i)) {
                if (cb->isInlineAsm()) { // compiler barriers only
                    I.op = I_UNSUP;
                    if (cb->getType()->isVoidTy()) { I.op = I_COPY; I.n = 0; }
                } else if (isa<DbgInfoIntrinsic>(cb)) {
                    continue;
                } else {
                    I.op = I_CALL;
                    I.n = nleaves(cb->getType());
                    { std::vector<Leaf> l; flatten(cb->getType(), l); I.leaves = l; }
                    I.invoke = isa<InvokeInst>(cb);
                    if (I.invoke) {
                        auto *iv = cast<InvokeInst>(cb);
                        addEdge(iv->getNormalDest()); addEdge(iv->getUnwindDest());
                    }
                    const Value *cv = cb->getCalledOperand()->stripPointerCasts();
                    if (auto *al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliaseeObject();
                    if (auto *cf = dyn_cast<Function>(cv)) {
                        I.callee = getFunc(cf);
                        I.weak = cf->hasExternalWeakLinkage() && cf->isDeclaration();
                    }
                    else I.a = opnd(cb->getCalledOperand());
                    for (unsigned k = 0; k < cb->arg_size(); k++) {
                        Value *av = cb->getArgOperand(k);
                        if (isa<MetadataAsValue>(av)) { I.args.push_back(0); I.argN.push_back(0); I.byval.push_back(0); continue; }
                        I.args.push_back(opnd(av));
                        I.argN.push_back(nleaves(av->getType()));
                        I.byval.push_back(cb->isByValArgument(k) ? (uint64_t)DL->getTypeAllocSize(cb->getParamByValType(k)) : 0);
                    }
                }
            } else if (isa<UnreachableInst>(&i)) I.op = I_UNREACHABLE;
            else if (auto *se = dyn_cast<SelectInst>(&i)) {
                I.op = I_SELECT; I.a = opnd(se->getCondition()); I.b = opnd(se->getTrueValue()); I.c = opnd(se->getFalseValue());
                flatten(se->getType(), I.leaves);
                I.n = I.leaves.size();
            } else if (auto *ci = dyn_cast<CastInst>(&i)) {
                I.a = opnd(ci->getOperand(0));
                uint16_t sw = width(ci->getSrcTy()), dw = width(ci->getDestTy());
                I.w = sw; I.imm = dw;
                switch (ci->getOpcode()) {
                case Instruction::Trunc: I.op = I_TRUNC; break;
                case Instruction::ZExt: I.op = I_ZEXT; break;
                case Instruction::SExt: I.op = I_SEXT; break;
                case Instruction::PtrToInt: case Instruction::IntToPtr: I.op = dw < sw ? I_TRUNC : dw > sw ? I_ZEXT : I_COPY; break;
                case Instruction::BitCast: I.op = I_COPY; break;
                default: I.op = I_FCAST; I.sub = ci->getOpcode(); break;
                }
                if (sw > 64 || dw > 64) I.op = I_UNSUP;
            } else if (auto *al = dyn_cast<AllocaInst>(&i)) {
                I.op = I_ALLOCA; I.imm = DL->getTypeAllocSize(al->getAllocatedType());
                I.a = opnd(al->getArraySize());
                I.w = width(al->getArraySize()->getType());
            } else if (auto *ev = dyn_cast<ExtractValueInst>(&i)) {
                I.op = I_COPY;
                Type *t = ev->getAggregateOperand()->getType();
                uint32_t skip = 0;
                for (unsigned ix : ev->indices()) {
                    for (unsigned k = 0; k < ix; k++) skip += nleaves(t->isStructTy() ? t->getStructElementType(k) : t->getArrayElementType());
                    t = t->isStructTy() ? t->getStructElementType(ix) : t->getArrayElementType();
                }
                I.a = at(opnd(ev->getAggregateOperand()), skip);
                I.n = nleaves(t);
            } else if (auto *iv = dyn_cast<InsertValueInst>(&i)) {
                Type *t = iv->getType();
                uint32_t n = nleaves(t), skip = 0;
                for (unsigned ix : iv->indices()) {
                    for (unsigned k = 0; k < ix; k++) skip += nleaves(t->isStructTy() ? t->getStructElementType(k) : t->getArrayElementType());
                    t = t->isStructTy() ? t->getStructElementType(ix) : t->getArrayElementType();
                }
                Inst J = I;
                J.op = I_COPY; J.a = opnd(iv->getAggregateOperand()); J.n = n;
                F->code.push_back(J);
                I.op = I_COPY; I.dst = at(I.dst, skip); I.a = opnd(iv->getInsertedValueOperand()); I.n = nleaves(t);
            } else if (auto *fz = dyn_cast<FreezeInst>(&i)) {
                I.op = I_COPY; I.a = opnd(fz->getOperand(0)); I.n = nleaves(fz->getType());
            } else if (auto *lp = dyn_cast<LandingPadInst>(&i)) {
                I.op = I_LANDINGPAD;
                I.cleanup = lp->isCleanup();
                for (unsigned k = 0; k < lp->getNumClauses(); k++) {
                    if (lp->isCatch(k)) { std::vector<Val> v; evalConst(lp->getClause(k), v); I.clauses.push_back(v[0].c); }
                    else I.clauses.push_back(0); // filter: treat as catch-all
                }
            } else if (auto *re = dyn_cast<ResumeInst>(&i)) { I.op = I_RESUME; I.a = opnd(re->getValue()); }
            else if (auto *rm = dyn_cast<AtomicRMWInst>(&i)) {
                I.op = I_RMW; I.a = opnd(rm->getPointerOperand()); I.b = opnd(rm->getValOperand()); I.w = width(rm->getType());
                I.sub = (uint8_t)rm->getOperation(); I.ord = ordNum(rm->getOrdering());
            } else if (auto *cx = dyn_cast<AtomicCmpXchgInst>(&i)) {
                I.op = I_CMPXCHG; I.a = opnd(cx->getPointerOperand()); I.b = opnd(cx->getCompareOperand()); I.c = opnd(cx->getNewValOperand());
                I.w = width(cx->getCompareOperand()->getType());
                I.ord = ordNum(cx->getSuccessOrdering()); I.ord2 = ordNum(cx->getFailureOrdering());
                I.sub = cx->isWeak();
            } else if (auto *fe = dyn_cast<FenceInst>(&i)) { I.op = I_FENCE; I.ord = ordNum(fe->getOrdering()); }
            F->code.push_back(std::move(I));
        }
    }
    for (auto &[ii, ei, bb] : fix) F->code[ii].edges[ei].target = start[bb];
    {
        std::vector<Leaf> l;
        for (auto &a : f->args()) flatten(a.getType(), l);
        for (auto &x : l) F->paramW.push_back(x.w);
    }
}
} // namespace tse
