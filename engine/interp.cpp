#include "engine.h"
#include <cmath>
#include <csetjmp>
#include <csignal>
#include <cxxabi.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <ffi.h>
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace llvm;

long g_insts = 0;
std::vector<std::tuple<std::string, Val, Ty>> g_outs;
static Module *M;
static const DataLayout *DL;
static std::unordered_map<const Function *, DFunc *> g_funcs;
static std::unordered_map<std::string, int> g_fnIndex;
static std::unordered_map<const GlobalValue *, uint64_t> g_gaddr;
static std::unordered_map<uint64_t, const Function *> g_fnAt;
static std::vector<std::string> g_fnNames;
static std::vector<Thread *> T;
static int cur = 0;
static long g_maxInsts = 60000000, g_pathInsts = 0;
static std::map<uint64_t, Exn *> g_exns;
static Thread *g_cur = nullptr;
static int g_live = 1;

std::string demangle(const std::string &n) {
    int st = 0;
    char *d = abi::__cxa_demangle(n.c_str(), nullptr, nullptr, &st);
    std::string r = st == 0 && d ? d : n;
    free(d);
    return r;
}
std::string traceBack() {
    std::string o;
    if (!g_cur) return o;
    int k = 0;
    for (auto it = g_cur->st.rbegin(); it != g_cur->st.rend() && k < 8; ++it, ++k) {
        std::string n = demangle(it->fn->name);
        if (n.size() > 90) n = n.substr(0, 90) + "...";
        o += (k ? " < " : "") + n;
    }
    return o;
}

// ---- decoding
static Ty tyOf(Type *t) {
    Ty r;
    if (t->isVoidTy()) return r;
    if (t->isIntegerTy()) { r.k = T_INT; r.w = t->getIntegerBitWidth(); r.size = DL->getTypeStoreSize(t); return r; }
    if (t->isPointerTy()) { r.k = T_PTR; r.w = 64; r.size = 8; return r; }
    if (t->isDoubleTy()) { r.k = T_DBL; r.w = 64; r.size = 8; return r; }
    if (t->isFloatTy()) { r.k = T_FLT; r.w = 32; r.size = 4; return r; }
    if (t->isStructTy() || t->isArrayTy()) { r.k = T_AGG; r.size = t->isSized() ? (uint32_t)DL->getTypeStoreSize(t) : 0; return r; }
    r.k = T_OTHER;
    if (t->isSized()) r.size = DL->getTypeStoreSize(t);
    return r;
}
static uint64_t gaddr(const GlobalValue *g);
static Val constVal(const Constant *c) {
    if (auto *ci = dyn_cast<ConstantInt>(c)) {
        APInt a = ci->getValue();
        if (a.getBitWidth() > 128) incomplete("wide integer constant");
        u128 v = a.extractBitsAsZExtValue(std::min(64u, a.getBitWidth()), 0);
        if (a.getBitWidth() > 64) v |= (u128)a.extractBitsAsZExtValue(a.getBitWidth() - 64, 64) << 64;
        return mkC(v);
    }
    if (auto *cf = dyn_cast<ConstantFP>(c)) {
        if (c->getType()->isDoubleTy()) return mkC(fromDouble(cf->getValueAPF().convertToDouble()));
        if (c->getType()->isFloatTy()) return mkC(fromFloat(cf->getValueAPF().convertToFloat()));
        return mkC(0);
    }
    if (isa<ConstantPointerNull>(c)) return mkC(0);
    if (auto *g = dyn_cast<GlobalValue>(c)) return mkC(gaddr(g));
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
        if (auto *st = dyn_cast<StructType>(c->getType())) {
            std::vector<Val> v;
            for (unsigned i = 0; i < st->getNumElements(); i++) v.push_back(constVal(isa<UndefValue>(c) ? (Constant *)UndefValue::get(st->getElementType(i)) : Constant::getNullValue(st->getElementType(i))));
            return mkAgg(v);
        }
        if (auto *at = dyn_cast<ArrayType>(c->getType())) {
            std::vector<Val> v;
            for (unsigned i = 0; i < at->getNumElements(); i++) v.push_back(constVal(Constant::getNullValue(at->getElementType())));
            return mkAgg(v);
        }
        return mkC(0);
    }
    if (auto *ca = dyn_cast<ConstantAggregate>(c)) {
        std::vector<Val> v;
        for (unsigned i = 0; i < ca->getNumOperands(); i++) v.push_back(constVal(ca->getOperand(i)));
        return mkAgg(v);
    }
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
        std::vector<Val> v;
        for (unsigned i = 0; i < cd->getNumElements(); i++) v.push_back(constVal(cd->getElementAsConstant(i)));
        return mkAgg(v);
    }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
        if (auto *gep = dyn_cast<GEPOperator>(ce)) {
            APInt off(64, 0);
            if (gep->accumulateConstantOffset(*DL, off)) {
                Val b = constVal(cast<Constant>(gep->getPointerOperand()));
                return mkC((uint64_t)((uint64_t)b.c + (uint64_t)off.getSExtValue()));
            }
        }
        switch (ce->getOpcode()) {
        case Instruction::BitCast: case Instruction::AddrSpaceCast: return constVal(ce->getOperand(0));
        case Instruction::IntToPtr: case Instruction::PtrToInt: {
            Val b = constVal(ce->getOperand(0));
            Ty t = tyOf(ce->getType());
            return mkC(maskW(b.c, t.w));
        }
        case Instruction::Trunc: { Val b = constVal(ce->getOperand(0)); return mkC(maskW(b.c, tyOf(ce->getType()).w)); }
        case Instruction::Sub: case Instruction::Add: {
            Val a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1));
            unsigned w = tyOf(ce->getType()).w;
            return mkC(maskW(ce->getOpcode() == Instruction::Sub ? a.c - b.c : a.c + b.c, w));
        }
        }
    }
    std::string s; raw_string_ostream os(s); c->print(os);
    incomplete("constant not understood: " + s);
    return Val();
}
static void storeTy(uint64_t a, const Val &v, Type *t) {
    if (auto *st = dyn_cast<StructType>(t)) {
        auto *sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++) storeTy(a + sl->getElementOffset(i), v.s->agg[i], st->getElementType(i));
        return;
    }
    if (auto *at = dyn_cast<ArrayType>(t)) {
        uint64_t es = DL->getTypeAllocSize(at->getElementType());
        for (unsigned i = 0; i < at->getNumElements(); i++) storeTy(a + i * es, v.s->agg[i], at->getElementType());
        return;
    }
    storeRaw(a, v, DL->getTypeStoreSize(t));
}
static Val loadTy(uint64_t a, Type *t) {
    if (auto *st = dyn_cast<StructType>(t)) {
        auto *sl = DL->getStructLayout(st);
        std::vector<Val> v;
        for (unsigned i = 0; i < st->getNumElements(); i++) v.push_back(loadTy(a + sl->getElementOffset(i), st->getElementType(i)));
        return mkAgg(v);
    }
    if (auto *at = dyn_cast<ArrayType>(t)) {
        uint64_t es = DL->getTypeAllocSize(at->getElementType());
        std::vector<Val> v;
        for (unsigned i = 0; i < at->getNumElements(); i++) v.push_back(loadTy(a + i * es, at->getElementType()));
        return mkAgg(v);
    }
    return loadRaw(a, tyOf(t), DL->getTypeStoreSize(t));
}
static uint64_t g_globTop = A_GLOB, g_fnTop = A_FN + 64;
Handler findHandler(const std::string &name);
static void initGlobals() {
    for (auto &f : *M) {
        std::string n = f.getName().str();
        if (f.isDeclaration() && !findHandler(n)) {
            void *p = dlsym(RTLD_DEFAULT, n.c_str());
            if (p) { g_gaddr[&f] = (uint64_t)p; g_fnAt[(uint64_t)p] = &f; continue; }
        }
        g_gaddr[&f] = g_fnTop; g_fnAt[g_fnTop] = &f;
        g_fnTop += 16;
    }
    std::vector<GlobalVariable *> defs;
    for (auto &g : M->globals()) {
        std::string n = g.getName().str();
        if (n.rfind("llvm.", 0) == 0) continue;
        if (g.isDeclaration()) {
            void *p = dlsym(RTLD_DEFAULT, n.c_str());
            if (p && n != "__libc_single_threaded") { g_gaddr[&g] = (uint64_t)p; continue; }
        }
        uint64_t sz = DL->getTypeAllocSize(g.getValueType());
        uint64_t al = std::max<uint64_t>(16, g.getAlign() ? g.getAlign()->value() : 16);
        g_globTop = (g_globTop + al - 1) & ~(al - 1);
        g_gaddr[&g] = g_globTop;
        if (sz) memset(&validAt(g_globTop), 1, sz);
        g_globTop += sz + 48;
        if (!g.isDeclaration()) defs.push_back(&g);
    }
    for (auto &a : M->aliases()) g_gaddr[&a] = gaddr(cast<GlobalValue>(a.getAliaseeObject()));
    for (auto *g : defs)
        if (g->hasInitializer() && !isa<UndefValue>(g->getInitializer())) {
            Constant *c = g->getInitializer();
            if (c->isNullValue()) continue;
            storeTy(g_gaddr[g], constVal(c), g->getValueType());
        }
}
static uint64_t gaddr(const GlobalValue *g) {
    auto it = g_gaddr.find(g);
    if (it != g_gaddr.end()) return it->second;
    if (auto *a = dyn_cast<GlobalAlias>(g)) return gaddr(cast<GlobalValue>(a->getAliaseeObject()));
    incomplete("unknown global " + g->getName().str());
    return 0;
}
static DFunc *decode(const Function *f) {
    auto it = g_funcs.find(f);
    if (it != g_funcs.end()) return it->second;
    DFunc *d = new DFunc;
    g_funcs[f] = d;
    d->f = f;
    d->name = f->getName().str();
    std::unordered_map<const Value *, int> reg;
    for (auto &a : f->args()) {
        reg[&a] = d->nregs++;
        d->byval.push_back(a.hasByValAttr() ? DL->getTypeAllocSize(a.getParamByValType()) : 0);
    }
    std::unordered_map<const BasicBlock *, int> bb;
    int nb = 0;
    for (auto &b : *f) {
        bb[&b] = nb++;
        for (auto &i : b) if (!i.getType()->isVoidTy()) reg[&i] = d->nregs++;
    }
    std::unordered_map<const Constant *, int> cidx;
    auto operand = [&](const Value *v) -> int {
        auto r = reg.find(v);
        if (r != reg.end()) return r->second;
        if (auto *c = dyn_cast<Constant>(v)) {
            auto ci = cidx.find(c);
            if (ci != cidx.end()) return ci->second;
            d->consts.push_back(constVal(c));
            int k = -(int)d->consts.size();
            cidx[c] = k;
            return k;
        }
        d->consts.push_back(mkC(0));
        return -(int)d->consts.size(); // metadata and the like
    };
    for (auto &b : *f) {
        d->blocks.emplace_back();
        DBlock &B = d->blocks.back();
        for (auto &i : b) {
            if (auto *phi = dyn_cast<PHINode>(&i)) {
                std::map<int, int> m;
                for (unsigned k = 0; k < phi->getNumIncomingValues(); k++) m[bb[phi->getIncomingBlock(k)]] = operand(phi->getIncomingValue(k));
                B.phis.push_back({reg[&i], m});
                continue;
            }
            DInst x;
            x.op = i.getOpcode();
            x.in = &i;
            x.ty = tyOf(i.getType());
            if (!i.getType()->isVoidTy()) x.dst = reg[&i];
            if (auto *o = dyn_cast<OverflowingBinaryOperator>(&i)) { x.nsw = o->hasNoSignedWrap(); x.nuw = o->hasNoUnsignedWrap(); }
            if (auto *o = dyn_cast<PossiblyExactOperator>(&i)) x.exact = o->isExact();
            if (auto *c = dyn_cast<CmpInst>(&i)) x.pred = c->getPredicate();
            if (auto *l = dyn_cast<LoadInst>(&i)) x.atomic = l->isAtomic();
            if (auto *l = dyn_cast<StoreInst>(&i)) x.atomic = l->isAtomic();
            if (auto *br = dyn_cast<BranchInst>(&i)) {
                if (br->isConditional()) { x.ops.push_back(operand(br->getCondition())); x.t0 = bb[br->getSuccessor(0)]; x.t1 = bb[br->getSuccessor(1)]; }
                else x.t0 = bb[br->getSuccessor(0)];
            } else if (auto *sw = dyn_cast<SwitchInst>(&i)) {
                x.ops.push_back(operand(sw->getCondition()));
                x.oty = tyOf(sw->getCondition()->getType());
                x.t0 = bb[sw->getDefaultDest()];
                for (auto &c : sw->cases()) { x.ops.push_back(operand(c.getCaseValue())); x.imm.push_back(bb[c.getCaseSuccessor()]); }
            } else if (auto *cb = dyn_cast<CallBase>(&i)) {
                x.callee = cb->getCalledFunction();
                if (!x.callee) if (auto *al = dyn_cast<GlobalAlias>(cb->getCalledOperand()->stripPointerCasts())) x.callee = dyn_cast<Function>(al->getAliaseeObject());
                for (unsigned k = 0; k < cb->arg_size(); k++) {
                    Value *a = cb->getArgOperand(k);
                    x.ops.push_back(a->getType()->isMetadataTy() ? operand(ConstantInt::get(Type::getInt32Ty(f->getContext()), 0)) : operand(a));
                }
                if (!x.callee) x.ops.push_back(operand(cb->getCalledOperand()));
                if (auto *inv = dyn_cast<InvokeInst>(&i)) { x.t0 = bb[inv->getNormalDest()]; x.t1 = bb[inv->getUnwindDest()]; }
                if (x.callee) { // stand-ins the harness provides, as with the linker's --wrap
                    StringRef nm = cb->getCalledOperand()->stripPointerCasts()->getName();
                    if (nm.starts_with("__real_")) {
                        if (Function *r = M->getFunction(nm.substr(7))) x.callee = r;
                        else if (auto *al = M->getNamedAlias(nm.substr(7))) if (auto *r = dyn_cast<Function>(al->getAliaseeObject())) x.callee = r;
                    } else if (Function *w = M->getFunction(("__wrap_" + nm).str())) if (!w->isDeclaration()) x.callee = w;
                }
                if (x.callee) {
                    x.h = findHandler(x.callee->getName().str());
                    if (!x.h && !x.callee->isDeclaration()) {}
                }
            } else if (auto *g = dyn_cast<GetElementPtrInst>(&i)) {
                x.ops.push_back(operand(g->getPointerOperand()));
                int64_t off = 0;
                for (auto gt = gep_type_begin(g), e = gep_type_end(g); gt != e; ++gt) {
                    Value *idx = gt.getOperand();
                    if (StructType *st = gt.getStructTypeOrNull()) off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
                    else {
                        int64_t sz = DL->getTypeAllocSize(gt.getIndexedType());
                        if (auto *ci = dyn_cast<ConstantInt>(idx)) off += sz * ci->getSExtValue();
                        else { x.ops.push_back(operand(idx)); x.imm.push_back(sz); x.imm.push_back(idx->getType()->getIntegerBitWidth()); }
                    }
                }
                x.imm.push_back(off);
            } else {
                for (auto &o : i.operands()) x.ops.push_back(operand(o));
                if (auto *e = dyn_cast<ExtractValueInst>(&i)) for (auto k : e->indices()) x.imm.push_back(k);
                if (auto *e = dyn_cast<InsertValueInst>(&i)) for (auto k : e->indices()) x.imm.push_back(k);
                if (auto *al = dyn_cast<AllocaInst>(&i)) { x.imm.push_back(DL->getTypeAllocSize(al->getAllocatedType())); x.imm.push_back(al->getAlign().value()); }
            }
            if (i.getNumOperands() && !isa<CallBase>(i)) x.oty = tyOf(i.getOperand(0)->getType());
            B.ins.push_back(std::move(x));
        }
    }
    auto fi = g_fnIndex.find(d->name);
    if (fi != g_fnIndex.end()) g_sh->fn[fi->second] = 1;
    return d;
}

// ---- execution
static inline Val get(Frame &f, int op) { return op >= 0 ? f.regs[op] : f.fn->consts[-1 - op]; }
static void pushFrame(Thread &t, const Function *f, const std::vector<Val> &args, std::function<void(Val)> onRet = nullptr) {
    DFunc *d = decode(f);
    if (t.st.size() > 2000) {
        if (S.haveModel) violation("stack overflow (recursion deeper than 2000)", &S.model);
        finish("ended");
    }
    t.st.emplace_back();
    Frame &fr = t.st.back();
    fr.fn = d;
    fr.regs.resize(d->nregs);
    fr.stackBase = t.sp;
    fr.onReturn = onRet;
    for (size_t i = 0; i < d->byval.size() && i < args.size(); i++) {
        fr.regs[i] = args[i];
        if (d->byval[i]) {
            uint64_t a = (t.sp + 15) & ~15ull;
            memset(&validAt(a), 1, d->byval[i]);
            t.sp = a + d->byval[i] + 16;
            copyMem(a, (uint64_t)args[i].c, d->byval[i]);
            fr.regs[i] = mkC(a);
        }
    }
}
static void clearStack(uint64_t lo, uint64_t hi) {
    if (hi <= lo) return;
    if (!g_cells.empty()) for (uint64_t a = lo; a < hi; a++) if (validAt(a) == 3) g_cells.erase(a);
    memset(&validAt(lo), 0, hi - lo);
}
static void popFrame(Thread &t) {
    Frame &f = t.st.back();
    clearStack(f.stackBase, t.sp);
    t.sp = f.stackBase;
    t.st.pop_back();
}
static void jump(Frame &f, int to) {
    DBlock &b = f.fn->blocks[to];
    if (!b.phis.empty()) {
        static thread_local std::vector<Val> tmp;
        tmp.clear();
        for (auto &p : b.phis) tmp.push_back(get(f, p.second.at(f.block)));
        for (size_t i = 0; i < tmp.size(); i++) f.regs[b.phis[i].first] = tmp[i];
    }
    f.block = to;
    f.pc = 0;
}
static void completeCall(Thread &t, const Val &r) { // the top frame's current instruction is a finished call
    Frame &f = t.st.back();
    DInst &in = f.fn->blocks[f.block].ins[f.pc];
    if (in.dst >= 0) {
        f.regs[in.dst] = r;
        if (!r.s && in.ty.k == T_INT) f.regs[in.dst].c = maskW(r.c, in.ty.w);
    }
    if (in.op == Instruction::Invoke) jump(f, in.t0);
    else f.pc++;
}
static void needModel(const char *why) {
    if (S.haveModel) return;
    Model m; SatR r = S.check(bTrue, &m);
    if (r == S_UNSAT) finish("infeasible");
    if (r != S_SAT) incomplete(std::string("possible ") + why);
    S.model = m; S.haveModel = true;
}
static void failHere(const std::string &what) { needModel(what.c_str()); violation(what, &S.model); finish("ended"); }
// a condition the code needs for defined behaviour
static void requireUB(B ok, const char *what) {
    ok = S.reduce(ok);
    if (ok == bTrue) return;
    if (ok == bFalse) failHere(what);
    Model m;
    if (S.haveModel && !S.evalModel(ok)) m = S.model;
    else {
        SatR r = S.check(bNot(ok), &m, -1, true);
        if (r == S_UNSAT) { return; }
        if (r == S_UNK) { g_sh->unks++; logLine("{\"k\":\"unk\",\"what\":" + jstr(what) + ",\"at\":" + jstr(traceBack()) + "}"); assumeB(ok); return; }
    }
    violation(what, &m);
    assumeB(ok);
}
static int typeIndex(uint64_t ti) {
    static std::map<uint64_t, int> m;
    auto it = m.find(ti);
    if (it == m.end()) it = m.insert({ti, (int)m.size() + 1}).first;
    return it->second;
}
static std::map<uint64_t, uint64_t> g_adj;
static void raise(Thread &t, Exn *e) {
    g_exns[e->obj] = e;
    while (!t.st.empty()) {
        Frame &f = t.st.back();
        DInst &in = f.fn->blocks[f.block].ins[f.pc];
        if (in.op == Instruction::Invoke) {
            DBlock &lb = f.fn->blocks[in.t1];
            DInst *lp = nullptr;
            for (auto &x : lb.ins) if (x.op == Instruction::LandingPad) { lp = &x; break; }
            auto *li = cast<LandingPadInst>(lp->in);
            int sel = 0; bool enter = li->isCleanup();
            for (unsigned k = 0; k < li->getNumClauses(); k++) {
                if (!li->isCatch(k)) continue;
                uint64_t ti = (uint64_t)constVal(li->getClause(k)).c;
                bool match = ti == 0;
                void *adj = (void *)e->obj;
                if (!match && e->ti) {
                    auto *ct = (const std::type_info *)ti;
                    match = ct->__do_catch(e->ti, &adj, 1);
                }
                if (match) { sel = typeIndex(ti); enter = true; g_adj[e->obj] = (uint64_t)adj; break; }
            }
            if (enter) {
                jump(f, in.t1);
                for (auto &x : f.fn->blocks[f.block].ins) {
                    if (x.op != Instruction::LandingPad) { f.pc++; continue; }
                    break;
                }
                f.regs[lp->dst] = mkAgg({mkC(e->obj), mkC((uint32_t)sel)});
                f.pc++;
                return;
            }
        }
        if (f.onReturn) failHere("an exception leaves a thread: " + std::string(e->ti ? demangle(e->ti->name()) : "?"));
        popFrame(t);
    }
    failHere("uncaught exception " + std::string(e->ti ? demangle(e->ti->name()) : "?"));
}

// ---- races
struct RaceRec { int wt = -1; uint32_t wc = 0; std::string wf; std::vector<std::pair<int, uint32_t>> rd; };
static std::unordered_map<uint64_t, RaceRec> g_race;
static void raceAccess(Thread &t, uint64_t a, uint64_t n, bool write) {
    if (!inArena(a)) return;
    for (uint64_t i = 0; i < n; i++) {
        RaceRec &r = g_race[a + i];
        auto hb = [&](int tid, uint32_t c) { return tid == t.id || (tid < (int)t.vc.size() && t.vc[tid] >= c); };
        bool bad = r.wt >= 0 && !hb(r.wt, r.wc);
        if (write) for (auto &x : r.rd) if (!hb(x.first, x.second)) bad = true;
        if (bad) failHere("data race between two threads in " + demangle(t.st.back().fn->name) + (r.wf.empty() ? "" : " and " + r.wf));
        if (write) { r.wt = t.id; r.wc = t.vc[t.id]; r.wf = demangle(t.st.back().fn->name); r.rd.clear(); }
        else {
            bool f = false;
            for (auto &x : r.rd) if (x.first == t.id) { x.second = t.vc[t.id]; f = true; }
            if (!f) r.rd.push_back({t.id, t.vc[t.id]});
        }
    }
}
static inline void raceCheck(Thread &t, uint64_t a, uint64_t n, bool write) { if (g_live > 1) raceAccess(t, a, n, write); }
static void joinVc(std::vector<uint32_t> &a, const std::vector<uint32_t> &b) {
    if (a.size() < b.size()) a.resize(b.size());
    for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]);
}

// ---- scheduling
static int g_choices = 0, g_preempt = 0;
static int64_t cfg(const char *n, int64_t d) { auto it = g_cfg.find(n); return it == g_cfg.end() ? d : it->second; }
static int chooseOf(int n, const char *what) {
    if (n <= 1) return 0;
    std::string nm = std::string(what) + std::to_string(g_choices++);
    uint32_t a = mkVar(nm, 0, n - 1, true);
    g_inputs.push_back({nm, a, nullptr, 0, 0});
    return (int)concretize(pAtom(a)).get_si();
}
static bool runnable(Thread &t) { return !t.done && (!t.blocked || t.blocked()); }
// pick another thread to run; cur stays when it is the only choice
static void reschedule(bool mustLeave) {
    std::vector<int> can;
    for (auto *t : T) if (runnable(*t) && !(mustLeave && t->id == cur)) can.push_back(t->id);
    if (can.empty()) {
        bool all = true;
        std::string who;
        for (auto *t : T) if (!t->done) { all = false; who += " thread " + std::to_string(t->id) + " waits for " + t->blockedOn + ";"; }
        if (all) finish("path");
        failHere("deadlock:" + who);
    }
    int k = chooseOf((int)can.size(), "sched");
    cur = can[k];
    T[cur]->blocked = nullptr;
    g_cur = T[cur];
}
// scheduling point before a synchronisation operation; true: another thread runs first
static bool schedPoint(Thread &t) {
    if (t.yieldDone) { t.yieldDone = false; return false; }
    if (g_live <= 1) return false;
    if (g_preempt >= cfg("preemptions", 1000)) return false;
    std::vector<int> can;
    can.push_back(t.id);
    for (auto *x : T) if (x->id != t.id && runnable(*x)) can.push_back(x->id);
    int k = chooseOf((int)can.size(), "sched");
    if (k == 0) return false;
    g_preempt++;
    t.yieldDone = true;
    cur = can[k];
    T[cur]->blocked = nullptr;
    g_cur = T[cur];
    return true;
}
static Thread *newThread() {
    Thread *t = new Thread;
    t->id = (int)T.size();
    t->stackLo = A_STACK + t->id * STACK_SZ;
    t->sp = t->stackLo + 64;
    T.push_back(t);
    for (auto *x : T) x->vc.resize(T.size());
    t->vc.resize(T.size());
    t->vc[t->id] = 1;
    return t;
}

// ---- native calls
static ffi_type *ffiOf(Type *t) {
    if (t->isVoidTy()) return &ffi_type_void;
    if (t->isIntegerTy()) { unsigned w = t->getIntegerBitWidth(); return w <= 8 ? &ffi_type_uint8 : w <= 16 ? &ffi_type_uint16 : w <= 32 ? &ffi_type_uint32 : w <= 64 ? &ffi_type_uint64 : nullptr; }
    if (t->isPointerTy()) return &ffi_type_pointer;
    if (t->isDoubleTy()) return &ffi_type_double;
    if (t->isFloatTy()) return &ffi_type_float;
    if (auto *s = dyn_cast<StructType>(t)) {
        ffi_type *f = new ffi_type; f->size = 0; f->alignment = 0; f->type = FFI_TYPE_STRUCT;
        f->elements = new ffi_type *[s->getNumElements() + 1];
        for (unsigned i = 0; i < s->getNumElements(); i++) if (!(f->elements[i] = ffiOf(s->getElementType(i)))) return nullptr;
        f->elements[s->getNumElements()] = nullptr;
        return f;
    }
    return nullptr;
}
static bool trustedNative(const std::string &n) {
    static const char *pre[] = {"_ZSt18_Rb_tree_", "_ZSt28_Rb_tree_", "_ZSt29_Rb_tree_", "_ZSt20__throw", "_ZSt1", "_ZSt2", "_ZNSt8__detail", "_ZNKSt8__detail", "_ZSt4cout", nullptr};
    for (int i = 0; pre[i]; i++) if (n.rfind(pre[i], 0) == 0) return true;
    return false;
}
static void callNative(Thread &t, DInst &in, FunctionType *ft, uint64_t addr, std::vector<Val> &args, const std::string &name) {
    auto *cb = cast<CallBase>(in.in);
    size_t n = args.size();
    std::vector<ffi_type *> ty(n);
    std::vector<u128> store(n);
    std::vector<void *> pv(n);
    std::vector<std::vector<char>> blobs;
    bool trusted = trustedNative(name);
    for (size_t i = 0; i < n; i++) {
        Type *at = cb->getArgOperand(i)->getType();
        ty[i] = ffiOf(at);
        if (!ty[i]) incomplete("native call " + name + " with an unsupported argument");
        Ty k = tyOf(at);
        if (args[i].s) {
            if (k.k == T_DBL) store[i] = fromDouble(concreteDouble(args[i]));
            else store[i] = concreteVal(args[i], k.w);
        } else store[i] = args[i].c;
        if (k.k == T_INT && cb->paramHasAttr(i, Attribute::SExt)) store[i] = (u128)sextW(store[i], k.w);
        pv[i] = &store[i];
        if (k.k == T_PTR) {
            uint64_t a = (uint64_t)store[i];
            if (inArena(a) && !trusted) {
                // everything reachable directly must be concrete
                uint64_t lo = a, hi = a;
                while (hi - a < 8192 && validAt(hi) != 0) hi++;
                while (a - lo < 8192 && validAt(lo - 1) != 0) lo--;
                if (anySymbolic(lo, hi - lo)) concreteMem(lo, hi - lo);
            }
            if (cb->paramHasAttr(i, Attribute::ByVal)) {
                uint64_t sz = DL->getTypeAllocSize(cb->getParamByValType(i));
                ffi_type *f = new ffi_type; f->size = 0; f->alignment = 0; f->type = FFI_TYPE_STRUCT;
                uint64_t w = (sz + 7) / 8;
                f->elements = new ffi_type *[w + 1];
                for (uint64_t k2 = 0; k2 < w; k2++) f->elements[k2] = &ffi_type_uint64;
                f->elements[w] = nullptr;
                ty[i] = f;
                blobs.emplace_back(w * 8);
                memcpy(blobs.back().data(), (void *)a, sz);
                pv[i] = blobs.back().data();
            }
        }
    }
    ffi_cif cif;
    ffi_type *rt = ffiOf(ft->getReturnType());
    if (!rt) incomplete("native call " + name + " with an unsupported result");
    ffi_status st = ft->isVarArg() ? ffi_prep_cif_var(&cif, FFI_DEFAULT_ABI, ft->getNumParams(), n, rt, ty.data()) : ffi_prep_cif(&cif, FFI_DEFAULT_ABI, n, rt, ty.data());
    if (st != FFI_OK) incomplete("ffi " + name);
    alignas(16) char ret[64];
    memset(ret, 0, sizeof ret);
    Exn *ex = nullptr;
    g_inNative = true;
    try {
        ffi_call(&cif, (void (*)())addr, ret, pv.data());
    } catch (...) {
        g_inNative = false;
        ex = new Exn;
        ex->ep = std::current_exception();
        ex->ti = abi::__cxa_current_exception_type();
        ex->obj = (uint64_t) * (void **)&ex->ep;
    }
    g_inNative = false;
    if (ex) { raise(t, ex); return; }
    Type *r = ft->getReturnType();
    Val v;
    if (auto *s = dyn_cast<StructType>(r)) {
        auto *sl = DL->getStructLayout(s);
        std::vector<Val> a;
        for (unsigned i = 0; i < s->getNumElements(); i++) { u128 c = 0; memcpy(&c, ret + sl->getElementOffset(i), DL->getTypeStoreSize(s->getElementType(i))); a.push_back(mkC(c)); }
        v = mkAgg(a);
    } else if (!r->isVoidTy()) {
        u128 c = 0; memcpy(&c, ret, DL->getTypeStoreSize(r));
        Ty k = tyOf(r);
        v = mkC(k.k == T_INT ? maskW(c, k.w) : c);
    }
    completeCall(t, v);
}


static void syncOrder(Thread &t, uint64_t a, AtomicOrdering o, bool load, bool store);
static void intrinsic(Thread &t, DInst &in, const Function *f, std::vector<Val> &args);

// ---- integer operations
static Val wrapTo(P p, unsigned w) { // value modulo 2^w
    Z h = z_pow2(w - 1);
    if (p->lo >= -h && p->hi < z_pow2(w)) return mkP(p, w);
    P m = pMod(p, w);
    if (m != p && m->lo >= -h && m->hi < z_pow2(w)) return mkP(m, w);
    if (inRange(p, -h, z_pow2(w) - 1)) return mkP(p, w);
    if (m != p && inRange(m, -h, z_pow2(w) - 1)) return mkP(m, w);
    return mkP(pEx(m, 0, w), w);
}
static Val binInt(DInst &in, const Val &a, const Val &b) {
    unsigned w = in.ty.w;
    if (in.ty.k != T_INT) incomplete("vector operation");
    if (!a.s && !b.s) {
        u128 x = a.c, y = b.c, r = 0;
        i128 sx = sextW(x, w), sy = sextW(y, w);
        switch (in.op) {
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: {
            r = in.op == Instruction::Add ? x + y : in.op == Instruction::Sub ? x - y : x * y;
            if (in.nsw) {
                Z zx = z_from_i128(sx), zy = z_from_i128(sy), zr = in.op == Instruction::Add ? Z(zx + zy) : in.op == Instruction::Sub ? Z(zx - zy) : Z(zx * zy);
                if (zr < -z_pow2(w - 1) || zr >= z_pow2(w - 1)) failHere("signed integer overflow");
            }
            break;
        }
        case Instruction::UDiv: case Instruction::URem: if (!y) failHere("division by zero"); r = in.op == Instruction::UDiv ? x / y : x % y; break;
        case Instruction::SDiv: case Instruction::SRem:
            if (!sy) failHere("division by zero");
            r = (u128)(in.op == Instruction::SDiv ? sx / sy : sx % sy); break;
        case Instruction::And: r = x & y; break;
        case Instruction::Or: r = x | y; break;
        case Instruction::Xor: r = x ^ y; break;
        case Instruction::Shl: r = y < w ? x << (unsigned)y : 0; break;
        case Instruction::LShr: r = y < w ? x >> (unsigned)y : 0; break;
        case Instruction::AShr: r = y < w ? (u128)(sx >> (unsigned)y) : (u128)(sx < 0 ? -1 : 0); break;
        default: incomplete("integer op");
        }
        return mkC(maskW(r, w));
    }
    if (w == 1) {
        B x = toB(a), y = toB(b);
        switch (in.op) {
        case Instruction::And: return mkB(bAnd(x, y));
        case Instruction::Or: return mkB(bOr(x, y));
        case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return mkB(bXor(x, y));
        case Instruction::Mul: return mkB(bAnd(x, y));
        default: incomplete("i1 operation");
        }
    }
    Z full = z_pow2(w);
    switch (in.op) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: {
        auto f = [&](P x, P y) { return in.op == Instruction::Add ? pAdd(x, y) : in.op == Instruction::Sub ? pSub(x, y) : pMul(x, y); };
        if (in.nsw) {
            P r = f(toS(a, w), toS(b, w));
            Z h = z_pow2(w - 1);
            if (!(r->lo >= -h && r->hi < h) && !inRange(r, -h, h - 1)) requireUB(bAnd(bLe(pConst(-h), r), bLe(r, pConst(h - 1))), "signed integer overflow");
            return mkP(r, w);
        }
        P r = f(toP(a, w), toP(b, w));
        Z h = z_pow2(w - 1);
        if (r->lo >= -h && r->hi < full) return mkP(r, w);
        P r2 = f(toS(a, w), toS(b, w));
        if (r2->lo >= -h && r2->hi < full) return mkP(r2, w);
        if (inRange(r, -h, full - 1)) return mkP(r, w);
        return mkP(pEx(r, 0, w), w);
    }
    case Instruction::UDiv: case Instruction::URem: {
        P x = toU(a, w), y = toU(b, w);
        if (!y->isConst()) {
            requireUB(bNot(bEq(y)), "division by zero");
            Z lo = 0;
            UfOp o = in.op == Instruction::UDiv ? UF_UDIV : UF_UREM;
            return mkP(pUf(o, w, x, y, 0, x->hi), w);
        }
        if (y->cst() == 0) failHere("division by zero");
        P q = pFdiv(x, y->cst());
        return in.op == Instruction::UDiv ? mkP(q, w) : mkP(pSub(x, pScale(q, y->cst())), w);
    }
    case Instruction::SDiv: case Instruction::SRem: {
        P x = toS(a, w), y = toS(b, w);
        if (!y->isConst()) {
            requireUB(bNot(bEq(y)), "division by zero");
            UfOp o = in.op == Instruction::SDiv ? UF_SDIV : UF_SREM;
            Z m = abs(x->lo) > abs(x->hi) ? Z(abs(x->lo)) : Z(abs(x->hi));
            return mkP(pUf(o, w, x, y, -m, m), w);
        }
        Z d = y->cst();
        if (d == 0) failHere("division by zero");
        P q;
        Z ad = abs(d);
        if (x->lo >= 0) q = pFdiv(x, ad);
        else if (x->hi <= 0) q = pNeg(pFdiv(pNeg(x), ad));
        else if (in.exact) q = pFdiv(x, ad);
        else q = pIte(bLe(pConst(0), x), pFdiv(x, ad), pNeg(pFdiv(pNeg(x), ad)));
        if (d < 0) q = pNeg(q);
        return in.op == Instruction::SDiv ? mkP(q, w) : mkP(pSub(x, pScale(q, d)), w);
    }
    case Instruction::And: case Instruction::Or: case Instruction::Xor: {
        const Val *x = &a, *y = &b;
        if (!x->s) std::swap(x, y);
        if (a.s && b.s && a.s == b.s) return in.op == Instruction::Xor ? mkC(0) : a;
        if (!y->s) {
            u128 m = maskW(y->c, w);
            u128 all = maskW(~(u128)0, w);
            if (in.op == Instruction::And) {
                if (m == 0) return mkC(0);
                if (m == all) return *x;
                P p = toP(*x, w), r = pConst(0);
                for (unsigned i = 0; i < w;) {
                    if (!((m >> i) & 1)) { i++; continue; }
                    unsigned j = i;
                    while (j < w && ((m >> j) & 1)) j++;
                    r = pAdd(r, pScale(pEx(p, i, j - i), z_pow2(i)));
                    i = j;
                }
                return mkP(r, w);
            }
            if (m == 0) return *x;
            if (in.op == Instruction::Xor && m == all) return mkP(pAddC(pNeg(toS(*x, w)), -1), w);
            if (in.op == Instruction::Or && m == all) return mkC(all);
            // bits set by the mask replaced / flipped, run by run
            P p = toU(*x, w), r = pConst(0);
            for (unsigned i = 0; i < w;) {
                bool bit = (m >> i) & 1;
                unsigned j = i;
                while (j < w && (bool)((m >> j) & 1) == bit) j++;
                P e = bit && in.op == Instruction::Or ? pConst(z_pow2(j - i) - 1) : pEx(p, i, j - i);
                if (bit && in.op == Instruction::Xor) e = pSub(pConst(z_pow2(j - i) - 1), e);
                r = pAdd(r, pScale(e, z_pow2(i)));
                i = j;
            }
            return mkP(r, w);
        }
        P p = toU(*x, w), q = toU(*y, w);
        // disjoint bit ranges add
        auto low = [](P z) { Z g = pContent(z); Z c = z->cst(); Z h = g; if (c != 0) mpz_gcd(h.get_mpz_t(), g.get_mpz_t(), c.get_mpz_t()); return h == 0 ? 0ul : mpz_scan1(h.get_mpz_t(), 0); };
        auto disjoint = [&](P hi, P &lo) {
            unsigned long k = low(hi);
            if (k == 0 || k > 64) return false;
            if (lo->lo >= 0 && lo->hi < z_pow2(k)) return true;
            if (!inRange(lo, 0, z_pow2(k) - 1)) return false;
            lo = pEx(lo, 0, k); // same value here, with the range visible in the term
            return true;
        };
        if (disjoint(p, q) || disjoint(q, p)) return in.op == Instruction::And ? mkC(0) : mkP(pAdd(p, q), w);
        UfOp o = in.op == Instruction::And ? UF_AND : in.op == Instruction::Or ? UF_OR : UF_XOR;
        // small booleans: exact
        if (p->hi <= 1 && q->hi <= 1) {
            B x1 = bEq(p, pConst(1)), y1 = bEq(q, pConst(1));
            B r = in.op == Instruction::And ? bAnd(x1, y1) : in.op == Instruction::Or ? bOr(x1, y1) : bXor(x1, y1);
            return mkP(pIte(r, pConst(1), pConst(0)), w);
        }
        if (p->hi <= 15 && q->hi <= 15) { // bit by bit
            P r = pConst(0);
            for (unsigned i = 0; i < 4; i++) {
                B x1 = bEq(pEx(p, i, 1), pConst(1)), y1 = bEq(pEx(q, i, 1), pConst(1));
                B z = in.op == Instruction::And ? bAnd(x1, y1) : in.op == Instruction::Or ? bOr(x1, y1) : bXor(x1, y1);
                r = pAdd(r, pIte(z, pConst(Z(1u << i)), pConst(0)));
            }
            return mkP(r, w);
        }
        if (p->id > q->id) std::swap(p, q);
        return mkP(pUf(o, w, p, q, 0, full - 1), w);
    }
    case Instruction::Shl: {
        unsigned k = (unsigned)concreteVal(b, w);
        if (k >= w) failHere("shift out of range");
        Z m = z_pow2(k);
        if (in.nsw) {
            P r = pScale(toS(a, w), m);
            Z h = z_pow2(w - 1);
            if (!inRange(r, -h, h - 1)) requireUB(bAnd(bLe(pConst(-h), r), bLe(r, pConst(h - 1))), "signed shift overflow");
            return mkP(r, w);
        }
        return wrapTo(pScale(toP(a, w), m), w);
    }
    case Instruction::LShr: {
        unsigned k = (unsigned)concreteVal(b, w);
        if (k >= w) failHere("shift out of range");
        return mkP(pFdiv(toU(a, w), z_pow2(k)), w);
    }
    case Instruction::AShr: {
        unsigned k = (unsigned)concreteVal(b, w);
        if (k >= w) failHere("shift out of range");
        return mkP(pFdiv(toS(a, w), z_pow2(k)), w);
    }
    }
    incomplete("integer op");
    return Val();
}
static Val icmp(DInst &in, const Val &a, const Val &b) {
    unsigned w = in.oty.k == T_PTR ? 64 : in.oty.w;
    auto p = (CmpInst::Predicate)in.pred;
    if (!a.s && !b.s) {
        u128 x = maskW(a.c, w), y = maskW(b.c, w);
        i128 sx = sextW(x, w), sy = sextW(y, w);
        bool r = false;
        switch (p) {
        case CmpInst::ICMP_EQ: r = x == y; break;
        case CmpInst::ICMP_NE: r = x != y; break;
        case CmpInst::ICMP_UGT: r = x > y; break;
        case CmpInst::ICMP_UGE: r = x >= y; break;
        case CmpInst::ICMP_ULT: r = x < y; break;
        case CmpInst::ICMP_ULE: r = x <= y; break;
        case CmpInst::ICMP_SGT: r = sx > sy; break;
        case CmpInst::ICMP_SGE: r = sx >= sy; break;
        case CmpInst::ICMP_SLT: r = sx < sy; break;
        case CmpInst::ICMP_SLE: r = sx <= sy; break;
        default: incomplete("icmp");
        }
        return mkC(r);
    }
    if (w == 1) {
        B x = toB(a), y = toB(b);
        if (p == CmpInst::ICMP_EQ) return mkB(bNot(bXor(x, y)));
        if (p == CmpInst::ICMP_NE) return mkB(bXor(x, y));
        if (p == CmpInst::ICMP_ULT || p == CmpInst::ICMP_SGT) return mkB(bAnd(bNot(x), y));
        if (p == CmpInst::ICMP_UGT || p == CmpInst::ICMP_SLT) return mkB(bAnd(x, bNot(y)));
        incomplete("i1 comparison");
    }
    if (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE) {
        P x = toP(a, w), y = toP(b, w);
        Z h = z_pow2(w - 1), M2 = z_pow2(w);
        P xs, ys;
        P d0 = pSub(x, y), d1 = pMod(d0, w);
        if (d1 != d0) {
            Z q = d1->lo + d1->hi + M2, k;
            Z MM = M2 * 2;
            mpz_fdiv_q(k.get_mpz_t(), q.get_mpz_t(), MM.get_mpz_t());
            if (k != 0) d1 = pAddC(d1, Z(-k * M2));
            if (d1->lo > -M2 && d1->hi < M2) { B r = bEq(d1); return mkB(p == CmpInst::ICMP_EQ ? r : bNot(r)); }
        }
        if (x->hi < h && y->hi < h) { xs = x; ys = y; }
        else if (x->lo >= 0 && y->lo >= 0) { xs = x; ys = y; }
        else { xs = toS(a, w); ys = toS(b, w); }
        B r = bEq(xs, ys);
        return mkB(p == CmpInst::ICMP_EQ ? r : bNot(r));
    }
    bool sg = CmpInst::isSigned(p);
    P x = sg ? toS(a, w) : toU(a, w), y = sg ? toS(b, w) : toU(b, w);
    switch (p) {
    case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: return mkB(bLt(y, x));
    case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: return mkB(bLe(y, x));
    case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: return mkB(bLt(x, y));
    case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: return mkB(bLe(x, y));
    default: incomplete("icmp");
    }
    return Val();
}
static std::function<bool(B)> proveFn = [](B b) { return S.prove(b); };
static F toFltF(const Val &v, bool flt) { return flt && !v.s ? fConst((double)asFloat(v.c)) : toF(v); }
// a symbolic value of type float is the double of the same value
static Val binFp(DInst &in, const Val &a, const Val &b) {
    if (!a.s && !b.s) {
        if (in.ty.k == T_FLT) {
            float x = asFloat(a.c), y = asFloat(b.c), r = 0;
            switch (in.op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = fmodf(x, y); }
            return mkC(fromFloat(r));
        }
        double x = asDouble(a.c), y = asDouble(b.c), r = 0;
        switch (in.op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = fmod(x, y); }
        return mkC(fromDouble(r));
    }
    bool flt = in.ty.k == T_FLT;
    FpOp o = F_ADD;
    switch (in.op) { case Instruction::FAdd: o = F_ADD; break; case Instruction::FSub: o = F_SUB; break; case Instruction::FMul: o = F_MUL; break; case Instruction::FDiv: o = F_DIV; break; default: incomplete("symbolic frem"); }
    F r = fBin(o, toFltF(a, flt), toFltF(b, flt), proveFn);
    return mkF(flt ? fUn(F_TRUNC32, r) : r); // rounding to double first is innocuous
}
static Val fcmp(DInst &in, const Val &a, const Val &b) {
    if (!a.s && !b.s) {
        double x = in.oty.k == T_FLT ? asFloat(a.c) : asDouble(a.c), y = in.oty.k == T_FLT ? asFloat(b.c) : asDouble(b.c);
        bool un = std::isnan(x) || std::isnan(y), r = false;
        unsigned p = in.pred;
        bool eq = x == y, gt = x > y, lt = x < y;
        r = (un && (p & 8)) || (!un && ((eq && (p & 1)) || (gt && (p & 2)) || (lt && (p & 4))));
        return mkC(r);
    }
    unsigned p = in.pred;
    bool flt = in.oty.k == T_FLT;
    auto nan = [flt](const Val &v) { return !v.s && std::isnan(flt ? (double)asFloat(v.c) : asDouble(v.c)); };
    if (nan(a) || nan(b)) return mkC((p & 8) != 0);
    if ((p & 7) == 7) return mkC(1); // ord: symbolic values are never NaN
    if ((p & 7) == 0) return mkC(0);
    return mkB(fCmp(p & 7, toFltF(a, flt), toFltF(b, flt)));
}
static Val castOp(DInst &in, const Val &a) {
    unsigned w = in.ty.w, ow = in.oty.w;
    switch (in.op) {
    case Instruction::Trunc:
        if (!a.s) return mkC(maskW(a.c, w));
        if (w == 1) { P e = pEx(toP(a, ow), 0, 1); return mkB(bEq(e, pConst(1))); }
        return wrapTo(toP(a, ow), w);
    case Instruction::ZExt:
        if (!a.s) return mkC(maskW(a.c, ow));
        return mkP(toU(a, ow), w);
    case Instruction::SExt:
        if (!a.s) return mkC(maskW((u128)sextW(a.c, ow), w));
        return mkP(toS(a, ow), w);
    case Instruction::PtrToInt: case Instruction::IntToPtr:
        if (!a.s) return mkC(maskW(a.c, std::min<unsigned>(w, 64)));
        if (ow == w) return a;
        if (w < ow) return wrapTo(toP(a, ow), w);
        return mkP(toU(a, ow), w);
    case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Freeze:
        if (in.op == Instruction::BitCast && a.s && (a.s->k == K_FP) != (in.ty.k == T_DBL || in.ty.k == T_FLT)) {
            if (a.s->k == K_FP) return mkC(concreteVal(a, ow));
            return mkC(concreteVal(a, ow));
        }
        return a;
    case Instruction::SIToFP: case Instruction::UIToFP: {
        bool sg = in.op == Instruction::SIToFP;
        if (!a.s) {
            if (in.ty.k == T_FLT) return mkC(fromFloat(sg ? (float)sextW(a.c, ow) : (float)(unsigned __int128)maskW(a.c, ow)));
            return mkC(fromDouble(sg ? (double)sextW(a.c, ow) : (double)(unsigned __int128)maskW(a.c, ow)));
        }
        if (in.ty.k == T_FLT) {
            P p = sg ? toS(a, ow) : toU(a, ow);
            if (p->lo < -z_pow2(53) || p->hi > z_pow2(53)) { // rounding to double first would round twice
                u128 c = concreteVal(a, ow);
                return mkC(fromFloat(sg ? (float)sextW(c, ow) : (float)(unsigned __int128)c));
            }
            return mkF(fUn(F_TRUNC32, fFromInt(p, sg)));
        }
        return mkF(fFromInt(sg ? toS(a, ow) : toU(a, ow), sg));
    }
    case Instruction::FPToSI: case Instruction::FPToUI: {
        bool sg = in.op == Instruction::FPToSI;
        Z lo = sg ? Z(-z_pow2(w - 1)) : Z(0), hi = sg ? Z(z_pow2(w - 1) - 1) : Z(z_pow2(w) - 1);
        if (!a.s) {
            double d = in.oty.k == T_FLT ? asFloat(a.c) : asDouble(a.c);
            if (std::isnan(d) || std::isinf(d)) failHere("conversion of a non-finite value to an integer");
            Z z(trunc(d));
            if (z < lo || z > hi) failHere("conversion of an out of range value to an integer");
            return mkC(maskW(z_to_u128(z), w));
        }
        F f = toF(a);
        double dlo = Z(lo).get_d(), dhi = Z(hi + 1).get_d();
        bool ok = f->abs && f->mlo > Q(lo) && f->mhi < Q(hi);
        if (!ok) requireUB(bAnd(sg ? (w < 53 ? fCmp(2, f, fConst(dlo - 1)) : fCmp(3, f, fConst(dlo))) : fCmp(2, f, fConst(-1.0)), fCmp(4, f, fConst(dhi))), "conversion of an out of range value to an integer");
        return mkP(fToInt(f, R_TRUNC, lo, hi), w);
    }
    case Instruction::FPExt:
        if (!a.s) return mkC(fromDouble((double)asFloat(a.c)));
        return a;
    case Instruction::FPTrunc:
        if (!a.s) return mkC(fromFloat((float)asDouble(a.c)));
        return mkF(fUn(F_TRUNC32, toF(a)));
    }
    incomplete("cast");
    return Val();
}
static Val selectOp(DInst &in, const Val &c, const Val &a, const Val &b) {
    if (!c.s) return (c.c & 1) ? a : b;
    B cc = S.reduce(toB(c));
    if (cc == bTrue) return a;
    if (cc == bFalse) return b;
    switch (in.ty.k) {
    case T_INT:
        if (in.ty.w == 1) return mkB(bIte(cc, toB(a), toB(b)));
        return mkP(pIte(cc, toP(a, in.ty.w), toP(b, in.ty.w)), in.ty.w);
    case T_PTR: if (!a.s && !b.s && a.c == b.c) return a; return branchOn(cc) ? a : b;
    case T_DBL: return mkF(fIte(cc, toF(a), toF(b)));
    default: return branchOn(cc) ? a : b;
    }
}
static uint64_t addrOf(const Val &v) { return (uint64_t)concreteVal(v, 64); }

static void step(Thread &t) {
    Frame &f = t.st.back();
    DInst &in = f.fn->blocks[f.block].ins[f.pc];
    g_insts++;
    if ((++g_pathInsts & 0xffff) == 0) {
        if (wallNow() > g_sh->deadline) incomplete("deadline");
        if (g_sh->stop) finish("stop");
        if (g_pathInsts > g_maxInsts) incomplete("instruction limit of a path");
    }
    switch (in.op) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv:
    case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
        Val r = binInt(in, get(f, in.ops[0]), get(f, in.ops[1]));
        f.regs[in.dst] = r; f.pc++; return;
    }
    case Instruction::ICmp: { Val r = icmp(in, get(f, in.ops[0]), get(f, in.ops[1])); f.regs[in.dst] = r; f.pc++; return; }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
        Val r = binFp(in, get(f, in.ops[0]), get(f, in.ops[1])); f.regs[in.dst] = r; f.pc++; return;
    }
    case Instruction::FNeg: {
        Val a = get(f, in.ops[0]);
        if (!a.s) f.regs[in.dst] = in.ty.k == T_FLT ? mkC(fromFloat(-asFloat(a.c))) : mkC(fromDouble(-asDouble(a.c)));
        else f.regs[in.dst] = mkF(fUn(F_NEG, toF(a)));
        f.pc++; return;
    }
    case Instruction::FCmp: { Val r = fcmp(in, get(f, in.ops[0]), get(f, in.ops[1])); f.regs[in.dst] = r; f.pc++; return; }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast:
    case Instruction::AddrSpaceCast: case Instruction::Freeze: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI:
    case Instruction::FPExt: case Instruction::FPTrunc: {
        Val r = castOp(in, get(f, in.ops[0])); f.regs[in.dst] = r; f.pc++; return;
    }
    case Instruction::Select: { Val r = selectOp(in, get(f, in.ops[0]), get(f, in.ops[1]), get(f, in.ops[2])); f.regs[in.dst] = r; f.pc++; return; }
    case Instruction::GetElementPtr: {
        Val base = get(f, in.ops[0]);
        int64_t off = in.imm.back();
        bool sym = base.s != nullptr;
        for (size_t k = 1; k < in.ops.size(); k++) {
            Val ix = get(f, in.ops[k]);
            if (ix.s) sym = true;
            else off += in.imm[2 * (k - 1)] * (int64_t)sextW(ix.c, in.imm[2 * (k - 1) + 1]);
        }
        if (!sym) { f.regs[in.dst] = mkC((uint64_t)base.c + (uint64_t)off); f.pc++; return; }
        P p = pAddC(toP(base, 64), z_from_i64(off));
        for (size_t k = 1; k < in.ops.size(); k++) {
            Val ix = get(f, in.ops[k]);
            if (ix.s) p = pAdd(p, pScale(toS(ix, in.imm[2 * (k - 1) + 1]), z_from_i64(in.imm[2 * (k - 1)])));
        }
        f.regs[in.dst] = wrapTo(p, 64);
        f.pc++; return;
    }
    case Instruction::Load: {
        uint64_t a = addrOf(get(f, in.ops[0]));
        Type *ty = in.in->getType();
        uint64_t n = in.ty.size;
        if (g_live > 1 && !in.atomic) raceCheck(t, a, n, false);
        if (in.atomic) syncOrder(t, a, cast<LoadInst>(in.in)->getOrdering(), true, false);
        f.regs[in.dst] = in.ty.k == T_AGG ? loadTy(a, ty) : in.ty.k == T_OTHER ? (incomplete("vector load"), Val()) : loadRaw(a, in.ty, n);
        f.pc++; return;
    }
    case Instruction::Store: {
        uint64_t a = addrOf(get(f, in.ops[1]));
        Val v = get(f, in.ops[0]);
        if (g_live > 1 && !in.atomic) raceCheck(t, a, in.oty.size, true);
        if (in.atomic) syncOrder(t, a, cast<StoreInst>(in.in)->getOrdering(), false, true);
        if (in.oty.k == T_AGG) storeTy(a, v, in.in->getOperand(0)->getType());
        else if (in.oty.k == T_OTHER) incomplete("vector store");
        else storeRaw(a, v, in.oty.size);
        f.pc++; return;
    }
    case Instruction::Alloca: {
        uint64_t n = (uint64_t)concreteVal(get(f, in.ops[0]), 64) * in.imm[0];
        uint64_t al = std::max<uint64_t>(16, in.imm[1]);
        uint64_t a = (t.sp + al - 1) & ~(al - 1);
        t.sp = a + n + 16;
        if (t.sp > t.stackLo + STACK_SZ - 4096) failHere("stack exhausted");
        memset(&validAt(a), 1, n);
        if (n <= 65536) memset((void *)a, 0xBE, n);
        f.regs[in.dst] = mkC(a);
        f.pc++; return;
    }
    case Instruction::Br:
        if (in.ops.empty()) { jump(f, in.t0); return; }
        else {
            Val c = get(f, in.ops[0]);
            bool v = c.s ? branchOn(toB(c)) : (c.c & 1);
            jump(t.st.back(), v ? in.t0 : in.t1);
            return;
        }
    case Instruction::Switch: {
        Val c = get(f, in.ops[0]);
        unsigned w = in.oty.w;
        for (size_t k = 1; k < in.ops.size(); k++) {
            Val x = get(f, in.ops[k]);
            bool eq;
            if (!c.s) eq = maskW(c.c, w) == maskW(x.c, w);
            else { Z h = z_pow2(w - 1); P p = toP(c, w); P q = p->hi < h ? pConst(z_from_i128(sextW(x.c, w))) : pConst(z_from_u128(maskW(x.c, w))); if (p->hi >= h && p->lo < 0) { p = toS(c, w); q = pConst(z_from_i128(sextW(x.c, w))); } eq = branchOn(bEq(p, q)); }
            if (eq) { jump(f, in.imm[k - 1]); return; }
        }
        jump(f, in.t0);
        return;
    }
    case Instruction::Ret: {
        Val r;
        if (!in.ops.empty()) r = get(f, in.ops[0]);
        auto k = f.onReturn;
        popFrame(t);
        if (k) { k(r); return; }
        if (t.st.empty()) { t.done = true; return; }
        completeCall(t, r);
        return;
    }
    case Instruction::Unreachable: failHere("unreachable code reached"); return;
    case Instruction::ExtractValue: {
        Val a = get(f, in.ops[0]);
        for (auto k : in.imm) a = a.s->agg[k];
        f.regs[in.dst] = a; f.pc++; return;
    }
    case Instruction::InsertValue: {
        Val a = get(f, in.ops[0]), x = get(f, in.ops[1]);
        std::function<Val(Val, size_t)> ins = [&](Val b, size_t d) -> Val {
            if (d == in.imm.size()) return x;
            std::vector<Val> v = b.s->agg;
            v[in.imm[d]] = ins(v[in.imm[d]], d + 1);
            return mkAgg(v);
        };
        f.regs[in.dst] = ins(a, 0); f.pc++; return;
    }
    case Instruction::Resume: {
        Val a = get(f, in.ops[0]);
        uint64_t obj = (uint64_t)a.s->agg[0].c;
        Exn *e = g_exns[obj];
        if (t.st.back().onReturn) failHere("an exception leaves a thread");
        popFrame(t);
        if (t.st.empty()) failHere("uncaught exception " + std::string(e && e->ti ? demangle(e->ti->name()) : "?"));
        raise(t, e);
        return;
    }
    case Instruction::AtomicRMW: {
        auto *rm = cast<AtomicRMWInst>(in.in);
        uint64_t a = addrOf(get(f, in.ops[0]));
        Val old = loadRaw(a, in.ty, in.ty.size), v = get(f, in.ops[1]), r;
        DInst tmp; tmp.ty = in.ty; tmp.oty = in.ty;
        switch (rm->getOperation()) {
        case AtomicRMWInst::Xchg: r = v; break;
        case AtomicRMWInst::Add: tmp.op = Instruction::Add; r = binInt(tmp, old, v); break;
        case AtomicRMWInst::Sub: tmp.op = Instruction::Sub; r = binInt(tmp, old, v); break;
        case AtomicRMWInst::And: tmp.op = Instruction::And; r = binInt(tmp, old, v); break;
        case AtomicRMWInst::Or: tmp.op = Instruction::Or; r = binInt(tmp, old, v); break;
        default: incomplete("atomicrmw");
        }
        syncOrder(t, a, rm->getOrdering(), true, true);
        storeRaw(a, r, in.ty.size);
        f.regs[in.dst] = old; f.pc++; return;
    }
    case Instruction::AtomicCmpXchg: {
        uint64_t a = addrOf(get(f, in.ops[0]));
        Ty ct = tyOf(in.in->getOperand(1)->getType());
        Val old = loadRaw(a, ct, ct.size), c = get(f, in.ops[1]), n = get(f, in.ops[2]);
        bool eq = concreteVal(old, ct.w) == concreteVal(c, ct.w);
        auto *cx = cast<AtomicCmpXchgInst>(in.in);
        syncOrder(t, a, eq ? cx->getSuccessOrdering() : cx->getFailureOrdering(), true, eq);
        if (eq) storeRaw(a, n, ct.size);
        f.regs[in.dst] = mkAgg({old, mkC(eq)}); f.pc++; return;
    }
    case Instruction::Fence: f.pc++; return;
    case Instruction::Call: case Instruction::Invoke: {
        std::vector<Val> args;
        size_t na = in.ops.size() - (in.callee ? 0 : 1);
        args.reserve(na);
        for (size_t k = 0; k < na; k++) args.push_back(get(f, in.ops[k]));
        const Function *callee = in.callee;
        Handler h = in.h;
        uint64_t addr = 0;
        if (!callee) {
            addr = addrOf(get(f, in.ops.back()));
            auto it = g_fnAt.find(addr);
            if (it != g_fnAt.end()) { callee = it->second; h = findHandler(callee->getName().str()); }
        }
        if (h) {
            Ctx c{t, in, args, Val()};
            h(c);
            if (!c.control) completeCall(t, c.ret);
            return;
        }
        if (callee && !callee->isDeclaration()) { pushFrame(t, callee, args); return; }
        if (callee && callee->isIntrinsic()) { intrinsic(t, in, callee, args); return; }
        if (callee) {
            std::string n = callee->getName().str();
            if (!in.native) in.native = gaddr(callee);
            addr = in.native;
            if (inArena(addr)) incomplete("no implementation of " + demangle(n));
            callNative(t, in, callee->getFunctionType(), addr, args, n);
            return;
        }
        if (inArena(addr) || addr < 65536) failHere("call through an invalid function pointer");
        callNative(t, in, cast<CallBase>(in.in)->getFunctionType(), addr, args, "?");
        return;
    }
    case Instruction::LandingPad: f.pc++; return;
    }
    std::string s; raw_string_ostream os(s); in.in->print(os);
    incomplete("instruction not supported: " + s);
}
#include "models.inc"

static void runAll() {
    while (true) {
        Thread *t = T[cur];
        g_cur = t;
        if (t->done) {
            if (t->id == 0) { t->st.clear(); finish("path"); }
            reschedule(true);
            continue;
        }
        if (t->blocked && !t->blocked()) { reschedule(false); continue; }
        t->blocked = nullptr;
        if (t->afterBlock) { auto k = t->afterBlock; t->afterBlock = nullptr; k(); continue; }
        step(*t);
    }
}
static void onSegv(int sig, siginfo_t *si, void *) {
    char b[256];
    static int once = 0;
    if (once++) _exit(79);
    snprintf(b, 256, "memory: fault (signal %d) at %p in %s", sig, si->si_addr, g_inNative ? "native code" : "interpreted code");
    if (g_cur && S.haveModel) { g_inNative = false; violation(b, &S.model); finish("ended"); }
    _exit(78);
}
static void runInit() { // static constructors, then the harness
    GlobalVariable *gc = M->getGlobalVariable("llvm.global_ctors");
    if (!gc || !gc->hasInitializer()) return;
    auto *ca = dyn_cast<ConstantArray>(gc->getInitializer());
    if (!ca) return;
    for (unsigned i = 0; i < ca->getNumOperands(); i++) {
        auto *st = cast<ConstantStruct>(ca->getOperand(i));
        auto *fn = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts());
        if (!fn) continue;
        bool done = false;
        pushFrame(*T[0], fn, {}, [&](Val) { done = true; });
        while (!done) step(*T[0]);
    }
}
int main(int argc, char **argv) {
    std::string bc, entry = "sx_main", log;
    double timeout = 60;
    int jobs = 8;
    void *mem = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_sh = new (mem) Shared;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--entry") entry = argv[++i];
        else if (a == "--log") log = argv[++i];
        else if (a == "--timeout") timeout = atof(argv[++i]);
        else if (a == "--jobs") jobs = atoi(argv[++i]);
        else if (a == "--soft") g_softTimeout = atof(argv[++i]);
        else if (a == "--hard") g_hardTimeout = atof(argv[++i]);
        else if (a == "--max-insts") g_maxInsts = atol(argv[++i]);
        else if (a == "--max-viol") g_sh->maxViol = atoi(argv[++i]);
        else if (a == "--lib") { if (!dlopen(argv[++i], RTLD_NOW | RTLD_GLOBAL)) { fprintf(stderr, "%s\n", dlerror()); return 3; } }
        else if (a == "--cfg") { std::string c = argv[++i]; size_t q = c.find('='); g_cfg[c.substr(0, q)] = atoll(c.c_str() + q + 1); }
        else bc = a;
    }
    extern int g_logfd;
    if (!log.empty()) g_logfd = open(log.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    setpgid(0, 0);
    int null = open("/dev/null", O_WRONLY);
    dup2(null, 1);
    g_sh->maxRun = jobs;
    g_sh->running = 1;
    double t0 = wallNow();
    g_sh->deadline = t0 + timeout;
    g_deadline = t0 + timeout;
    memInit();
    LLVMContext ctx;
    SMDiagnostic err;
    auto mod = parseIRFile(bc, err, ctx);
    if (!mod) { fprintf(stderr, "cannot read %s\n", bc.c_str()); return 3; }
    M = mod.get();
    // stand-ins also replace the function where its address is taken, as with the linker's --wrap
    for (Function &w : *M)
        if (!w.isDeclaration() && w.getName().starts_with("__wrap_"))
            if (Function *f = M->getFunction(w.getName().substr(7)))
                f->replaceUsesWithIf(&w, [&](Use &u) { auto *cb = dyn_cast<CallBase>(u.getUser()); return !(cb && cb->isCallee(&u)); });
    DL = &M->getDataLayout();
    int idx = 0;
    for (auto &fn : *M) if (!fn.isDeclaration() && idx < (1 << 16)) { g_fnIndex[fn.getName().str()] = idx++; g_fnNames.push_back(fn.getName().str()); }
    Function *e = M->getFunction(entry);
    if (!e) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
    prctl(PR_SET_CHILD_SUBREAPER, 1);
    pid_t pid = fork();
    if (pid == 0) {
        struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onSegv; sa.sa_flags = SA_SIGINFO | SA_NODEFER | SA_ONSTACK;
        stack_t ss; ss.ss_sp = malloc(1 << 20); ss.ss_size = 1 << 20; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
        sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr);
        S.init();
        initGlobals();
        cur = 0;
        newThread();
        g_cur = T[0];
        runInit();
        pushFrame(*T[0], e, {});
        runAll();
        _exit(0);
    }
    int st;
    double killAt = g_sh->deadline + 45;
    while (true) {
        pid_t p = waitpid(-1, &st, WNOHANG);
        if (p < 0) { if (errno == EINTR) continue; break; }
        if (p == 0) {
            usleep(2000);
            if (wallNow() > killAt) { g_sh->crashed++; logLine("{\"k\":\"crash\",\"status\":-1}"); signal(SIGTERM, SIG_IGN); kill(0, SIGTERM); usleep(300000); break; }
            continue;
        }
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { g_sh->crashed++; logLine("{\"k\":\"crash\",\"status\":" + std::to_string(st) + "}"); }
    }
    std::string fns = "[";
    bool first = true;
    for (size_t i = 0; i < g_fnNames.size(); i++) if (g_sh->fn[i]) { fns += (first ? "" : ",") + jstr(demangle(g_fnNames[i])); first = false; }
    fns += "]";
    char b[1024];
    Shared &s = *g_sh;
    snprintf(b, sizeof b,
             "{\"k\":\"sum\",\"paths\":%d,\"ended\":%d,\"viols\":%d,\"unks\":%d,\"incomplete\":%d,\"crashed\":%d,\"forks\":%d,\"asserts\":%d,\"insts\":%ld,\"queries\":%ld,\"unsat\":%ld,\"sat\":%ld,"
             "\"unk\":%ld,\"hard\":%ld,\"modelHits\":%ld,\"factHits\":%ld,\"solverSeconds\":%.3f,\"wall\":%.2f,\"stopped\":%d,\"fns\":",
             (int)s.paths, (int)s.ended, (int)s.viols, (int)s.unks, (int)s.incomplete, (int)s.crashed, (int)s.forks, (int)s.asserts, (long)s.insts, (long)s.queries, (long)s.unsat, (long)s.sat, (long)s.unk, (long)s.hard,
             (long)s.modelHits, (long)s.factHits, s.solverUs / 1e6, wallNow() - t0, (int)s.stop);
    logLine(std::string(b) + fns + "}");
    return 0;
}
