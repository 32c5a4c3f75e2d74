// Symbolic interpreter for LLVM IR.
#pragma once
#include "solver.h"
#include <atomic>
#include <cstring>
#include <exception>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <set>
#include <string>
#include <typeinfo>
#include <unordered_set>
#include <vector>

struct Val;
enum SymKind { K_INT, K_BOOL, K_FP, K_AGG };
struct Sym {
    SymKind k;
    P p = nullptr;
    B b = nullptr;
    F f = nullptr;
    std::vector<Val> agg;
};
struct Val {
    u128 c = 0;
    const Sym *s = nullptr;
};
inline Val mkC(u128 c) { Val v; v.c = c; return v; }
inline u128 maskW(u128 c, unsigned w) { return w >= 128 ? c : c & ((((u128)1) << w) - 1); }
inline i128 sextW(u128 c, unsigned w) { if (w >= 128) return (i128)c; u128 s = ((u128)1) << (w - 1); c = maskW(c, w); return (i128)((c ^ s) - s); }
Val mkP(P p, unsigned w);
Val mkB(B b);
Val mkF(F f);
Val mkAgg(std::vector<Val> v);
inline double asDouble(u128 c) { uint64_t b = (uint64_t)c; double d; memcpy(&d, &b, 8); return d; }
inline float asFloat(u128 c) { uint32_t b = (uint32_t)c; float d; memcpy(&d, &b, 4); return d; }
inline u128 fromDouble(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
inline u128 fromFloat(float d) { uint32_t b; memcpy(&b, &d, 4); return b; }

enum TyKind : uint8_t { T_VOID, T_INT, T_PTR, T_FLT, T_DBL, T_AGG, T_OTHER };
struct Ty { TyKind k = T_VOID; uint16_t w = 0; uint32_t size = 0; };

struct Ctx;
typedef void (*Handler)(Ctx &);
struct DFunc;
struct DInst {
    unsigned op = 0;
    int dst = -1;
    Ty ty;
    Ty oty;
    std::vector<int> ops; // >=0 register, <0 constant -1-index
    std::vector<int64_t> imm;
    unsigned pred = 0;
    bool nsw = false, nuw = false, exact = false, atomic = false;
    const llvm::Instruction *in = nullptr;
    const llvm::Function *callee = nullptr;
    int t0 = -1, t1 = -1;
    Handler h = nullptr;
    bool hLooked = false;
    DFunc *df = nullptr;
    uint64_t native = 0;
};
struct DBlock {
    std::vector<DInst> ins;
    std::vector<std::pair<int, std::map<int, int>>> phis; // dst, pred block -> operand
};
struct DFunc {
    const llvm::Function *f;
    std::string name;
    int nregs = 0;
    std::vector<DBlock> blocks;
    std::vector<Val> consts;
    std::vector<uint64_t> byval; // size per argument, 0 if not byval
};
struct Frame {
    DFunc *fn;
    int block = 0, pc = 0;
    std::vector<Val> regs;
    uint64_t stackBase = 0;
    std::function<void(Val)> onReturn; // engine continuation instead of a caller register
};
struct Exn {
    uint64_t obj; const std::type_info *ti; std::exception_ptr ep; int handlers = 0; bool rethrown = false;
};
struct Thread {
    int id = 0;
    std::vector<Frame> st;
    bool done = false;
    std::function<bool()> blocked; // set: waits until it returns true
    std::string blockedOn;
    std::vector<Exn *> caught;
    std::vector<uint32_t> vc;
    uint64_t sp = 0, stackLo = 0;
    int ompTid = 0, team = -1;
    int loopNo = 0;
    bool yieldDone = false;
    int barGen = -1;
    std::function<void()> afterBlock; // runs when the thread wakes up
};
struct PathEnd {};

struct Ctx {
    Thread &t;
    DInst &in;
    std::vector<Val> &args;
    Val ret;
    bool control = false; // the handler moved control itself
    bool retry = false;   // run the same instruction again later
};
