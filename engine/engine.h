// Process-level services: shared statistics, logging, path forking, memory.
#pragma once
#include "interp.h"

struct Shared {
    std::atomic<int> running{0}, paths{0}, ended{0}, viols{0}, unks{0}, incomplete{0}, crashed{0}, forks{0}, stop{0}, logged{0}, asserts{0}, validated{0}, procs{0};
    std::atomic<long> insts{0}, queries{0}, unsat{0}, sat{0}, unk{0}, hard{0}, modelHits{0}, factHits{0}, solverUs{0};
    double deadline = 0;
    int maxRun = 8, maxPaths = 0, maxViol = 12;
    uint8_t fn[1 << 16];
};
extern Shared *g_sh;
extern Solver S;
double wallNow();
void logLine(const std::string &s);
std::string jstr(const std::string &s);
[[noreturn]] void finish(const char *kind, const std::string &msg = "");
void violation(const std::string &what, const Model *m);  // candidate counterexample under the given model
void incomplete(const std::string &why);
bool forkPath(B cond, const Model *m);
bool branchOn(B c);
Z concretize(P p);
void assumeB(B c);

// memory
extern uint8_t *g_valid;
extern uint64_t g_heapTop;
const uint64_t ARENA = 0x100000000000ull, ARENA_SZ = 48ull << 30;
const uint64_t A_FN = ARENA, A_GLOB = ARENA + (64ull << 20), A_STACK = ARENA + (2ull << 30), STACK_SZ = 64ull << 20, A_HEAP = ARENA + (8ull << 30);
inline bool inArena(uint64_t a) { return a - ARENA < ARENA_SZ; }
inline uint8_t &validAt(uint64_t a) { return g_valid[a - ARENA]; }
struct Cell { const Sym *s; uint8_t off, size; };
extern std::unordered_map<uint64_t, Cell> g_cells;
extern std::unordered_map<uint64_t, uint64_t> g_allocs;
extern bool g_inNative;
void memInit();
uint64_t arenaAlloc(uint64_t n, unsigned align = 16);
void arenaFree(uint64_t a);
bool checkAccess(uint64_t a, uint64_t n, bool write);
bool anySymbolic(uint64_t a, uint64_t n);
void storeRaw(uint64_t a, const Val &v, unsigned n);
Val loadRaw(uint64_t a, Ty ty, unsigned n);
void copyMem(uint64_t d, uint64_t s, uint64_t n);
void concreteMem(uint64_t a, uint64_t n); // make bytes concrete

struct Input { std::string name; uint32_t atom; B bv; int kind; int sh; };
extern std::vector<Input> g_inputs;
extern std::map<std::string, int64_t> g_cfg;
Val toSymFresh(const std::string &n, const Z &lo, const Z &hi);

P toP(const Val &v, unsigned w); // raw
P toS(const Val &v, unsigned w);
P toU(const Val &v, unsigned w);
B toB(const Val &v);
F toF(const Val &v);
bool inRange(P p, const Z &lo, const Z &hi);
u128 concreteVal(const Val &v, unsigned w); // forks when symbolic
double concreteDouble(const Val &v);
