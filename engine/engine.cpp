#include "engine.h"
#include <csignal>
#include <cstdio>
#include <fcntl.h>
#include <new>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

Shared *g_sh;
Solver S;
uint8_t *g_valid;
uint64_t g_heapTop = A_HEAP + 64;
std::unordered_map<uint64_t, Cell> g_cells;
std::unordered_map<uint64_t, uint64_t> g_allocs;
bool g_inNative = false;
std::vector<Input> g_inputs;
std::map<std::string, int64_t> g_cfg;
int g_logfd = 1;
static bool g_ownsToken = true;
extern long g_insts;
extern std::vector<std::tuple<std::string, Val, Ty>> g_outs;
std::string traceBack();

double wallNow() { timeval tv; gettimeofday(&tv, nullptr); return tv.tv_sec + tv.tv_usec * 1e-6; }
void logLine(const std::string &s) {
    std::string l = s + "\n";
    ssize_t r = write(g_logfd, l.data(), l.size()); (void)r;
}
std::string jstr(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}
static void addStats() {
    g_sh->insts += g_insts; g_insts = 0;
    g_sh->queries += g_ss.queries; g_sh->unsat += g_ss.unsat; g_sh->sat += g_ss.sat; g_sh->unk += g_ss.unk; g_sh->hard += g_ss.hard;
    g_sh->modelHits += g_ss.modelHits; g_sh->factHits += g_ss.factHits; g_sh->solverUs += (long)(g_ss.seconds * 1e6);
    g_ss = SolverStats();
}
static std::string inputsJson(const Model *m) {
    Evaluator e(m);
    std::string o = "{";
    bool first = true;
    for (auto &i : g_inputs) {
        if (!first) o += ",";
        first = false;
        o += jstr(i.name) + ":\"" + (i.bv ? std::string(e.boolean(i.bv) ? "1" : "0") : e.atom(i.atom).get_str()) + "\"";
    }
    return o + "}";
}
static std::string outsJson(const Model *m) {
    Evaluator e(m);
    std::string o = "[";
    bool first = true;
    for (auto &x : g_outs) {
        if (!first) o += ",";
        first = false;
        const Val &v = std::get<1>(x); Ty ty = std::get<2>(x);
        std::string s;
        if (ty.k == T_DBL) {
            double d = v.s ? e.fp(v.s->f) : asDouble(v.c);
            char b[64]; snprintf(b, 64, "%a", d); s = b;
        } else if (!v.s) s = z_from_i128(sextW(v.c, ty.w)).get_str();
        else if (v.s->k == K_BOOL) s = e.boolean(v.s->b) ? "1" : "0";
        else { Z z = e.poly(v.s->p); s = z_from_i128(sextW(z_to_u128(z), ty.w)).get_str(); }
        o += "[" + jstr(std::get<0>(x)) + ",\"" + s + "\"]";
    }
    return o + "]";
}
void finish(const char *kind, const std::string &msg) {
    if (!strcmp(kind, "path")) {
        g_sh->paths++;
        if (!S.haveModel) {
            Model m;
            SatR r = S.check(bTrue, &m, 5);
            if (r == S_SAT) { S.model = m; S.haveModel = true; }
            if (r == S_UNSAT) { kind = "infeasible"; g_sh->paths--; }
        }
        if (S.haveModel && g_sh->logged++ < 4000)
            logLine("{\"k\":\"path\",\"in\":" + inputsJson(&S.model) + ",\"out\":" + outsJson(&S.model) + "}");
    } else if (!strcmp(kind, "infeasible") || !strcmp(kind, "ended")) g_sh->ended++;
    else if (!strcmp(kind, "incomplete")) {
        if (g_sh->incomplete++ < 40) logLine("{\"k\":\"incomplete\",\"msg\":" + jstr(msg) + ",\"at\":" + jstr(traceBack()) + (S.haveModel ? ",\"in\":" + inputsJson(&S.model) : "") + "}");
    } else if (!strcmp(kind, "stop")) g_sh->incomplete++;
    addStats();
    if (g_ownsToken) g_sh->running--;
    _exit(0);
}
void incomplete(const std::string &why) { finish("incomplete", why); }
void violation(const std::string &what, const Model *m) {
    g_sh->viols++;
    logLine("{\"k\":\"viol\",\"what\":" + jstr(what) + ",\"in\":" + inputsJson(m) + ",\"out\":" + outsJson(m) + ",\"at\":" + jstr(traceBack()) + "}");
    if (g_sh->viols >= g_sh->maxViol) g_sh->stop = 1;
}
bool forkPath(B cond, const Model *m) {
    if (g_sh->stop) finish("stop");
    if (wallNow() > g_sh->deadline) incomplete("deadline");
    if (g_sh->maxPaths && g_sh->forks > g_sh->maxPaths) incomplete("path limit");
    g_sh->forks++;
    bool par = g_sh->running.fetch_add(1) < g_sh->maxRun;
    if (!par) g_sh->running--;
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) incomplete("fork failed");
    if (pid == 0) {
        g_ss = SolverStats();
        g_insts = 0;
        g_ownsToken = par;
        if (m) { S.model = *m; S.haveModel = true; } else S.haveModel = false;
        S.assertB(cond);
        return true;
    }
    if (!par) {
        int st = 0;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { g_sh->crashed++; logLine("{\"k\":\"crash\",\"status\":" + std::to_string(st) + "}"); }
        if (g_sh->stop) finish("stop");
    }
    return false;
}
bool branchOn(B c) {
    c = S.reduce(c);
    if (c == bTrue) return true;
    if (c == bFalse) return false;
    if (!S.haveModel) {
        Model m;
        SatR t = S.check(c, &m);
        if (t == S_UNSAT) return false;
        if (t == S_SAT) { S.model = m; S.haveModel = true; }
        else {
            SatR f = S.check(bNot(c), &m);
            if (f == S_UNSAT) return true;
            if (f == S_SAT) { S.model = m; S.haveModel = true; }
            else {
                if (forkPath(bNot(c), nullptr)) return false;
                S.assertB(c);
                return true;
            }
        }
    }
    bool v = S.evalModel(c);
    B other = v ? bNot(c) : c, mine = v ? c : bNot(c);
    Model m;
    SatR r = S.check(other, &m);
    if (r == S_UNSAT) return v;
    if (forkPath(other, r == S_SAT ? &m : nullptr)) return !v;
    S.assertB(mine);
    return v;
}
void assumeB(B c) {
    c = S.reduce(c);
    if (c == bTrue) return;
    if (c == bFalse) finish("infeasible");
    if (S.haveModel && S.evalModel(c)) { S.assertB(c); return; }
    Model m;
    SatR r = S.check(c, &m);
    if (r == S_UNSAT) finish("infeasible");
    if (r == S_SAT) { S.model = m; S.haveModel = true; } else S.haveModel = false;
    S.assertB(c);
}
Z concretize(P p) {
    if (p->isConst()) return p->cst();
    int n = 0;
    while (true) {
        if (!S.haveModel) {
            Model m; SatR r = S.check(bTrue, &m);
            if (r == S_UNSAT) finish("infeasible");
            if (r != S_SAT) incomplete("no model at a concretisation");
            S.model = m; S.haveModel = true;
        }
        Z v = Evaluator(&S.model).poly(p);
        B eq = bEq(pAddC(p, -v));
        if (S.reduce(eq) == bTrue) return v;
        Model m;
        SatR r = S.check(bNot(eq), &m);
        if (r == S_UNSAT) return v;
        if (forkPath(bNot(eq), r == S_SAT ? &m : nullptr)) {
            static int fan = 0;
            if (++fan > 5000) incomplete("too many values at a concretisation: " + pStr(p).substr(0, 200));
            n++;
            continue;
        }
        S.assertB(eq);
        return v;
    }
}

// ---- memory
void memInit() {
    void *a = mmap((void *)ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (a == MAP_FAILED) { perror("arena"); _exit(3); }
    g_valid = (uint8_t *)mmap(nullptr, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (g_valid == MAP_FAILED) { perror("valid map"); _exit(3); }
    madvise((void *)ARENA, ARENA_SZ, MADV_NOHUGEPAGE);
    madvise(g_valid, ARENA_SZ, MADV_NOHUGEPAGE);
}
uint64_t arenaAlloc(uint64_t n, unsigned align) {
    if (n > (256ull << 20)) return 0;
    if (align < 16) align = 16;
    uint64_t p = (g_heapTop + align - 1) & ~(uint64_t)(align - 1);
    g_heapTop = ((p + n + 15) & ~15ull) + 48;
    if (g_heapTop > ARENA + ARENA_SZ) incomplete("engine heap exhausted");
    memset(&validAt(p), 1, n);
    if (n <= (1 << 20)) memset((void *)p, 0xBE, n);
    g_allocs[p] = n;
    return p;
}
void arenaFree(uint64_t a) {
    if (!a) return;
    auto it = g_allocs.find(a);
    if (it == g_allocs.end()) {
        if (S.haveModel) violation("memory: invalid or double free", &S.model);
        finish("ended");
    }
    for (uint64_t i = 0; i < it->second; i++) {
        if (validAt(a + i) == 3) g_cells.erase(a + i);
        validAt(a + i) = 2;
    }
    g_allocs.erase(it);
}
static void memViolation(const char *what, uint64_t a, uint64_t n) {
    char b[200]; snprintf(b, 200, "memory: %s of %lu bytes", what, (unsigned long)n); (void)a;
    if (!S.haveModel) {
        Model m; SatR r = S.check(bTrue, &m);
        if (r == S_UNSAT) finish("infeasible");
        if (r != S_SAT) incomplete(std::string("possible ") + b);
        S.model = m; S.haveModel = true;
    }
    violation(b, &S.model);
    finish("ended");
}
bool checkAccess(uint64_t a, uint64_t n, bool write) {
    if (inArena(a)) {
        for (uint64_t i = 0; i < n; i++) {
            uint8_t v = validAt(a + i);
            if (v == 0) memViolation(write ? "out of bounds write" : "out of bounds read", a, n);
            if (v == 2) memViolation(write ? "write after free" : "read after free", a, n);
        }
        return true;
    }
    if (a < 65536) memViolation(write ? "null pointer write" : "null pointer read", a, n);
    return true;
}
bool anySymbolic(uint64_t a, uint64_t n) {
    if (!inArena(a)) return false;
    for (uint64_t i = 0; i < n; i++) if (validAt(a + i) == 3) return true;
    return false;
}
void storeRaw(uint64_t a, const Val &v, unsigned n) {
    checkAccess(a, n, true);
    if (inArena(a)) {
        if (v.s) {
            for (unsigned i = 0; i < n; i++) { g_cells[a + i] = Cell{v.s, (uint8_t)i, (uint8_t)n}; validAt(a + i) = 3; }
            memset((void *)a, 0xA5, n);
            return;
        }
        for (unsigned i = 0; i < n; i++) if (validAt(a + i) == 3) { g_cells.erase(a + i); validAt(a + i) = 1; }
    } else if (v.s) incomplete("symbolic store to native memory");
    u128 c = v.c;
    memcpy((void *)a, &c, n);
}
static u128 symConcrete(const Sym *s, unsigned w) {
    if (s->k == K_INT) return maskW(z_to_u128(concretize(s->p)), w);
    if (s->k == K_BOOL) return branchOn(s->b) ? 1 : 0;
    if (s->k == K_FP) { Val v; v.s = s; double d = concreteDouble(v); return w == 32 ? fromFloat((float)d) : fromDouble(d); }
    incomplete("aggregate concretisation");
    return 0;
}
void concreteMem(uint64_t a, uint64_t n) {
    if (!inArena(a)) return;
    for (uint64_t i = 0; i < n; i++) {
        if (validAt(a + i) != 3) continue;
        Cell c = g_cells[a + i];
        u128 v = symConcrete(c.s, c.size * 8);
        for (uint64_t j = 0; j < c.size; j++) {
            uint64_t x = a + i - c.off + j;
            auto it = g_cells.find(x);
            if (it == g_cells.end() || it->second.s != c.s || it->second.off != j) continue;
            g_cells.erase(it);
            validAt(x) = 1;
            *(uint8_t *)x = (uint8_t)(v >> (8 * j));
        }
    }
}
Val loadRaw(uint64_t a, Ty ty, unsigned n) {
    checkAccess(a, n, false);
    if (inArena(a) && anySymbolic(a, n)) {
        auto it = g_cells.find(a);
        bool whole = it != g_cells.end() && it->second.off == 0 && it->second.size == n;
        if (whole) {
            const Sym *s = it->second.s;
            for (unsigned i = 1; i < n && whole; i++) {
                if (validAt(a + i) != 3) { whole = false; break; }
                auto j = g_cells.find(a + i);
                whole = j->second.s == s && j->second.off == i;
            }
            if (whole) {
                bool fpT = ty.k == T_DBL || ty.k == T_FLT;
                if (fpT == (s->k == K_FP)) {
                    Val v; v.s = s;
                    if (s->k == K_INT && ty.k == T_INT && ty.w < n * 8) return mkP(pEx(toU(v, n * 8), 0, ty.w), ty.w);
                    return v;
                }
                concreteMem(a, n);
                return loadRaw(a, ty, n);
            }
        }
        bool fp = ty.k == T_DBL || ty.k == T_FLT;
        for (unsigned i = 0; i < n && !fp; i++) if (validAt(a + i) == 3 && g_cells[a + i].s->k == K_FP) fp = true;
        if (fp || ty.k == T_PTR) { concreteMem(a, n); return loadRaw(a, ty, n); }
        P sum = pConst(0);
        for (unsigned i = 0; i < n;) {
            P part; unsigned len = 1;
            if (validAt(a + i) == 3) {
                Cell c = g_cells[a + i];
                while (i + len < n && validAt(a + i + len) == 3) {
                    const Cell &d = g_cells[a + i + len];
                    if (d.s != c.s || d.off != c.off + len || d.size != c.size) break;
                    len++;
                }
                Val v; v.s = c.s;
                part = pEx(toP(v, c.size * 8), c.off * 8, len * 8);
            } else part = pConst(Z((unsigned long)*(uint8_t *)(a + i)));
            sum = pAdd(sum, pScale(part, z_pow2(8 * i)));
            i += len;
        }
        return mkP(sum, n * 8);
    }
    u128 c = 0;
    memcpy(&c, (void *)a, n);
    if (ty.k == T_INT) c = maskW(c, ty.w);
    return mkC(c);
}
void copyMem(uint64_t d, uint64_t s, uint64_t n) {
    if (!n) return;
    checkAccess(s, n, false);
    checkAccess(d, n, true);
    std::vector<std::pair<uint64_t, Cell>> cs;
    if (inArena(s)) for (uint64_t i = 0; i < n; i++) if (validAt(s + i) == 3) cs.push_back({i, g_cells[s + i]});
    memmove((void *)d, (void *)s, n);
    if (inArena(d)) {
        for (uint64_t i = 0; i < n; i++) if (validAt(d + i) == 3) { g_cells.erase(d + i); validAt(d + i) = 1; }
        for (auto &c : cs) { g_cells[d + c.first] = c.second; validAt(d + c.first) = 3; }
    } else if (!cs.empty()) incomplete("symbolic copy to native memory");
}

// the engine's own allocator: native code called from the program allocates in the arena
static void *newImpl(size_t n) {
    if (g_inNative) { g_inNative = false; void *p = (void *)arenaAlloc(n ? n : 1); g_inNative = true; return p; }
    void *p = malloc(n ? n : 1);
    if (!p) abort();
    return p;
}
static void delImpl(void *p) {
    if (inArena((uint64_t)p)) { bool o = g_inNative; g_inNative = false; if (g_allocs.count((uint64_t)p)) arenaFree((uint64_t)p); g_inNative = o; return; }
    free(p);
}
void *operator new(size_t n) { return newImpl(n); }
void *operator new[](size_t n) { return newImpl(n); }
void operator delete(void *p) noexcept { delImpl(p); }
void operator delete[](void *p) noexcept { delImpl(p); }
void operator delete(void *p, size_t) noexcept { delImpl(p); }
void operator delete[](void *p, size_t) noexcept { delImpl(p); }

// ---- values
Val mkP(P p, unsigned w) {
    Val v;
    if (p->isConst()) { v.c = maskW(z_to_u128(p->cst()), w); return v; }
    Sym *s = new Sym; s->k = K_INT; s->p = p; v.s = s;
    return v;
}
Val mkB(B b) {
    Val v;
    if (b == bTrue) { v.c = 1; return v; }
    if (b == bFalse) return v;
    Sym *s = new Sym; s->k = K_BOOL; s->b = b; v.s = s;
    return v;
}
Val mkF(F f) {
    Val v;
    if (f->op == F_CONST) { v.c = fromDouble(f->c); return v; }
    Sym *s = new Sym; s->k = K_FP; s->f = f; v.s = s;
    return v;
}
Val mkAgg(std::vector<Val> a) { Val v; Sym *s = new Sym; s->k = K_AGG; s->agg = std::move(a); v.s = s; return v; }
// made of the exclusive or of whole words (hashes): no bound to prove
static bool hashy(P p, int d) {
    for (auto &t : p->t)
        for (auto a : t.m) {
            const Atom &A = g_atoms[a];
            if (A.kind == A_UF && A.uf == UF_XOR && A.width == 64 && A.hi >= z_pow2(63)) return true;
            if (A.kind == A_EX && d < 4 && hashy(A.a, d + 1)) return true;
        }
    return false;
}
bool inRange(P p, const Z &lo, const Z &hi) {
    if (p->lo >= lo && p->hi <= hi) return true;
    if (p->hi < lo || p->lo > hi) return false;
    if (hashy(p, 0)) return false;
    bool ok = true;
    if (p->lo < lo) { B b = bLe(pConst(lo), p); ok = S.prove(b); }
    if (ok && p->hi > hi) { B b = bLe(p, pConst(hi)); ok = S.prove(b); }
    return ok;
}
P toP(const Val &v, unsigned w) {
    if (!v.s) return pConst(z_from_i128(sextW(v.c, w)));
    if (v.s->k == K_INT) return v.s->p;
    if (v.s->k == K_BOOL) return pIte(v.s->b, pConst(1), pConst(0));
    incomplete("integer expected");
    return nullptr;
}
P toS(const Val &v, unsigned w) {
    if (!v.s) return pConst(z_from_i128(sextW(v.c, w)));
    P p = toP(v, w);
    Z h = z_pow2(w - 1);
    if (v.s->k == K_BOOL && w == 1) return pNeg(p);
    if (p->hi < h) return p;
    {
        P m = pMod(p, w);
        Z mid = m->lo + m->hi, M2 = z_pow2(w + 1), k; // nearest multiple of 2^w to the middle of the range
        Z q = mid + z_pow2(w);
        mpz_fdiv_q(k.get_mpz_t(), q.get_mpz_t(), M2.get_mpz_t());
        if (k != 0) m = pAddC(m, Z(-k * z_pow2(w)));
        if (m != p && m->lo >= -h && m->hi < h) return m;
    }
    if (p->lo >= h) return pAddC(p, -z_pow2(w));
    if (inRange(p, -h, h - 1)) return p;
    if (inRange(p, h, z_pow2(w) - 1)) return pAddC(p, -z_pow2(w));
    return pIte(bLe(pConst(h), p), pAddC(p, -z_pow2(w)), p);
}
P toU(const Val &v, unsigned w) {
    if (!v.s) return pConst(z_from_u128(maskW(v.c, w)));
    P p = toP(v, w);
    if (p->lo >= 0) return p;
    if (p->hi < 0) return pAddC(p, z_pow2(w));
    if (inRange(p, 0, z_pow2(w) - 1)) return p;
    if (inRange(p, -z_pow2(w), -1)) return pAddC(p, z_pow2(w));
    return pEx(p, 0, w);
}
B toB(const Val &v) {
    if (!v.s) return (v.c & 1) ? bTrue : bFalse;
    if (v.s->k == K_BOOL) return v.s->b;
    if (v.s->k == K_INT) return bNot(bEq(v.s->p));
    incomplete("boolean expected");
    return nullptr;
}
F toF(const Val &v) {
    if (!v.s) return fConst(asDouble(v.c));
    if (v.s->k == K_FP) return v.s->f;
    incomplete("floating point expected");
    return nullptr;
}
u128 concreteVal(const Val &v, unsigned w) {
    if (!v.s) return maskW(v.c, w);
    return symConcrete(v.s, w);
}
double concreteDouble(const Val &v) {
    if (!v.s) return asDouble(v.c);
    // enumerate the values the double can take through its integer inputs
    F f = toF(v);
    for (int n = 0;; n++) {
        if (!S.haveModel) incomplete("no model at a concretisation");
        double d = Evaluator(&S.model).fp(f);
        B eq = fCmp(1, f, fConst(d));
        eq = S.reduce(eq);
        if (eq == bTrue) return d;
        Model m;
        SatR r = S.check(bNot(eq), &m);
        if (r == S_UNSAT) return d;
        if (n > 200) incomplete("too many values of a double");
        if (forkPath(bNot(eq), r == S_SAT ? &m : nullptr)) continue;
        S.assertB(eq);
        return d;
    }
}
