#include "solver.h"
#include "z3dl.h"
#include <algorithm>
#include <csignal>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <poll.h>
#include <sstream>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

Z3Api z3;
SolverStats g_ss;
double g_softTimeout = 2.0, g_hardTimeout = 30.0, g_deadline = 1e18;
#ifndef Z3_LIB
#define Z3_LIB "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib/libz3.so"
#endif
void z3_load() {
    void *h = dlopen(Z3_LIB, RTLD_NOW | RTLD_LOCAL);
    if (!h) { fprintf(stderr, "cannot load z3: %s\n", dlerror()); _exit(3); }
#define X(f) z3.f = (decltype(z3.f))dlsym(h, #f); if (!z3.f) { fprintf(stderr, "z3 lacks %s\n", #f); _exit(3); }
    Z3_FUNCS(X)
#undef X
}
static double now() { timeval tv; gettimeofday(&tv, nullptr); return tv.tv_sec + tv.tv_usec * 1e-6; }

// Translation of terms into one z3 context.
struct Tr {
    Z3_context c = nullptr;
    Z3_solver s = nullptr;
    bool linear = true; // nonlinear monomials become opaque integers
    Z3_sort is, bs;
    std::unordered_map<uint32_t, Z3_ast> at;
    std::unordered_map<P, Z3_ast> pt;
    std::unordered_map<B, Z3_ast> bt;
    std::map<Mono, Z3_ast> mt;
    std::vector<Z3_ast> defs; // definitions to assert before use
    bool nonlin = false;
    void open(bool lin, const char *logic) {
        linear = lin;
        Z3_config cfg = z3.Z3_mk_config();
        c = z3.Z3_mk_context(cfg);
        z3.Z3_del_config(cfg);
        z3.Z3_set_error_handler(c, nullptr);
        is = z3.Z3_mk_int_sort(c); bs = z3.Z3_mk_bool_sort(c);
        s = logic ? z3.Z3_mk_solver_for_logic(c, z3.Z3_mk_string_symbol(c, logic)) : z3.Z3_mk_simple_solver(c);
        z3.Z3_solver_inc_ref(c, s);
    }
    Z3_ast num(const Z &z) { return z3.Z3_mk_numeral(c, z.get_str().c_str(), is); }
    Z3_ast con(const std::string &n, Z3_sort so) { return z3.Z3_mk_const(c, z3.Z3_mk_string_symbol(c, n.c_str()), so); }
    Z3_ast le(Z3_ast a, Z3_ast b) { return z3.Z3_mk_le(c, a, b); }
    Z3_ast and2(Z3_ast a, Z3_ast b) { Z3_ast v[2] = {a, b}; return z3.Z3_mk_and(c, 2, v); }
    Z3_ast mul(Z3_ast a, Z3_ast b) { Z3_ast v[2] = {a, b}; return z3.Z3_mk_mul(c, 2, v); }
    Z3_ast add(Z3_ast a, Z3_ast b) { Z3_ast v[2] = {a, b}; return z3.Z3_mk_add(c, 2, v); }
    void bounds(Z3_ast x, const Z &lo, const Z &hi) { defs.push_back(le(num(lo), x)); defs.push_back(le(x, num(hi))); }
    Z3_ast atom(uint32_t a) {
        auto it = at.find(a);
        if (it != at.end()) return it->second;
        const Atom x = g_atoms[a];
        Z3_ast r = nullptr;
        if (x.kind == A_ITE) {
            Z3_ast cc = boolean(x.cond), t = poly(x.a), e = poly(x.b);
            r = con("ite" + std::to_string(a), is);
            defs.push_back(z3.Z3_mk_implies(c, cc, z3.Z3_mk_eq(c, r, t)));
            defs.push_back(z3.Z3_mk_implies(c, z3.Z3_mk_not(c, cc), z3.Z3_mk_eq(c, r, e)));
            bounds(r, x.lo, x.hi);
        } else {
            r = con("a" + std::to_string(a), is);
            bounds(r, x.lo, x.hi);
            if (x.kind == A_FDIV) {
                Z3_ast p = poly(x.a), dr = mul(num(x.d), r);
                defs.push_back(le(dr, p));
                defs.push_back(le(p, add(dr, num(x.d - 1))));
            } else if (x.kind == A_EX) {
                // p = 2^lo * (2^n * q + r) + s, 0<=s<2^lo
                Z3_ast p = poly(x.a);
                Z L = z_pow2(x.exlo), N = z_pow2(x.exn);
                Z3_ast w = r;
                Z fl, fh; mpz_fdiv_q(fl.get_mpz_t(), x.a->lo.get_mpz_t(), Z(L * N).get_mpz_t()); mpz_fdiv_q(fh.get_mpz_t(), x.a->hi.get_mpz_t(), Z(L * N).get_mpz_t());
                if (fl != 0 || fh != 0) {
                    Z3_ast q = con("exq" + std::to_string(a), is);
                    bounds(q, fl, fh);
                    w = add(mul(num(N), q), r);
                }
                Z3_ast lw = x.exlo ? mul(num(L), w) : w;
                if (x.exlo == 0) defs.push_back(z3.Z3_mk_eq(c, lw, p));
                else { defs.push_back(le(lw, p)); defs.push_back(le(p, add(lw, num(L - 1)))); }
            } else if (x.kind == A_FP2INT && x.fp->abs) {
                // |r - num/den| <= 1/2 or 1, + err
                Q tol = (x.rm == R_ROUND || x.rm == R_EVEN ? Q(1, 2) : Q(1)) + x.fp->err;
                P R = pAtom(a), den = x.fp->den, nm = x.fp->num;
                P diff = pSub(pMul(R, den), nm); // |diff| <= tol*|den|
                P lhs = pScale(diff, tol.get_den()), rhs = pScale(den, tol.get_num());
                auto pos = [&](P l, P rr) { defs.push_back(le(poly(l), poly(rr))); };
                at[a] = r;
                for (int sw = 0; sw < 2 && x.fp->op == F_MUL; sw++) { // integer times a bounded factor stays between 0 and the integer
                    F n = sw ? x.fp->b : x.fp->a, f = sw ? x.fp->a : x.fp->b;
                    if ((n->op != F_FROMINT && !(n->op == F_DYADIC && n->sh == 0)) || n->err != 0 || !f->abs) continue;
                    if (f->mlo < -2 || f->mhi > 2) continue;
                    // factor in [lo, hi], rounding of the product and of the conversion within d
                    Q lo = f->mlo, hi = f->mhi;
                    auto c1 = [](Q q) { Z z; mpz_cdiv_q(z.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); return z; };
                    Z l = -c1(-lo), h = c1(hi);
                    Q m(std::max(Z(abs(n->p->lo)), Z(abs(n->p->hi))));
                    Z d = c1(m * 4 * Q(1, z_pow2(53)));
                    if (lo == Q(l) && hi == Q(h) && m < Q(z_pow2(53))) d = 0; // monotone and exact at the bounds
                    P R = pAtom(a), np = n->p, D = pConst(d);
                    Z3_ast ge0 = le(num(0), poly(np)), le0 = le(poly(np), num(0));
                    defs.push_back(z3.Z3_mk_implies(c, ge0, and2(le(poly(pSub(pScale(np, l), D)), r), le(r, poly(pAdd(pScale(np, h), D))))));
                    defs.push_back(z3.Z3_mk_implies(c, le0, and2(le(poly(pSub(pScale(np, h), D)), r), le(r, poly(pAdd(pScale(np, l), D))))));
                    (void)R;
                }
                if (den->isConst()) { pos(lhs, rhs); pos(pNeg(lhs), rhs); }
                else {
                    Z3_ast dp = le(num(1), poly(den));
                    defs.push_back(z3.Z3_mk_implies(c, dp, and2(le(poly(lhs), poly(rhs)), le(poly(pNeg(lhs)), poly(rhs)))));
                    defs.push_back(z3.Z3_mk_implies(c, z3.Z3_mk_not(c, dp), and2(le(poly(lhs), poly(pNeg(rhs))), le(poly(pNeg(lhs)), poly(pNeg(rhs))))));
                }
            } else if (x.kind == A_UF) {
                // congruence with the other applications of the same operation
                Z3_ast p = poly(x.a), q = poly(x.b);
                for (auto &o : ufs) {
                    const Atom y = g_atoms[o];
                    if (y.uf != x.uf || y.width != x.width) continue;
                    Z3_ast same = and2(z3.Z3_mk_eq(c, p, poly(y.a)), z3.Z3_mk_eq(c, q, poly(y.b)));
                    if (x.uf == UF_XOR || x.uf == UF_AND || x.uf == UF_OR) {
                        Z3_ast sw = and2(z3.Z3_mk_eq(c, p, poly(y.b)), z3.Z3_mk_eq(c, q, poly(y.a)));
                        Z3_ast v[2] = {same, sw}; same = z3.Z3_mk_or(c, 2, v);
                    }
                    defs.push_back(z3.Z3_mk_implies(c, same, z3.Z3_mk_eq(c, r, at[o])));
                }
                ufs.push_back(a);
                if (x.a->lo >= 0 && x.b->lo >= 0) {
                    if (x.uf == UF_OR) { defs.push_back(le(p, r)); defs.push_back(le(q, r)); defs.push_back(le(r, add(p, q))); }
                    if (x.uf == UF_AND) { defs.push_back(le(r, p)); defs.push_back(le(r, q)); }
                    if (x.uf == UF_XOR) defs.push_back(le(r, add(p, q)));
                }
            }
        }
        at[a] = r;
        return r;
    }
    std::vector<uint32_t> ufs;
    struct Prod { Z3_ast r, u, v; int lemmas; };
    std::vector<Prod> prods;
    // r = u*v: facts about the product that hold everywhere, chosen at the point (a, b)
    void tangent(const Prod &p, const Z &a, const Z &b, std::vector<Z3_ast> &out) {
        Z3_ast lin = add(add(mul(num(b), p.u), mul(num(a), p.v)), num(-a * b)); // b*u + a*v - a*b
        Z3_ast ug = le(num(a + 1), p.u), ul = le(p.u, num(a - 1)), vg = le(num(b + 1), p.v), vl = le(p.v, num(b - 1));
        Z3_ast s1[2] = {and2(ug, vg), and2(ul, vl)}, s2[2] = {and2(ug, vl), and2(ul, vg)};
        out.push_back(z3.Z3_mk_implies(c, z3.Z3_mk_or(c, 2, s1), le(add(lin, num(1)), p.r)));
        out.push_back(z3.Z3_mk_implies(c, z3.Z3_mk_or(c, 2, s2), le(p.r, add(lin, num(-1)))));
        out.push_back(z3.Z3_mk_implies(c, z3.Z3_mk_eq(c, p.u, num(a)), z3.Z3_mk_eq(c, p.r, mul(num(a), p.v))));
        out.push_back(z3.Z3_mk_implies(c, z3.Z3_mk_eq(c, p.v, num(b)), z3.Z3_mk_eq(c, p.r, mul(num(b), p.u))));
    }
    bool evalZ(Z3_model m, Z3_ast x, Z &out) {
        Z3_ast v;
        if (!z3.Z3_model_eval(c, m, x, true, &v)) return false;
        Z3_string t = z3.Z3_get_numeral_string(c, v);
        return t && *t && out.set_str(t, 10) == 0;
    }
    Z3_ast mono(const Mono &m) {
        if (m.size() == 1) return atom(m[0]);
        auto it = mt.find(m);
        if (it != mt.end()) return it->second;
        Z3_ast r;
        nonlin = true;
        if (linear) {
            std::string n = "m";
            for (auto a : m) n += "_" + std::to_string(a);
            r = con(n, is);
            P p = pConst(1);
            for (auto a : m) p = pMul(p, pAtom(a));
            bounds(r, p->lo, p->hi);
            Mono h(m.begin(), m.end() - 1);
            Z3_ast u = mono(h), v = atom(m.back());
            prods.push_back({r, u, v, 0});
            if (h.size() == 1 && h[0] == m.back()) { // squares
                defs.push_back(le(v, r));
                defs.push_back(le(mul(num(-1), v), r));
            }
        } else {
            r = atom(m[0]);
            std::vector<Z3_ast> v;
            for (auto a : m) v.push_back(atom(a));
            r = z3.Z3_mk_mul(c, v.size(), v.data());
        }
        mt[m] = r;
        return r;
    }
    Z3_ast poly(P p) {
        auto it = pt.find(p);
        if (it != pt.end()) return it->second;
        std::vector<Z3_ast> v;
        for (auto &x : p->t) {
            if (x.m.empty()) v.push_back(num(x.c));
            else if (x.c == 1) v.push_back(mono(x.m));
            else v.push_back(mul(num(x.c), mono(x.m)));
        }
        Z3_ast r = v.empty() ? num(0) : v.size() == 1 ? v[0] : z3.Z3_mk_add(c, v.size(), v.data());
        pt[p] = r;
        return r;
    }
    Z3_ast boolean(B b) {
        auto it = bt.find(b);
        if (it != bt.end()) return it->second;
        Z3_ast r = nullptr;
        switch (b->k) {
        case B_TRUE: r = z3.Z3_mk_true(c); break;
        case B_FALSE: r = z3.Z3_mk_false(c); break;
        case B_LE: { // move the constant to the right
            P nc = pAddC(b->p, -b->p->cst());
            r = le(poly(nc), num(-b->p->cst()));
            break;
        }
        case B_EQ: { P nc = pAddC(b->p, -b->p->cst()); r = z3.Z3_mk_eq(c, poly(nc), num(-b->p->cst())); break; }
        case B_VAR: r = con("b" + std::to_string(b->id), bs); break;
        case B_NOT: r = z3.Z3_mk_not(c, boolean(b->args[0])); break;
        case B_AND: case B_OR: {
            std::vector<Z3_ast> v;
            for (auto x : b->args) v.push_back(boolean(x));
            r = b->k == B_AND ? z3.Z3_mk_and(c, v.size(), v.data()) : z3.Z3_mk_or(c, v.size(), v.data());
            break;
        }
        case B_FUZZ: {
            r = con("f" + std::to_string(b->id), bs);
            bt[b] = r;
            defs.push_back(z3.Z3_mk_implies(c, r, boolean(b->mayT)));
            defs.push_back(z3.Z3_mk_implies(c, z3.Z3_mk_not(c, r), boolean(b->mayF)));
            if (b->p) defs.push_back(z3.Z3_mk_eq(c, r, le(poly(b->p), num(0))));
            break;
        }
        }
        bt[b] = r;
        return r;
    }
    void flushDefs() {
        for (size_t i = 0; i < defs.size(); i++) z3.Z3_solver_assert(c, s, defs[i]);
        defs.clear();
    }
    void readModel(Z3_model m, Model &out) {
        out.v.clear(); out.bv.clear();
        for (auto &x : at) {
            const Atom &a = g_atoms[x.first];
            if (a.kind != A_VAR && a.kind != A_FRESH) continue;
            Z3_ast v;
            if (z3.Z3_model_eval(c, m, x.second, true, &v)) {
                Z3_string s = z3.Z3_get_numeral_string(c, v);
                if (s && *s) { Z z; if (z.set_str(s, 10) == 0) out.v[x.first] = z; }
            }
        }
        for (auto &x : bt) {
            if (x.first->k != B_VAR) continue;
            Z3_ast v;
            if (z3.Z3_model_eval(c, m, x.second, true, &v)) out.bv[x.first->id] = z3.Z3_get_bool_value(c, v) == Z3_L_TRUE;
        }
    }
};

static Tr g_tr;
static volatile Z3_context g_intrCtx = nullptr;
static volatile int g_alarms = 0;
static void onAlarm(int) {
    if (g_intrCtx) z3.Z3_interrupt(g_intrCtx);
    if (++g_alarms > 40) _exit(77);
}
static void startTimer(double sec) {
    g_alarms = 0;
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onAlarm; sa.sa_flags = SA_RESTART;
    sigaction(SIGALRM, &sa, nullptr);
    itimerval t; t.it_value.tv_sec = (long)sec; t.it_value.tv_usec = (long)((sec - (long)sec) * 1e6);
    t.it_interval.tv_sec = 0; t.it_interval.tv_usec = 500000;
    setitimer(ITIMER_REAL, &t, nullptr);
}
static void stopTimer() { itimerval t; memset(&t, 0, sizeof t); setitimer(ITIMER_REAL, &t, nullptr); g_intrCtx = nullptr; }

void Solver::init() {
    z3_load();
    g_tr.open(true, nullptr);
}

// ---- facts: interval knowledge per normalised polynomial
struct Fact { bool hl = false, hh = false; Z lo, hi; };
static std::unordered_map<P, Fact> g_facts;
static std::unordered_map<B, bool> g_known;
// p = s*g*base + c with base primitive and sign-normalised
static P baseOf(P p, Z &mult, Z &c) {
    c = p->cst();
    P nc = pAddC(p, -c);
    Z g = pContent(nc);
    if (g == 0) { mult = 0; return nc; }
    if (!nc->t.empty() && nc->t[0].c < 0) g = -g;
    mult = g;
    if (g == 1) return nc;
    std::vector<PTerm> t;
    P r = pConst(0);
    for (auto &x : nc->t) {
        P m = pConst(Z(x.c / g));
        for (auto a : x.m) m = pMul(m, pAtom(a));
        r = pAdd(r, m);
    }
    return r;
}
static void addFact(B b) {
    g_known[b] = true;
    g_known[bNot(b)] = false;
    if (b->k == B_AND) { for (auto x : b->args) addFact(x); return; }
    if (b->k == B_LE || b->k == B_EQ) {
        Z m, c; P base = baseOf(b->p, m, c);
        if (m == 0) return;
        Fact &f = g_facts[base];
        // m*base + c <= 0
        if (b->k == B_EQ) {
            Z q = -c / m;
            f.hl = f.hh = true; f.lo = f.hi = q;
        } else if (m > 0) {
            Z u; Z nc = -c; mpz_fdiv_q(u.get_mpz_t(), nc.get_mpz_t(), m.get_mpz_t());
            if (!f.hh || u < f.hi) { f.hh = true; f.hi = u; }
        } else {
            Z l; Z mm = -m; mpz_cdiv_q(l.get_mpz_t(), c.get_mpz_t(), mm.get_mpz_t());
            if (!f.hl || l > f.lo) { f.hl = true; f.lo = l; }
        }
    }
    if (b->k == B_NOT && b->args[0]->k == B_EQ) {
        Z m, c; P base = baseOf(b->args[0]->p, m, c);
        if (m == 0) return;
        Z nc = -c;
        if (!mpz_divisible_p(nc.get_mpz_t(), m.get_mpz_t())) return;
        Z q = nc / m;
        Fact &f = g_facts[base];
        if (f.hl && f.lo == q) f.lo += 1;
        if (f.hh && f.hi == q) f.hi -= 1;
    }
}
static B reduceRec(B b, std::unordered_map<B, B> &memo) {
    if (b->k == B_TRUE || b->k == B_FALSE) return b;
    auto k = g_known.find(b);
    if (k != g_known.end()) return k->second ? bTrue : bFalse;
    auto mi = memo.find(b);
    if (mi != memo.end()) return mi->second;
    B r = b;
    if (b->k == B_LE || b->k == B_EQ) {
        Z m, c; P base = baseOf(b->p, m, c);
        auto f = g_facts.find(base);
        if (f != g_facts.end() && m != 0) {
            Z lo, hi; bool hl, hh;
            const Fact &F = f->second;
            if (m > 0) { hl = F.hl; hh = F.hh; if (hl) lo = m * F.lo + c; if (hh) hi = m * F.hi + c; }
            else { hl = F.hh; hh = F.hl; if (hl) lo = m * F.hi + c; if (hh) hi = m * F.lo + c; }
            if (b->k == B_LE) { if (hh && hi <= 0) r = bTrue; else if (hl && lo > 0) r = bFalse; }
            else {
                if (hl && lo > 0) r = bFalse;
                else if (hh && hi < 0) r = bFalse;
                else if (hl && hh && lo == 0 && hi == 0) r = bTrue;
            }
        }
    } else if (b->k == B_NOT) r = bNot(reduceRec(b->args[0], memo));
    else if (b->k == B_AND || b->k == B_OR) {
        std::vector<B> v;
        for (auto x : b->args) {
            B y = reduceRec(x, memo);
            if (b->k == B_AND && y == bFalse) { v.clear(); v.push_back(bFalse); break; }
            if (b->k == B_OR && y == bTrue) { v.clear(); v.push_back(bTrue); break; }
            v.push_back(y);
        }
        r = b->k == B_AND ? bAndN(v) : bOrN(v);
    }
    memo[b] = r;
    return r;
}
B Solver::reduce(B b) { std::unordered_map<B, B> memo; return reduceRec(b, memo); }

void Solver::assertB(B b) {
    if (b == bTrue) return;
    pc.push_back(b);
    for (size_t i = 0; i < alts.size();) {
        if (Evaluator(&alts[i]).boolean(b)) i++;
        else { if (i + 1 != alts.size()) alts[i] = std::move(alts.back()); alts.pop_back(); }
    }
    Z3_ast z = g_tr.boolean(b);
    g_tr.flushDefs();
    z3.Z3_solver_assert(g_tr.c, g_tr.s, z);
    addFact(b);
}

// collect approximated atoms
static void collectB(B b, std::set<B> &seen, std::set<B> &fz, std::set<uint32_t> &at);
static void collectP(P p, std::set<B> &seen, std::set<B> &fz, std::set<uint32_t> &at) {
    for (auto &x : p->t) for (auto a : x.m) {
        if (!at.insert(a).second) continue;
        const Atom A = g_atoms[a];
        if (A.a) collectP(A.a, seen, fz, at);
        if (A.b) collectP(A.b, seen, fz, at);
        if (A.cond) collectB(A.cond, seen, fz, at);
    }
}
static void collectB(B b, std::set<B> &seen, std::set<B> &fz, std::set<uint32_t> &at) {
    if (!seen.insert(b).second) return;
    if (b->k == B_FUZZ) fz.insert(b);
    if (b->p) collectP(b->p, seen, fz, at);
    if (b->mayT) { collectB(b->mayT, seen, fz, at); collectB(b->mayF, seen, fz, at); }
    for (auto x : b->args) collectB(x, seen, fz, at);
}
// leaves (VAR/FRESH atoms) below a term
static void leavesP(P p, std::set<uint32_t> &out, std::set<const void *> &seen);
static void leavesB(B b, std::set<uint32_t> &out, std::set<const void *> &seen);
static void leavesF(F f, std::set<uint32_t> &out, std::set<const void *> &seen) {
    if (!f || !seen.insert(f).second) return;
    if (f->p) leavesP(f->p, out, seen);
    leavesF(f->a, out, seen); leavesF(f->b, out, seen);
    if (f->cond) leavesB(f->cond, out, seen);
}
static void leavesP(P p, std::set<uint32_t> &out, std::set<const void *> &seen) {
    if (!seen.insert(p).second) return;
    for (auto &x : p->t) for (auto a : x.m) {
        const Atom A = g_atoms[a];
        if (A.kind == A_VAR || A.kind == A_FRESH) out.insert(a);
        if (A.a) leavesP(A.a, out, seen);
        if (A.b) leavesP(A.b, out, seen);
        if (A.cond) leavesB(A.cond, out, seen);
        if (A.fp) leavesF(A.fp, out, seen);
    }
}
static void leavesB(B b, std::set<uint32_t> &out, std::set<const void *> &seen) {
    if (!seen.insert(b).second) return;
    if (b->p) leavesP(b->p, out, seen);
    leavesF(b->fa, out, seen); leavesF(b->fb, out, seen);
    for (auto x : b->args) leavesB(x, out, seen);
}
// Point lemmas excluding a model in which the approximated terms differ from their exact value.
static std::vector<B> pointLemmas(const std::vector<B> &fs, const Model &m) {
    std::set<B> seen, fz; std::set<uint32_t> at;
    for (auto b : fs) collectB(b, seen, fz, at);
    Evaluator e(&m);
    std::vector<B> out;
    auto guard = [&](const std::set<uint32_t> &lv) {
        std::vector<B> v;
        for (auto a : lv) v.push_back(bNot(bEq(pAddC(pAtom(a), -e.atom(a)))));
        return v;
    };
    for (auto b : fz) {
        std::set<uint32_t> lv; std::set<const void *> sn;
        leavesB(b, lv, sn);
        auto v = guard(lv);
        v.push_back(e.boolean(b) ? b : bNot(b));
        out.push_back(bOrN(v));
    }
    for (auto a : at) {
        const Atom A = g_atoms[a];
        if (A.kind == A_UF) {
            std::vector<B> v;
            v.push_back(bNot(bEq(pAddC(A.a, -e.poly(A.a)))));
            v.push_back(bNot(bEq(pAddC(A.b, -e.poly(A.b)))));
            v.push_back(bEq(pAddC(pAtom(a), -e.atom(a))));
            out.push_back(bOrN(v));
        } else if (A.kind == A_FP2INT) {
            std::set<uint32_t> lv; std::set<const void *> sn;
            leavesF(A.fp, lv, sn);
            auto v = guard(lv);
            // literal equality kept away from the floating point rewriting: use both bounds
            v.push_back(bEq(pAddC(pAtom(a), -e.atom(a))));
            out.push_back(bOrN(v));
        }
    }
    return out;
}

static bool evalAll(const std::vector<B> &v, const Model &m) {
    Evaluator e(&m);
    for (auto b : v) if (!e.boolean(b)) return false;
    return true;
}

// Looks for a model near a candidate whose approximated atoms were guessed wrongly. Only exact evaluation counts.
static bool probe(const std::vector<B> &fs, Model &m, int tries) {
    std::vector<uint32_t> vars;
    for (auto &x : m.v) if (g_atoms[x.first].kind == A_VAR) vars.push_back(x.first);
    if (vars.empty()) return false;
    static gmp_randstate_t rs; static bool init = false;
    if (!init) { gmp_randinit_default(rs); gmp_randseed_ui(rs, 12345); init = true; }
    static uint64_t seed = 88172645463325252ull;
    auto rnd = [&] { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; return seed; };
    Model base = m;
    double end = now() + 1.0;
    for (int k = 0; k < tries; k++) {
        if ((k & 31) == 0 && now() > end) break;
        Model c = base;
        for (auto a : vars) {
            if (vars.size() > 1 && rnd() % 3 == 0) continue;
            const Atom &A = g_atoms[a];
            Z v;
            unsigned how = rnd() % 3;
            Z span = A.hi - A.lo + 1;
            if (how == 0 || span < 64) { mpz_urandomm(v.get_mpz_t(), rs, span.get_mpz_t()); v += A.lo; }
            else if (how == 1) { v = c.v[a] + (long)(rnd() % 41) - 20; }
            else {
                unsigned bits = rnd() % (mpz_sizeinbase(span.get_mpz_t(), 2) + 1);
                mpz_urandomb(v.get_mpz_t(), rs, bits);
                if (rnd() & 1) v = -v;
            }
            if (v < A.lo) v = A.lo;
            if (v > A.hi) v = A.hi;
            c.v[a] = v;
        }
        if (evalAll(fs, c)) { m = c; return true; }
    }
    return false;
}

// Reads the first decisive answer of the children: U unsatisfiable, S and a model, K nothing.
static SatR collect(int *fds, pid_t *pids, const int N, double budget, Model &out) {
    double end = now() + budget;
    std::vector<std::string> buf(N);
    SatR res = S_UNK;
    std::vector<char> open(N); int live = 0;
    for (int k = 0; k < N; k++) { open[k] = fds[k] >= 0; live += open[k]; }
    while (live > 0 && res == S_UNK) {
        double left = end - now();
        if (left <= 0) break;
        pollfd pf[8]; int idx[8], n = 0;
        for (int k = 0; k < N; k++) if (open[k]) { pf[n].fd = fds[k]; pf[n].events = POLLIN; idx[n++] = k; }
        if (poll(pf, n, (int)(left * 1000) + 1) <= 0) continue;
        for (int i = 0; i < n && res == S_UNK; i++) {
            if (!pf[i].revents) continue;
            int k = idx[i];
            char tmp[65536];
            ssize_t got = read(fds[k], tmp, sizeof tmp);
            if (got > 0) { buf[k].append(tmp, got); continue; }
            open[k] = false; live--;
            if (buf[k].empty()) continue;
            if (buf[k][0] == 'U') res = S_UNSAT;
            else if (buf[k][0] == 'S') {
                Model m;
                std::istringstream is(buf[k].substr(1));
                std::string w;
                while (is >> w) {
                    size_t q = w.find('=');
                    uint32_t id = std::stoul(w.substr(1, q - 1));
                    if (w[0] == 'v') { Z z; z.set_str(w.substr(q + 1), 10); m.v[id] = z; }
                    else m.bv[id] = w.substr(q + 1) == "1";
                }
                out = m;
                res = S_SAT;
            }
        }
    }
    for (int k = 0; k < N; k++) {
        if (fds[k] >= 0) close(fds[k]);
        if (pids[k] > 0) { kill(pids[k], SIGKILL); waitpid(pids[k], nullptr, 0); }
    }
    return res;
}

// A child solver may take this much more memory than it starts with; beyond, its query is undecided.
static void limitMemory() {
    long pages = 0;
    if (FILE *f = fopen("/proc/self/statm", "r")) { if (fscanf(f, "%ld", &pages) != 1) pages = 0; fclose(f); }
    if (!pages) return;
    rlim_t most = (rlim_t)pages * 4096 + ((rlim_t)1200 << 20);
    rlimit l = {most, most}, none = {0, 0};
    setrlimit(RLIMIT_AS, &l);
    setrlimit(RLIMIT_CORE, &none);
    for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL}) signal(s, SIG_DFL); // a solver out of memory just ends
}

// One-shot portfolio in child processes with true multiplication.
static SatR hardCheck(const std::vector<B> &fs, Model &out, double budget) {
    g_ss.hard++;
    const int N = 4;
    int fds[N]; pid_t pids[N];
    int want = N;
    for (int k = 0; k < want; k++) {
        int p[2];
        if (pipe(p)) { fds[k] = -1; pids[k] = -1; continue; }
        pid_t pid = fork();
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            signal(SIGALRM, SIG_DFL);
            limitMemory();
            close(p[0]);
            itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = (long)budget + 2; setitimer(ITIMER_REAL, &t, nullptr);
            Tr tr;
            const char *logic = k == 0 ? nullptr : k == 1 ? "QF_NIA" : k == 2 ? "QF_NIA" : nullptr;
            tr.open(false, logic);
            if (k == 3) { // nlsat-style arithmetic off, bounded search
                Z3_params ps = z3.Z3_mk_params(tr.c); z3.Z3_params_inc_ref(tr.c, ps);
                z3.Z3_params_set_uint(tr.c, ps, z3.Z3_mk_string_symbol(tr.c, "random_seed"), 7);
                z3.Z3_params_set_uint(tr.c, ps, z3.Z3_mk_string_symbol(tr.c, "arith.solver"), 6);
                z3.Z3_solver_set_params(tr.c, tr.s, ps);
            }
            std::vector<Z3_ast> as;
            for (auto b : fs) as.push_back(tr.boolean(b));
            if (k == 2) { // small values only
                std::vector<uint32_t> keys;
                for (auto &x : tr.at) keys.push_back(x.first);
                for (auto a : keys)
                    if (g_atoms[a].kind == A_VAR) {
                        Z l = g_atoms[a].lo, h = g_atoms[a].hi;
                        Z b = 40;
                        if (l < -b && h > b) { tr.defs.push_back(tr.le(tr.num(-b), tr.atom(a))); tr.defs.push_back(tr.le(tr.atom(a), tr.num(b))); }
                        else if (h - l > 2 * b) { tr.defs.push_back(tr.le(tr.atom(a), tr.num(l + 2 * b))); }
                    }
            }
            tr.flushDefs();
            for (auto a : as) z3.Z3_solver_assert(tr.c, tr.s, a);
            Z3_lbool r = z3.Z3_solver_check(tr.c, tr.s);
            std::string o;
            if (r == Z3_L_FALSE) o = k == 2 ? "K" : "U";
            else if (r == Z3_L_TRUE) {
                Model m; tr.readModel(z3.Z3_solver_get_model(tr.c, tr.s), m);
                o = "S";
                for (auto &x : m.v) o += " v" + std::to_string(x.first) + "=" + x.second.get_str();
                for (auto &x : m.bv) o += " b" + std::to_string(x.first) + "=" + (x.second ? "1" : "0");
            } else o = "K";
            o += "\n";
            size_t off = 0;
            while (off < o.size()) { ssize_t n = write(p[1], o.data() + off, o.size() - off); if (n <= 0) break; off += n; }
            _exit(0);
        }
        close(p[1]);
        fds[k] = p[0]; pids[k] = pid;
    }
    return collect(fds, pids, N, budget, out);
}

// Undecided: looks for a counterexample on slices, where enough inputs are fixed (to values of known models or any others) for the
// rest to be decided. A slice's answer only counts when it is a model that exact evaluation confirms.
static SatR huntCheck(const std::vector<B> &fs, const Model *near, Model &out, double budget) {
    std::set<uint32_t> leaves; std::set<const void *> sn;
    for (auto b : fs) leavesB(b, leaves, sn);
    std::vector<uint32_t> vars;
    for (auto a : leaves) if (g_atoms[a].kind == A_VAR && g_atoms[a].hi - g_atoms[a].lo > 1) vars.push_back(a);
    if (vars.size() < 2) return S_UNK;
    const int N = 4;
    int fds[N]; pid_t pids[N];
    for (int k = 0; k < N; k++) {
        int p[2];
        if (pipe(p)) { fds[k] = -1; pids[k] = -1; continue; }
        pid_t pid = fork();
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            signal(SIGALRM, SIG_DFL);
            limitMemory();
            close(p[0]);
            itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = (long)budget + 2; setitimer(ITIMER_REAL, &t, nullptr);
            uint64_t seed = 88172645463325252ull + 7919 * k;
            auto rnd = [&] { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; return seed; };
            double end = now() + budget;
            std::string o = "K";
            for (int slice = 0; now() < end && o == "K"; slice++) {
                std::vector<uint32_t> fixed;
                size_t keep = 1 + rnd() % (vars.size() <= 3 ? 1 : std::min<size_t>(vars.size() / 2, 3));
                std::vector<uint32_t> order = vars;
                for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[rnd() % i]);
                order.resize(order.size() - keep);
                std::vector<B> all = fs;
                unsigned how = rnd() % 3;
                for (auto a : order) {
                    const Atom &A = g_atoms[a];
                    Z span = A.hi - A.lo + 1, v;
                    if (near && near->v.count(a) && (how == 0 || (how == 1 && rnd() % 2))) v = near->v.at(a);
                    else {
                        Z r = 0;
                        for (int q = 0; q < 3; q++) { r <<= 48; r += (unsigned long)(rnd() & 0xffffffffffffull); }
                        mpz_fdiv_r(v.get_mpz_t(), r.get_mpz_t(), span.get_mpz_t());
                        v += A.lo;
                    }
                    all.push_back(bEq(pAddC(pAtom(a), -v)));
                }
                for (int round = 0; round < 12 && now() < end; round++) {
                    Tr tr; tr.open(false, nullptr);
                    Z3_params ps = z3.Z3_mk_params(tr.c); z3.Z3_params_inc_ref(tr.c, ps);
                    z3.Z3_params_set_uint(tr.c, ps, z3.Z3_mk_string_symbol(tr.c, "timeout"), 1500);
                    z3.Z3_params_set_uint(tr.c, ps, z3.Z3_mk_string_symbol(tr.c, "random_seed"), (unsigned)(rnd() % 1000));
                    z3.Z3_solver_set_params(tr.c, tr.s, ps);
                    std::vector<Z3_ast> as;
                    for (auto b : all) as.push_back(tr.boolean(b));
                    tr.flushDefs();
                    for (auto a : as) z3.Z3_solver_assert(tr.c, tr.s, a);
                    if (z3.Z3_solver_check(tr.c, tr.s) != Z3_L_TRUE) break;
                    Model m; tr.readModel(z3.Z3_solver_get_model(tr.c, tr.s), m);
                    if (evalAll(all, m)) {
                        o = "S";
                        for (auto &x : m.v) o += " v" + std::to_string(x.first) + "=" + x.second.get_str();
                        for (auto &x : m.bv) o += " b" + std::to_string(x.first) + "=" + (x.second ? "1" : "0");
                        break;
                    }
                    auto pl = pointLemmas(all, m);
                    if (pl.empty()) break;
                    all.insert(all.end(), pl.begin(), pl.end());
                }
            }
            o += "\n";
            size_t off = 0;
            while (off < o.size()) { ssize_t n = write(p[1], o.data() + off, o.size() - off); if (n <= 0) break; off += n; }
            _exit(0);
        }
        close(p[1]);
        fds[k] = p[0]; pids[k] = pid;
    }
    return collect(fds, pids, N, budget + 1, out);
}

SatR Solver::check(B extra, Model *out, double budget, bool hunt) {
    extra = reduce(extra);
    if (extra == bFalse) { g_ss.factHits++; return S_UNSAT; }
    if (haveModel) {
        if (extra == bTrue || evalModel(extra)) { g_ss.modelHits++; if (out) *out = model; return S_SAT; }
    }
    for (auto &a : alts)
        if (Evaluator(&a).boolean(extra)) { g_ss.modelHits++; if (out) *out = a; return S_SAT; }
    double t0 = now();
    if (t0 > g_deadline) return S_UNK;
    g_ss.queries++;
    std::vector<B> all = pc;
    all.push_back(extra);
    SatR r = S_UNK;
    std::vector<B> lemmas;
    bool any = false; // sat candidates that failed exact evaluation
    for (int round = 0; round < 12 && now() < g_deadline; round++) {
        Z3_ast z = g_tr.boolean(extra);
        std::vector<Z3_ast> lz;
        for (auto l : lemmas) lz.push_back(g_tr.boolean(l));
        g_tr.flushDefs();
        z3.Z3_solver_push(g_tr.c, g_tr.s);
        z3.Z3_solver_assert(g_tr.c, g_tr.s, z);
        for (auto l : lz) z3.Z3_solver_assert(g_tr.c, g_tr.s, l);
        g_intrCtx = g_tr.c;
        startTimer(std::max(0.05, std::min(g_softTimeout, g_deadline - now())));
        Z3_lbool lb = z3.Z3_solver_check(g_tr.c, g_tr.s);
        stopTimer();
        Model m;
        std::vector<Z3_ast> perm;
        if (lb == Z3_L_TRUE) {
            Z3_model zm = z3.Z3_solver_get_model(g_tr.c, g_tr.s);
            if (zm) {
                z3.Z3_model_inc_ref(g_tr.c, zm);
                g_tr.readModel(zm, m);
                int n = 0;
                for (auto &p : g_tr.prods) {
                    Z a, b, r;
                    if (n > 60 || !g_tr.evalZ(zm, p.u, a) || !g_tr.evalZ(zm, p.v, b) || !g_tr.evalZ(zm, p.r, r) || r == a * b) continue;
                    if (p.lemmas++ == 0) g_tr.tangent(p, 0, 0, perm);
                    bool sg = sgn(r) == sgn(a) * sgn(b);
                    if (sg || p.lemmas > 1) { g_tr.tangent(p, a, b, perm); n++; }
                }
                z3.Z3_model_dec_ref(g_tr.c, zm);
            }
        }
        z3.Z3_solver_pop(g_tr.c, g_tr.s, 1);
        if (lb == Z3_L_FALSE) { r = S_UNSAT; break; }
        if (lb == Z3_L_UNDEF) { r = S_UNK; break; }
        if (evalAll(all, m)) { r = S_SAT; if (out) *out = m; break; }
        any = true;
        // refine approximated atoms at this point; purely nonlinear failures go to the portfolio
        bool fz = false;
        for (auto b : all) if (boolIsFuzzy(b)) fz = true;
        if (fz && (round == 0 || round == 4)) {
            Model pm = m;
            if (probe(all, pm, 1500)) { r = S_SAT; if (out) *out = pm; break; }
        }
        for (auto x : perm) z3.Z3_solver_assert(g_tr.c, g_tr.s, x); // valid everywhere
        std::vector<B> pl;
        if (fz) pl = pointLemmas(all, m);
        if (getenv("SXE_DEBUG")) {
            fprintf(stderr, "round %d fz %d pl %zu perm %zu prods %zu\n", round, fz, pl.size(), perm.size(), g_tr.prods.size());
            Evaluator e(&m);
            for (auto b : all) if (!e.boolean(b)) fprintf(stderr, "   false: %s\n", bStr(b).substr(0, 300).c_str());
            for (auto &x : m.v) fprintf(stderr, "   %s=%s", g_atoms[x.first].name.c_str(), x.second.get_str().c_str());
            fprintf(stderr, "\n");
        }
        if (pl.empty() && perm.empty()) { r = S_UNK; break; }
        lemmas.insert(lemmas.end(), pl.begin(), pl.end());
        r = S_UNK;
    }
    (void)any;
    if (r == S_UNK) {
        double b = budget > 0 ? budget : g_hardTimeout;
        double end = std::min(now() + b, g_deadline);
        for (int round = 0; round < 6 && now() < end; round++) {
            std::vector<B> fs = all;
            fs.insert(fs.end(), lemmas.begin(), lemmas.end());
            Model m;
            SatR h = hardCheck(fs, m, end - now());
            if (h == S_UNSAT) { r = S_UNSAT; break; }
            if (h == S_UNK) break;
            if (evalAll(all, m)) { r = S_SAT; if (out) *out = m; break; }
            auto pl = pointLemmas(all, m);
            if (pl.empty()) break;
            lemmas.insert(lemmas.end(), pl.begin(), pl.end());
        }
    }
    if (r == S_UNK && hunt) {
        static int hunts = 0;
        Model m;
        double left = std::min(hunts++ < 4 ? 8.0 : 1.0, g_deadline - now());
        if (left > 0.5 && huntCheck(all, haveModel ? &model : nullptr, m, left) == S_SAT && evalAll(all, m)) { r = S_SAT; if (out) *out = m; }
    }
    // an unsat answer under point lemmas is still an unsat answer: the lemmas are facts about the exact terms
    static const char *dbg = getenv("SXE_DEBUG_UNK");
    if (dbg && (r == S_UNK || now() - t0 > atof(dbg))) {
        std::string o = "=== " + std::string(r == S_UNK ? "UNK " : r == S_SAT ? "SAT " : "UNSAT ") + std::to_string(now() - t0) + "\n";
        for (auto b : all) o += "  " + bStr(b).substr(0, 700) + "\n";
        ssize_t w = write(2, o.data(), o.size()); (void)w;
    }
    g_ss.seconds += now() - t0;
    if (r == S_SAT && out) {
        static size_t next = 0;
        if (alts.size() < 16) alts.push_back(*out); else alts[next++ % 16] = *out;
    }
    if (r == S_UNSAT) g_ss.unsat++; else if (r == S_SAT) g_ss.sat++; else g_ss.unk++;
    return r;
}
bool Solver::prove(B b) {
    b = reduce(b);
    if (b == bTrue) return true;
    if (b == bFalse) return false;
    if (haveModel && !evalModel(b)) return false;
    Model m;
    SatR r = check(bNot(b), &m, 3);
    if (r == S_UNSAT) { addFact(b); return true; }
    return false;
}
