#include "term.h"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <set>

std::vector<Atom> g_atoms;

Z z_pow2(unsigned k) { Z r; mpz_ui_pow_ui(r.get_mpz_t(), 2, k); return r; }
Z z_from_u64(uint64_t v) { Z r; mpz_import(r.get_mpz_t(), 1, 1, 8, 0, 0, &v); return r; }
Z z_from_i64(int64_t v) { if (v >= 0) return z_from_u64((uint64_t)v); Z r = z_from_u64((uint64_t)(-(v + 1))); return -r - 1; }
Z z_from_u128(u128 v) { Z h = z_from_u64((uint64_t)(v >> 64)); return h * z_pow2(64) + z_from_u64((uint64_t)v); }
Z z_from_i128(i128 v) { if (v >= 0) return z_from_u128((u128)v); return z_from_u128((u128)v) - z_pow2(128); }
u128 z_to_u128(const Z &z) {
    Z m; mpz_fdiv_r_2exp(m.get_mpz_t(), z.get_mpz_t(), 128);
    uint64_t w[2] = {0, 0}; size_t n = 0;
    mpz_export(w, &n, -1, 8, 0, 0, m.get_mpz_t());
    return ((u128)w[1] << 64) | w[0];
}
std::string z_str(const Z &z) { return z.get_str(); }
static Z fdiv(const Z &a, const Z &b) { Z r; mpz_fdiv_q(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return r; }
static Z fmod_(const Z &a, const Z &b) { Z r; mpz_fdiv_r(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return r; }
static bool divisible(const Z &a, const Z &b) { return mpz_divisible_p(a.get_mpz_t(), b.get_mpz_t()); }
static size_t zhash(const Z &z) {
    size_t h = mpz_sgn(z.get_mpz_t()) < 0 ? 0x9e37 : 0x1;
    size_t n = mpz_size(z.get_mpz_t());
    for (size_t i = 0; i < n; i++) h = h * 1000003ull + mpz_getlimbn(z.get_mpz_t(), i);
    return h;
}

// ------------------------------------------------------------ polynomials
static std::unordered_multimap<size_t, P> g_polys;
static uint32_t g_polyId = 0;

static void monoBounds(const Mono &m, Z &lo, Z &hi) {
    lo = 1; hi = 1;
    for (size_t i = 0; i < m.size();) {
        size_t j = i;
        while (j < m.size() && m[j] == m[i]) j++;
        const Atom &a = g_atoms[m[i]];
        Z l = a.lo, h = a.hi;
        unsigned e = j - i;
        Z pl, ph;
        mpz_pow_ui(pl.get_mpz_t(), l.get_mpz_t(), e);
        mpz_pow_ui(ph.get_mpz_t(), h.get_mpz_t(), e);
        if (e % 2 == 0) {
            Z mx = std::max(pl, ph), mn = std::min(pl, ph);
            if (l <= 0 && h >= 0) mn = 0;
            pl = mn; ph = mx;
        }
        Z c[4] = {lo * pl, lo * ph, hi * pl, hi * ph};
        lo = *std::min_element(c, c + 4);
        hi = *std::max_element(c, c + 4);
        i = j;
    }
}
static P mkPoly(std::vector<PTerm> &&t) {
    size_t h = 0x1234567;
    for (auto &x : t) {
        for (auto a : x.m) h = h * 0x9E3779B97F4A7C15ull + a + 1;
        h = h * 0xC2B2AE3D27D4EB4Full + zhash(x.c);
    }
    auto r = g_polys.equal_range(h);
    for (auto i = r.first; i != r.second; ++i) {
        P p = i->second;
        if (p->t.size() != t.size()) continue;
        bool eq = true;
        for (size_t k = 0; k < t.size() && eq; k++) eq = p->t[k].m == t[k].m && p->t[k].c == t[k].c;
        if (eq) return p;
    }
    Poly *p = new Poly;
    p->t = std::move(t);
    p->hash = h;
    p->id = g_polyId++;
    p->lo = 0; p->hi = 0;
    for (auto &x : p->t) {
        if (x.m.empty()) { p->lo += x.c; p->hi += x.c; continue; }
        Z l, hh; monoBounds(x.m, l, hh);
        if (x.c > 0) { p->lo += x.c * l; p->hi += x.c * hh; } else { p->lo += x.c * hh; p->hi += x.c * l; }
    }
    g_polys.emplace(h, p);
    return p;
}
bool Poly::linear() const { for (auto &x : t) if (x.m.size() > 1) return false; return true; }
P pConst(const Z &z) { std::vector<PTerm> t; if (z != 0) t.push_back({{}, z}); return mkPoly(std::move(t)); }
P pAtom(uint32_t a) { std::vector<PTerm> t; t.push_back({{a}, Z(1)}); return mkPoly(std::move(t)); }

static bool congruent(P a, P b, const Z &m) {
    size_t i = 0, j = 0;
    while (i < a->t.size() || j < b->t.size()) {
        if (j >= b->t.size() || (i < a->t.size() && a->t[i].m < b->t[j].m)) { if (!mpz_divisible_p(a->t[i].c.get_mpz_t(), m.get_mpz_t())) return false; i++; }
        else if (i >= a->t.size() || b->t[j].m < a->t[i].m) { if (!mpz_divisible_p(b->t[j].c.get_mpz_t(), m.get_mpz_t())) return false; j++; }
        else { Z d = a->t[i].c - b->t[j].c; if (!mpz_divisible_p(d.get_mpz_t(), m.get_mpz_t())) return false; i++; j++; }
    }
    return true;
}
// merge a*EX(q,l,n) + a*2^n*EX(q,l+n,m) -> a*EX(q,l,n+m)
static P mergeEx(P p) {
    std::vector<size_t> ex;
    for (size_t i = 0; i < p->t.size(); i++)
        if (p->t[i].m.size() == 1 && g_atoms[p->t[i].m[0]].kind == A_EX) ex.push_back(i);
    if (ex.size() < 2) return p;
    for (size_t i : ex)
        for (size_t j : ex) {
            if (i == j) continue;
            const Atom &x = g_atoms[p->t[i].m[0]], &y = g_atoms[p->t[j].m[0]];
            if (y.exlo != x.exlo + x.exn) continue;
            if (p->t[j].c != p->t[i].c * z_pow2(x.exn)) continue;
            if (x.a != y.a && !congruent(x.a, y.a, z_pow2(y.exlo))) continue;
            Z c = p->t[i].c;
            P q = y.a; unsigned l = x.exlo, n = x.exn + y.exn;
            std::vector<PTerm> t;
            for (size_t k = 0; k < p->t.size(); k++) if (k != i && k != j) t.push_back(p->t[k]);
            P rest = mkPoly(std::move(t));
            return pAdd(rest, pScale(pEx(q, l, n), c));
        }
    return p;
}
static P addScaled(P a, P b, const Z &s) {
    std::vector<PTerm> t;
    t.reserve(a->t.size() + b->t.size());
    size_t i = 0, j = 0;
    while (i < a->t.size() || j < b->t.size()) {
        if (j >= b->t.size() || (i < a->t.size() && a->t[i].m < b->t[j].m)) t.push_back(a->t[i++]);
        else if (i >= a->t.size() || b->t[j].m < a->t[i].m) { t.push_back({b->t[j].m, Z(b->t[j].c * s)}); j++; }
        else {
            Z c = a->t[i].c + b->t[j].c * s;
            if (c != 0) t.push_back({a->t[i].m, c});
            i++; j++;
        }
    }
    return mergeEx(mkPoly(std::move(t)));
}
P pAdd(P a, P b) { if (a->t.empty()) return b; if (b->t.empty()) return a; return addScaled(a, b, 1); }
P pSub(P a, P b) { if (b->t.empty()) return a; return addScaled(a, b, -1); }
P pNeg(P a) { return pScale(a, -1); }
P pScale(P a, const Z &c) {
    if (c == 0) return pConst(0);
    if (c == 1) return a;
    std::vector<PTerm> t = a->t;
    for (auto &x : t) x.c *= c;
    return mkPoly(std::move(t));
}
P pAddC(P a, const Z &c) { return pAdd(a, pConst(c)); }
P pMul(P a, P b) {
    if (a->isConst()) return pScale(b, a->cst());
    if (b->isConst()) return pScale(a, b->cst());
    std::map<Mono, Z> m;
    for (auto &x : a->t)
        for (auto &y : b->t) {
            Mono k;
            k.reserve(x.m.size() + y.m.size());
            std::merge(x.m.begin(), x.m.end(), y.m.begin(), y.m.end(), std::back_inserter(k));
            // 0/1 atoms are idempotent
            Mono k2;
            for (size_t i = 0; i < k.size(); i++) {
                if (i && k[i] == k[i - 1]) { const Atom &at = g_atoms[k[i]]; if (at.lo == 0 && at.hi == 1) continue; }
                k2.push_back(k[i]);
            }
            m[k2] += x.c * y.c;
        }
    std::vector<PTerm> t;
    for (auto &x : m) if (x.second != 0) t.push_back({x.first, x.second});
    return mkPoly(std::move(t));
}
Z pContent(P a) {
    Z g = 0;
    for (auto &x : a->t) if (!x.m.empty()) mpz_gcd(g.get_mpz_t(), g.get_mpz_t(), x.c.get_mpz_t());
    return g;
}
static std::string atomStr(uint32_t a) {
    const Atom &x = g_atoms[a];
    switch (x.kind) {
    case A_VAR: case A_FRESH: return x.name;
    case A_ITE: return "ite(" + bStr(x.cond) + "," + pStr(x.a) + "," + pStr(x.b) + ")";
    case A_FDIV: return "fdiv(" + pStr(x.a) + "," + z_str(x.d) + ")";
    case A_EX: return "ex(" + pStr(x.a) + "," + std::to_string(x.exlo) + "," + std::to_string(x.exn) + ")";
    case A_UF: return "uf" + std::to_string(x.uf) + "(" + pStr(x.a) + "," + pStr(x.b) + ")";
    case A_FP2INT: return "fp2int#" + std::to_string(a);
    }
    return "?";
}
std::string pStr(P p) {
    if (p->t.empty()) return "0";
    std::string s;
    for (auto &x : p->t) {
        if (!s.empty()) s += " + ";
        s += z_str(x.c);
        for (auto a : x.m) s += "*" + atomStr(a);
        if (s.size() > 4000) return s + "...";
    }
    return s;
}

// ------------------------------------------------------------ atoms
uint32_t mkVar(const std::string &name, const Z &lo, const Z &hi, bool input) {
    Atom a; a.kind = A_VAR; a.name = name; a.lo = lo; a.hi = hi; a.isInput = input;
    g_atoms.push_back(a);
    return g_atoms.size() - 1;
}
uint32_t mkFresh(const std::string &name, const Z &lo, const Z &hi) {
    Atom a; a.kind = A_FRESH; a.name = name + "#" + std::to_string(g_atoms.size()); a.lo = lo; a.hi = hi;
    g_atoms.push_back(a);
    return g_atoms.size() - 1;
}
struct AKey {
    int k; const void *x, *y, *z; std::string s;
    bool operator<(const AKey &o) const { return std::tie(k, x, y, z, s) < std::tie(o.k, o.x, o.y, o.z, o.s); }
};
static std::map<AKey, uint32_t> g_atomMap;
static uint32_t internAtom(const AKey &k, Atom &&a) {
    auto it = g_atomMap.find(k);
    if (it != g_atomMap.end()) return it->second;
    g_atoms.push_back(std::move(a));
    return g_atomMap[k] = g_atoms.size() - 1;
}
P pIte(B c, P a, P b) {
    if (c == bTrue || a == b) return a;
    if (c == bFalse) return b;
    if (c->k == B_NOT) return pIte(c->args[0], b, a);
    P d = pSub(a, b);
    if (d->isConst() && !(d->cst() == 1 && b->isConst() && b->cst() == 0))
        return pAdd(b, pScale(pIte(c, pConst(1), pConst(0)), d->cst()));
    Atom x; x.kind = A_ITE; x.cond = c; x.a = a; x.b = b; x.lo = std::min(a->lo, b->lo); x.hi = std::max(a->hi, b->hi);
    return pAtom(internAtom({A_ITE, c, a, b, ""}, std::move(x)));
}
P pFdiv(P a, const Z &d) {
    if (d == 1) return a;
    if (a->isConst()) return pConst(fdiv(a->cst(), d));
    std::vector<PTerm> q, r;
    for (auto &x : a->t) {
        if (x.m.empty()) {
            Z f = fdiv(x.c, d), m = fmod_(x.c, d);
            if (f != 0) q.push_back({{}, f});
            if (m != 0) r.push_back({{}, m});
        } else if (divisible(x.c, d)) q.push_back({x.m, Z(x.c / d)});
        else r.push_back(x);
    }
    P Qp = mkPoly(std::move(q)), R = mkPoly(std::move(r));
    Z fl = fdiv(R->lo, d), fh = fdiv(R->hi, d);
    if (fl == fh) return pAddC(Qp, fl);
    unsigned k = mpz_scan1(d.get_mpz_t(), 0);
    if (d == z_pow2(k) && R->lo >= 0) {
        unsigned bits = mpz_sizeinbase(R->hi.get_mpz_t(), 2);
        return pAdd(Qp, pEx(R, k, bits - k));
    }
    Atom x; x.kind = A_FDIV; x.a = R; x.d = d; x.lo = fl; x.hi = fh;
    return pAdd(Qp, pAtom(internAtom({A_FDIV, R, nullptr, nullptr, z_str(d)}, std::move(x))));
}
// an equal polynomial modulo 2^w, with whole multiples of 2^w removed
P pMod(P a, unsigned w) {
    Z M = z_pow2(w);
    for (int round = 0; round < 20; round++) {
        P r = pConst(0);
        std::vector<PTerm> t; bool ch = false;
        P add = nullptr;
        for (auto &x : a->t) {
            if (!x.m.empty() && divisible(x.c, M)) { ch = true; continue; }
            if (x.m.size() == 1) {
                const Atom &A = g_atoms[x.m[0]];
                if (A.kind == A_EX && A.exlo == 0 && divisible(Z(x.c * z_pow2(A.exn)), M)) {
                    P s = pScale(A.a, x.c);
                    add = add ? pAdd(add, s) : s;
                    ch = true;
                    continue;
                }
            }
            t.push_back(x);
        }
        if (!ch) return a;
        (void)r;
        a = mkPoly(std::move(t));
        if (add) a = pAdd(a, add);
    }
    return a;
}
P pEx(P a, unsigned lo, unsigned n) {
    if (n == 0) return pConst(0);
    if (!(a->lo >= 0 && a->hi < z_pow2(lo + n))) { P m = pMod(a, lo + n); if (m != a) return pEx(m, lo, n); }
    Z M = z_pow2(lo + n), L = z_pow2(lo), N = z_pow2(n);
    if (a->isConst()) return pConst(fmod_(fdiv(a->cst(), L), N));
    // drop multiples of 2^(lo+n)
    {
        std::vector<PTerm> t; bool ch = false;
        for (auto &x : a->t) {
            if (x.m.empty()) { Z c = fmod_(x.c, M); if (c != x.c) ch = true; if (c != 0) t.push_back({{}, c}); }
            else if (divisible(x.c, M)) ch = true;
            else t.push_back(x);
        }
        // only when this does not lose a useful range
        if (ch) {
            P b = mkPoly(std::move(t));
            if (!(a->lo >= 0 && a->hi < M) ) return pEx(b, lo, n);
            bool onlyConstShift = false; (void)onlyConstShift;
            if (b->lo >= 0 && b->hi < M) return pEx(b, lo, n);
        }
    }
    Z fl = fdiv(a->lo, L), fh = fdiv(a->hi, L);
    if (fl == fh) return pConst(fmod_(fl, N));
    if (fdiv(fl, N) == fdiv(fh, N)) { // no wrap: floor(a/L) - const
        Z off = fdiv(fl, N) * N;
        if (lo == 0) return pAddC(a, -off);
    }
    // a = 2^k*B + A with 0 <= A < 2^k: the two parts do not overlap
    {
        std::set<unsigned> ks;
        for (auto &x : a->t) { unsigned k = mpz_scan1(x.c.get_mpz_t(), 0); if (k > 0 && k < lo + n) ks.insert(k); }
        if (lo > 0) ks.insert(lo);
        for (unsigned k : ks) {
            Z K = z_pow2(k);
            std::vector<PTerm> A, Bq;
            for (auto &x : a->t) {
                if (x.m.empty()) {
                    Z c = fmod_(x.c, K), f = fdiv(x.c, K);
                    if (c != 0) A.push_back({{}, c});
                    if (f != 0) Bq.push_back({{}, f});
                } else if (divisible(x.c, K)) Bq.push_back({x.m, Z(x.c / K)});
                else A.push_back(x);
            }
            if (Bq.empty()) continue;
            P pa = mkPoly(std::move(A)), pb = mkPoly(std::move(Bq));
            if (Z c0 = fdiv(pa->lo, K); c0 == fdiv(pa->hi, K)) {
                if (c0 != 0) { pa = pAddC(pa, -c0 * K); pb = pAddC(pb, c0); }
            } else if (pa->lo >= -K && pa->hi < K) { // the lower part may borrow once
                pb = pAdd(pb, pIte(bLt(pa, pConst(0)), pConst(Z(-1)), pConst(Z(0))));
            } else continue;
            if (k <= lo) return pEx(pb, lo - k, n);
            unsigned ln = k - lo; // < n
            if (pa->t.empty() && lo == 0) { return pScale(pEx(pb, 0, n - ln), K); }
            if (pb->t.empty()) continue;
            return pAdd(pEx(pa, lo, ln), pScale(pEx(pb, 0, n - ln), z_pow2(ln)));
        }
    }
    if (a->t.size() == 1 && a->t[0].c == 1 && a->t[0].m.size() == 1) {
        Atom x = g_atoms[a->t[0].m[0]];
        if (x.kind == A_EX) {
            if (lo >= x.exn) return pConst(0);
            unsigned nn = std::min(n, x.exn - lo);
            return pEx(x.a, x.exlo + lo, nn);
        }
        if (x.kind == A_ITE) return pIte(x.cond, pEx(x.a, lo, n), pEx(x.b, lo, n));
    }
    Atom x; x.kind = A_EX; x.a = a; x.exlo = lo; x.exn = n; x.lo = 0; x.hi = N - 1;
    if (fl >= 0 && fh < N) { x.lo = fl; x.hi = fh; }
    return pAtom(internAtom({A_EX, a, (void *)(uintptr_t)lo, (void *)(uintptr_t)n, ""}, std::move(x)));
}
P pUf(UfOp op, unsigned w, P a, P b, const Z &lo, const Z &hi) {
    if ((op == UF_XOR || op == UF_AND || op == UF_OR) && b->id < a->id) std::swap(a, b);
    if (op == UF_XOR && a == b) return pConst(0);
    Atom x; x.kind = A_UF; x.uf = op; x.width = w; x.a = a; x.b = b; x.lo = lo; x.hi = hi;
    return pAtom(internAtom({A_UF, a, b, nullptr, std::to_string(op) + ":" + std::to_string(w)}, std::move(x)));
}
P pFp2Int(F f, RoundMode rm, const Z &lo, const Z &hi) {
    Atom x; x.kind = A_FP2INT; x.fp = f; x.rm = rm; x.lo = lo; x.hi = hi;
    return pAtom(internAtom({A_FP2INT, f, (void *)(uintptr_t)rm, nullptr, z_str(lo) + "," + z_str(hi)}, std::move(x)));
}

// ------------------------------------------------------------ booleans
static uint32_t g_boolId = 0;
static BoolT *rawB(BKind k) { BoolT *b = new BoolT; b->k = k; b->id = g_boolId++; return b; }
B bTrue = rawB(B_TRUE), bFalse = rawB(B_FALSE);
static std::unordered_map<P, B> g_le, g_eq;
static std::unordered_map<B, B> g_not;
static std::map<std::pair<int, std::vector<B>>, B> g_nary;

static P substAtom(P p, uint32_t a, P by) {
    P r = pConst(0);
    std::vector<PTerm> keep;
    for (auto &x : p->t) {
        unsigned e = std::count(x.m.begin(), x.m.end(), a);
        if (!e) { keep.push_back(x); continue; }
        Mono m2;
        for (auto y : x.m) if (y != a) m2.push_back(y);
        std::vector<PTerm> t1; t1.push_back({m2, x.c});
        P q = mkPoly(std::move(t1));
        for (unsigned i = 0; i < e; i++) q = pMul(q, by);
        r = pAdd(r, q);
    }
    return pAdd(mkPoly(std::move(keep)), r);
}
static bool liftable(const Atom &x) {
    if (x.kind == A_ITE) return true;
    if (x.kind == A_EX && x.exlo == 0) { Z N = z_pow2(x.exn); return x.a->lo >= -N && x.a->hi < N; }
    return false;
}
static int liftCandidate(P p, int &count) {
    std::set<uint32_t> s;
    for (auto &x : p->t) for (auto a : x.m) if (liftable(g_atoms[a])) s.insert(a);
    count = s.size();
    // prefer the newest atom (outermost)
    return s.empty() ? -1 : (int)*s.rbegin();
}
// x <= m + c for a floating term (may/must): formula num/den <= poly m + q (rational), den polynomial
static B realLe(P num, P den, P m, const Q &q) {
    // num/den <= m + q  <=>  den>0: num*qd <= (m*qd + qn)*den
    Z qd = q.get_den(), qn = q.get_num();
    P rhs = pMul(pAddC(pScale(m, qd), qn), den), lhs = pScale(num, qd);
    if (den->isConst()) return den->cst() > 0 ? bLe(lhs, rhs) : bLe(rhs, lhs);
    B pos = bLe(pSub(pConst(1), den));
    return bOr(bAnd(pos, bLe(lhs, rhs)), bAnd(bNot(pos), bLe(rhs, lhs)));
}
static B mkFuzzLe(P p, B mayT, B mayF) {
    if (mayF == bFalse) return bTrue;
    if (mayT == bFalse) return bFalse;
    if (mayT == bNot(mayF)) return mayT;
    static std::unordered_map<P, B> tab;
    auto it = tab.find(p);
    if (it != tab.end()) return it->second;
    BoolT *b = rawB(B_FUZZ);
    b->p = p; b->mayT = mayT; b->mayF = mayF;
    return tab[p] = b;
}
// p contains exactly one FP2INT atom, linear with coefficient +-1: decide p <= 0
static B fp2intLe(P p, uint32_t at, bool &done) {
    done = false;
    Z c = 0; std::vector<PTerm> rest;
    for (auto &x : p->t) {
        unsigned e = std::count(x.m.begin(), x.m.end(), at);
        if (!e) { rest.push_back(x); continue; }
        if (x.m.size() != 1) return nullptr;
        c = x.c;
    }
    if (c != 1 && c != -1) {
        // c*R + L <= 0 with constant L only
        bool cl = true; for (auto &x : rest) if (!x.m.empty()) cl = false;
        if (!cl) return nullptr;
        Z L = rest.empty() ? Z(0) : rest[0].c;
        done = true;
        if (c > 0) return bLe(pSub(pAtom(at), pConst(fdiv(-L, c))));
        return bLe(pSub(pConst(-fdiv(-L, -c)), pAtom(at))); // R >= ceil(L/-c)
    }
    Atom A = g_atoms[at];
    F f = A.fp;
    P L = mkPoly(std::move(rest));
    done = true;
    if (!f->abs) return mkFuzzLe(p, bTrue, bTrue);
    Q e = f->err;
    auto lower = [&](P m, const Q &q) { // num/den >= m + q
        return realLe(pNeg(f->num), f->den, pNeg(m), -q);
    };
    if (c == 1) { // R <= m
        P m = pNeg(L);
        if (A.rm == R_ROUND || A.rm == R_EVEN) return mkFuzzLe(p, realLe(f->num, f->den, m, Q(1, 2) + e), lower(m, Q(1, 2) - e));
        if (A.rm == R_FLOOR) return mkFuzzLe(p, realLe(f->num, f->den, m, Q(1) + e), lower(m, Q(1) - e));
        if (A.rm == R_CEIL) return mkFuzzLe(p, realLe(f->num, f->den, m, e), lower(m, -e));
        B nn = bLe(pNeg(m)); // m >= 0
        return mkFuzzLe(p, bOr(bAnd(nn, realLe(f->num, f->den, m, Q(1) + e)), bAnd(bNot(nn), realLe(f->num, f->den, m, e))),
                        bOr(bAnd(nn, lower(m, Q(1) - e)), bAnd(bNot(nn), lower(m, -e))));
    }
    // -R + L <= 0: R >= L: not (R <= L-1)
    P q = pAddC(pSub(pAtom(at), L), 1);
    return bNot(bLe(q));
}
static B simplifyLe(P p) {
    if (p->hi <= 0) return bTrue;
    if (p->lo > 0) return bFalse;
    Z g = pContent(p);
    if (g > 1) {
        Z c = p->cst();
        std::vector<PTerm> t;
        for (auto &x : p->t) if (!x.m.empty()) t.push_back({x.m, Z(x.c / g)});
        P q = mkPoly(std::move(t));
        return bLe(pAddC(q, -fdiv(-c, g)));
    }
    return nullptr;
}
static int g_liftDepth = 0;
// A xy + B x + C y + D with AD = BC: A p = (A x + C)(A y + B)
static bool factorBilinear(P p, const Z &shift, P &f, P &g, int &sign) {
    const PTerm *q = nullptr;
    if (p->t.size() > 4) return false;
    for (auto &x : p->t) {
        if (x.m.size() > 2) return false;
        if (x.m.size() == 2) { if (q) return false; q = &x; }
    }
    if (!q || q->m[0] == q->m[1]) return false;
    uint32_t X = q->m[0], Y = q->m[1];
    Z A = q->c, Bx = 0, Cy = 0, D = p->cst() - shift;
    for (auto &x : p->t)
        if (x.m.size() == 1) { if (x.m[0] == X) Bx = x.c; else if (x.m[0] == Y) Cy = x.c; else return false; }
    if (Z(A * D) != Z(Bx * Cy)) return false;
    if (Bx == 0 && Cy == 0) return false; // a monomial: handled as such
    f = pAddC(pScale(pAtom(X), A), Cy);
    g = pAddC(pScale(pAtom(Y), A), Bx);
    sign = A > 0 ? 1 : -1;
    return true;
}
B bLe(P p) {
    if (B s = simplifyLe(p)) return s;
    for (int strict = 0; strict < 2; strict++) {
        P f, g; int sg;
        if (!factorBilinear(p, Z(strict), f, g, sg)) continue;
        if (sg < 0) f = pNeg(f);
        // f g <= 0, or f g < 0
        P ng = pNeg(g), nf = pNeg(f);
        if (strict) return bOr(bAnd(bLe(pAddC(f, 1)), bLe(pAddC(ng, 1))), bAnd(bLe(pAddC(nf, 1)), bLe(pAddC(g, 1))));
        return bOr(bAnd(bLe(f), bLe(ng)), bAnd(bLe(nf), bLe(g)));
    }
    auto it = g_le.find(p);
    if (it != g_le.end()) return it->second;
    B res = nullptr;
    int cnt; int a = liftCandidate(p, cnt);
    if (a >= 0 && cnt <= 4 && g_liftDepth < 8) {
        Atom x = g_atoms[a];
        g_liftDepth++;
        if (x.kind == A_ITE) res = bIte(x.cond, bLe(substAtom(p, a, x.a)), bLe(substAtom(p, a, x.b)));
        else res = bIte(bLe(pAddC(x.a, 1)), bLe(substAtom(p, a, pAddC(x.a, z_pow2(x.exn)))), bLe(substAtom(p, a, x.a)));
        g_liftDepth--;
    } else {
        std::set<uint32_t> fps;
        for (auto &x : p->t) for (auto y : x.m) if (g_atoms[y].kind == A_FP2INT) fps.insert(y);
        if (fps.size() == 1) { bool done; B r = fp2intLe(p, *fps.begin(), done); if (done) res = r; }
    }
    if (!res) { BoolT *b = rawB(B_LE); b->p = p; res = b; }
    g_le[p] = res;
    return res;
}
B bEq(P p) {
    if (p->isConst()) return p->cst() == 0 ? bTrue : bFalse;
    if (p->lo > 0 || p->hi < 0) return bFalse;
    Z g = pContent(p);
    if (g > 1) {
        if (!divisible(p->cst(), g)) return bFalse;
        std::vector<PTerm> t;
        for (auto &x : p->t) t.push_back({x.m, Z(x.c / g)});
        p = mkPoly(std::move(t));
    }
    { P f, h; int sg; if (factorBilinear(p, Z(0), f, h, sg)) return bOr(bEq(f), bEq(h)); }
    // sign normalise by the first non-constant term
    for (auto &x : p->t) if (!x.m.empty()) { if (x.c < 0) p = pNeg(p); break; }
    auto it = g_eq.find(p);
    if (it != g_eq.end()) return it->second;
    B res = nullptr;
    if (p->t.size() == 1 && p->t[0].m.size() == 1) { // a|b == 0, a^b == 0
        const Atom A = g_atoms[p->t[0].m[0]];
        if (A.kind == A_UF && A.uf == UF_OR) res = bAnd(bEq(pEx(A.a, 0, A.width)), bEq(pEx(A.b, 0, A.width)));
        if (A.kind == A_UF && A.uf == UF_XOR) res = bEq(pSub(pEx(A.a, 0, A.width), pEx(A.b, 0, A.width)));
        if (res) return g_eq[p] = res;
    }
    // digit split
    for (unsigned k : {32u, 16u, 8u, 24u}) {
        Z M = z_pow2(k);
        std::vector<PTerm> A, H;
        for (auto &x : p->t) { if (x.m.empty()) continue; if (divisible(x.c, M)) H.push_back(x); else A.push_back(x); }
        if (H.empty() || A.empty()) continue;
        Z c = p->cst();
        P a0 = mkPoly(std::move(A)), h0 = mkPoly(std::move(H));
        for (int s = 0; s < 2 && !res; s++) {
            Z cl = fmod_(c, M) - (s ? M : Z(0));
            P a1 = pAddC(a0, cl);
            if (a1->lo > -M && a1->hi < M) res = bAnd(bEq(a1), bEq(pAddC(h0, c - cl)));
        }
        if (res) break;
    }
    if (!res) {
        // EX(q1,0,n) - EX(q2,0,n) and EX(q,0,n) - c
        std::vector<PTerm> nc;
        for (auto &x : p->t) if (!x.m.empty()) nc.push_back(x);
        auto exOk = [](const PTerm &x, Z &lo, Z &hi) {
            if (x.m.size() != 1) return false;
            const Atom &a = g_atoms[x.m[0]];
            return a.kind == A_EX && a.exlo == 0 && (lo = a.a->lo, hi = a.a->hi, hi - lo < z_pow2(a.exn));
        };
        Z l1, h1, l2, h2;
        if (nc.size() == 2 && p->cst() == 0 && nc[0].c == -nc[1].c && exOk(nc[0], l1, h1) && exOk(nc[1], l2, h2)) {
            const Atom x = g_atoms[nc[0].m[0]], y = g_atoms[nc[1].m[0]];
            if (x.exn == y.exn && h1 - l2 < z_pow2(x.exn) && h2 - l1 < z_pow2(x.exn)) res = bEq(pSub(x.a, y.a));
        } else if (nc.size() == 1 && exOk(nc[0], l1, h1) && (nc[0].c == 1 || nc[0].c == -1)) {
            const Atom x = g_atoms[nc[0].m[0]];
            Z v = -p->cst() * nc[0].c, N = z_pow2(x.exn);
            if (v < 0 || v >= N) res = bFalse;
            else { Z w = l1 + fmod_(v - l1, N); res = bEq(pAddC(x.a, -w)); }
        }
    }
    if (!res) {
        int cnt; int a = liftCandidate(p, cnt);
        if (a >= 0 && cnt <= 4 && g_liftDepth < 8) {
            Atom x = g_atoms[a];
            g_liftDepth++;
            if (x.kind == A_ITE) res = bIte(x.cond, bEq(substAtom(p, a, x.a)), bEq(substAtom(p, a, x.b)));
            else res = bIte(bLe(pAddC(x.a, 1)), bEq(substAtom(p, a, pAddC(x.a, z_pow2(x.exn)))), bEq(substAtom(p, a, x.a)));
            g_liftDepth--;
        } else {
            for (auto &x : p->t) for (auto y : x.m) if (g_atoms[y].kind == A_FP2INT && !res) res = bAnd(bLe(p), bLe(pNeg(p)));
        }
    }
    if (!res) { BoolT *b = rawB(B_EQ); b->p = p; res = b; }
    g_eq[p] = res;
    return res;
}
B bNot(B a) {
    if (a == bTrue) return bFalse;
    if (a == bFalse) return bTrue;
    if (a->k == B_NOT) return a->args[0];
    if (a->k == B_LE) return bLe(pSub(pConst(1), a->p));
    auto it = g_not.find(a);
    if (it != g_not.end()) return it->second;
    B r;
    if (a->k == B_AND || a->k == B_OR) {
        std::vector<B> v;
        for (auto x : a->args) v.push_back(bNot(x));
        r = a->k == B_AND ? bOrN(v) : bAndN(v);
    } else { BoolT *b = rawB(B_NOT); b->args.push_back(a); r = b; }
    g_not[a] = r;
    return r;
}
static B nary(bool isAnd, std::vector<B> v) {
    B unit = isAnd ? bTrue : bFalse, zero = isAnd ? bFalse : bTrue;
    std::vector<B> f;
    for (auto x : v) {
        if (x == zero) return zero;
        if (x == unit) continue;
        if (x->k == (isAnd ? B_AND : B_OR)) f.insert(f.end(), x->args.begin(), x->args.end());
        else f.push_back(x);
    }
    std::sort(f.begin(), f.end(), [](B a, B b) { return a->id < b->id; });
    f.erase(std::unique(f.begin(), f.end()), f.end());
    if (f.empty()) return unit;
    if (f.size() == 1) return f[0];
    // complementary literals
    std::set<B> s(f.begin(), f.end());
    for (auto x : f) if ((x->k == B_LE || x->k == B_NOT || x->k == B_EQ || x->k == B_VAR || x->k == B_FUZZ) && s.count(bNot(x))) return zero;
    // (x and (not x or y)) -> x and y ; dual
    bool changed = false;
    for (auto &x : f) {
        if (x->k != (isAnd ? B_OR : B_AND)) continue;
        std::vector<B> keep; bool absorbed = false, ch = false;
        for (auto y : x->args) {
            if (s.count(y)) { absorbed = true; break; }
            if ((y->k == B_LE || y->k == B_NOT || y->k == B_EQ || y->k == B_VAR || y->k == B_FUZZ) && s.count(bNot(y))) { ch = true; continue; }
            keep.push_back(y);
        }
        if (absorbed) { x = unit; changed = true; }
        else if (ch) { x = isAnd ? bOrN(keep) : bAndN(keep); changed = true; }
    }
    if (changed) return nary(isAnd, f);
    auto key = std::make_pair((int)isAnd, f);
    auto it = g_nary.find(key);
    if (it != g_nary.end()) return it->second;
    BoolT *b = rawB(isAnd ? B_AND : B_OR);
    b->args = f;
    return g_nary[key] = b;
}
B bAndN(std::vector<B> v) { return nary(true, std::move(v)); }
B bOrN(std::vector<B> v) { return nary(false, std::move(v)); }
B bAnd(B a, B b) { return nary(true, {a, b}); }
B bOr(B a, B b) { return nary(false, {a, b}); }
B bIte(B c, B a, B b) {
    if (c == bTrue || a == b) return a;
    if (c == bFalse) return b;
    return bOr(bAnd(c, a), bAnd(bNot(c), b));
}
B bXor(B a, B b) { return bIte(a, bNot(b), b); }
B bVar(const std::string &name) { BoolT *b = rawB(B_VAR); b->name = name; return b; }
std::string bStr(B b) {
    switch (b->k) {
    case B_TRUE: return "true";
    case B_FALSE: return "false";
    case B_LE: return "(" + pStr(b->p) + " <= 0)";
    case B_EQ: return "(" + pStr(b->p) + " == 0)";
    case B_VAR: return b->name;
    case B_FUZZ: return "fuzz#" + std::to_string(b->id) + (b->p ? "[" + pStr(b->p) + "<=0]" : "") ;
    case B_NOT: return "!" + bStr(b->args[0]);
    default: {
        std::string s = b->k == B_AND ? "(and" : "(or";
        for (auto x : b->args) { s += " " + bStr(x); if (s.size() > 6000) return s + "..."; }
        return s + ")";
    }
    }
}
static std::unordered_map<B, bool> g_fuzzy;
static bool polyFuzzy(P p, int d) {
    for (auto &x : p->t) for (auto a : x.m) {
        const Atom A = g_atoms[a];
        if (A.kind == A_FP2INT || A.kind == A_UF) return true;
        if (A.kind == A_ITE && (boolIsFuzzy(A.cond) || (d < 6 && (polyFuzzy(A.a, d + 1) || polyFuzzy(A.b, d + 1))))) return true;
        if ((A.kind == A_EX || A.kind == A_FDIV) && d < 6 && polyFuzzy(A.a, d + 1)) return true;
    }
    return false;
}
bool boolIsFuzzy(B b) {
    auto it = g_fuzzy.find(b);
    if (it != g_fuzzy.end()) return it->second;
    bool r = false;
    if (b->k == B_FUZZ) r = true;
    else if (b->p) r = polyFuzzy(b->p, 0);
    for (auto x : b->args) r = r || boolIsFuzzy(x);
    g_fuzzy[b] = r;
    return r;
}

// ------------------------------------------------------------ floating point
static std::map<std::string, F> g_fp;
static uint32_t g_fpId = 0;
static Q qPow2(int k) { return k >= 0 ? Q(z_pow2(k)) : Q(Z(1), z_pow2(-k)); }
static Q qAbsMax(const Q &a, const Q &b) { Q x = abs(a), y = abs(b); return x > y ? x : y; }
static Q qUp(const Q &x) { // round an error bound up to 24 bits
    if (x == 0) return x;
    Z n = x.get_num(), d = x.get_den();
    long k = (long)mpz_sizeinbase(n.get_mpz_t(), 2) - (long)mpz_sizeinbase(d.get_mpz_t(), 2);
    long sh = 24 - k; // x*2^sh ~ 2^24
    Q s = x * qPow2((int)sh);
    Z c; mpz_cdiv_q(c.get_mpz_t(), s.get_num_mpz_t(), s.get_den_mpz_t());
    return Q(c) * qPow2((int)-sh);
}
static bool isPow2(const Z &d) { return d > 0 && mpz_popcount(d.get_mpz_t()) == 1; }
static F internF(FpT &&t) {
    char buf[256];
    uint64_t cb; memcpy(&cb, &t.c, 8);
    snprintf(buf, sizeof buf, "%d|%lx|%p|%d|%p|%p|%p|%d|%p", t.op, (long)cb, (void *)t.p, t.sh, (void *)t.a, (void *)t.b, (void *)t.cond, t.rm, t.fn);
    auto it = g_fp.find(buf);
    if (it != g_fp.end()) return it->second;
    FpT *n = new FpT(std::move(t));
    n->id = g_fpId++;
    // cancel common factors with a constant denominator
    if (n->abs && n->den->isConst() && n->den->cst() != 1) {
        Z d = n->den->cst();
        if (d < 0) { d = -d; n->num = pNeg(n->num); }
        Z g = pContent(n->num);
        Z c = n->num->cst();
        mpz_gcd(g.get_mpz_t(), g.get_mpz_t(), c.get_mpz_t());
        mpz_gcd(g.get_mpz_t(), g.get_mpz_t(), d.get_mpz_t());
        if (g > 1) {
            std::vector<PTerm> tt;
            for (auto &x : n->num->t) tt.push_back({x.m, Z(x.c / g)});
            n->num = mkPoly(std::move(tt));
            d /= g;
        }
        n->den = pConst(d);
    }
    if (n->abs && n->den->isConst() && n->op != F_DIV) {
        Q lo(n->num->lo, n->den->cst()), hi(n->num->hi, n->den->cst());
        lo.canonicalize(); hi.canonicalize();
        lo -= n->err; hi += n->err;
        if (n->mlo == 0 && n->mhi == 0) { n->mlo = lo; n->mhi = hi; }
        else { if (lo > n->mlo) n->mlo = lo; if (hi < n->mhi) n->mhi = hi; }
    }
    return g_fp[buf] = n;
}
static Q qOfDouble(double d) { Q q; mpq_set_d(q.get_mpq_t(), d); return q; }
F fConst(double d) {
    FpT t; t.op = F_CONST; t.c = d;
    if (std::isfinite(d)) {
        Q q = qOfDouble(d);
        t.abs = true; t.num = pConst(q.get_num()); t.den = pConst(q.get_den()); t.err = 0; t.mlo = t.mhi = q;
    }
    return internF(std::move(t));
}
static void setAbs(FpT &t, P num, P den, const Q &err) { t.abs = true; t.num = num; t.den = den; t.err = err; }
// add the rounding error of one operation, unless the result is exactly representable
static void addRounding(FpT &t) {
    if (t.den->isConst()) {
        Z d = t.den->cst();
        P n = t.num;
        if (d < 0) { d = -d; n = pNeg(n); }
        // reduce
        Z g = pContent(n); Z c = n->cst();
        mpz_gcd(g.get_mpz_t(), g.get_mpz_t(), c.get_mpz_t());
        Z g2; mpz_gcd(g2.get_mpz_t(), g.get_mpz_t(), d.get_mpz_t());
        Z dd = g2 == 0 ? d : Z(d / g2);
        Z lim = z_pow2(53);
        // value = g * k / d with k integer: representable when |k| <= 2^53, g/d a power of two multiple
        if (t.err == 0 && isPow2(dd)) {
            Z mx = std::max(abs(n->lo), abs(n->hi));
            Z gg = g == 0 ? Z(1) : g;
            unsigned tz = mpz_scan1(gg.get_mpz_t(), 0);
            Z p2 = z_pow2(tz);
            if (mx / p2 <= lim) { t.num = n; t.den = pConst(d); return; }
        }
        Q m = qAbsMax(Q(n->lo, d), Q(n->hi, d));
        m.canonicalize();
        if (t.mlo != 0 || t.mhi != 0) { Q m2 = qAbsMax(t.mlo, t.mhi); if (m2 < m) m = m2; }
        t.err = qUp(t.err + (m + t.err) * qPow2(-53) + qPow2(-1070));
    } else {
        Q m = qAbsMax(t.mlo, t.mhi);
        t.err = qUp(t.err + (m + t.err) * qPow2(-53) + qPow2(-1070));
    }
}
F fFromInt(P p, bool) {
    if (p->isConst() ) {
        Z c = p->cst();
        if (abs(c) <= z_pow2(53)) return fConst(c.get_d());
    }
    FpT t; t.op = F_FROMINT; t.p = p;
    setAbs(t, p, pConst(1), 0);
    t.mlo = Q(p->lo); t.mhi = Q(p->hi);
    addRounding(t);
    t.mlo -= t.err; t.mhi += t.err;
    return internF(std::move(t));
}
F fDyadic(P p, int sh) {
    FpT t; t.op = F_DYADIC; t.p = p; t.sh = sh;
    setAbs(t, p, pConst(z_pow2(sh)), 0);
    return internF(std::move(t));
}
static double evalOp(FpOp op, double a, double b, void *fn) {
    switch (op) {
    case F_ADD: return a + b;
    case F_SUB: return a - b;
    case F_MUL: return a * b;
    case F_DIV: return a / b;
    case F_NEG: return -a;
    case F_SQRT: return sqrt(a);
    case F_TRUNC32: return (double)(float)a;
    case F_ATAN2: return atan2(a, b);
    case F_ABS: return fabs(a);
    case F_MIN: return fmin(a, b);
    case F_MAX: return fmax(a, b);
    case F_SIN: return sin(a);
    case F_COS: return cos(a);
    case F_LIBM1: return ((double (*)(double))fn)(a);
    case F_LIBM2: return ((double (*)(double, double))fn)(a, b);
    default: return 0;
    }
}
static double roundMode(double x, RoundMode rm) {
    switch (rm) {
    case R_TRUNC: return trunc(x);
    case R_ROUND: return round(x);
    case R_FLOOR: return floor(x);
    case R_CEIL: return ceil(x);
    default: return nearbyint(x);
    }
}
F fBin(FpOp op, F a, F b, std::function<bool(B)> prove) {
    if (a->op == F_CONST && b->op == F_CONST) return fConst(evalOp(op, a->c, b->c, nullptr));
    if (op == F_MUL && a->op == F_CONST) std::swap(a, b);
    if (op == F_MUL && b->op == F_CONST && a->abs) { // operands are finite
        if (b->c == 1) return a;
        if (b->c == 0) return fConst(0);
    }
    if (op == F_DIV && b->op == F_CONST && b->c == 1) return a;
    if (op == F_DIV && a->op == F_CONST && a->c == 0 && (b->op == F_FROMINT || b->op == F_DYADIC) && prove(bNot(bEq(b->p)))) return fConst(0);
    FpT t; t.op = op; t.a = a; t.b = b;
    if (a->abs && b->abs) {
        Q ma = qAbsMax(a->mlo, a->mhi), mb = qAbsMax(b->mlo, b->mhi);
        if (op == F_ADD || op == F_SUB) {
            P n2 = op == F_ADD ? b->num : pNeg(b->num);
            if (a->den == b->den) setAbs(t, pAdd(a->num, n2), a->den, a->err + b->err);
            else {
                // common denominator
                if (a->den->isConst() && b->den->isConst()) {
                    Z l; mpz_lcm(l.get_mpz_t(), a->den->cst().get_mpz_t(), b->den->cst().get_mpz_t());
                    setAbs(t, pAdd(pScale(a->num, l / a->den->cst()), pScale(n2, l / b->den->cst())), pConst(l), a->err + b->err);
                } else setAbs(t, pAdd(pMul(a->num, b->den), pMul(n2, a->den)), pMul(a->den, b->den), a->err + b->err);
            }
            if (op == F_ADD) { t.mlo = a->mlo + b->mlo; t.mhi = a->mhi + b->mhi; }
            else { t.mlo = a->mlo - b->mhi; t.mhi = a->mhi - b->mlo; }
            addRounding(t);
        } else if (op == F_MUL) {
            setAbs(t, pMul(a->num, b->num), pMul(a->den, b->den), ma * b->err + mb * a->err + a->err * b->err);
            Q c[4] = {a->mlo * b->mlo, a->mlo * b->mhi, a->mhi * b->mlo, a->mhi * b->mhi};
            t.mlo = *std::min_element(c, c + 4); t.mhi = *std::max_element(c, c + 4);
            if (a == b && t.mlo < 0) t.mlo = 0;
            if (t.num == t.den) { t.num = t.den = pConst(1); }
            addRounding(t);
        } else if (op == F_DIV && b->op == F_CONST && b->c != 0) {
            Q q = 1 / qOfDouble(b->c);
            setAbs(t, pScale(a->num, q.get_num()), pScale(a->den, q.get_den()), a->err * abs(q));
            t.mlo = std::min(Q(a->mlo * q), Q(a->mhi * q)); t.mhi = std::max(Q(a->mlo * q), Q(a->mhi * q));
            addRounding(t);
        } else if (op == F_DIV && a->op == F_FROMINT && b->op == F_FROMINT) {
            // both operands are correctly rounded integers: relative error; conversion and division are monotone
            if (prove(bNot(bEq(b->p)))) {
                Q mq = qAbsMax(Q(a->p->lo), Q(a->p->hi));
                P A = a->p, Bp = b->p;
                bool le1 = false;
                if (A == Bp) return fConst(1);
                if (A == pNeg(Bp)) return fConst(-1);
                if (prove(bLe(pIte(bLe(A), pNeg(A), A), pIte(bLe(Bp), pNeg(Bp), Bp)))) { mq = 1; le1 = true; }
                setAbs(t, A, Bp, 0);
                t.err = qUp(mq * 4 * qPow2(-53));
                t.mlo = -mq; t.mhi = mq;
                if (!le1) { t.mlo -= t.err; t.mhi += t.err; }
                B sp = bOr(bAnd(bLe(pNeg(A)), bLe(pAddC(pNeg(Bp), 1))), bAnd(bLe(A), bLe(pAddC(Bp, 1))));
                if (prove(sp)) t.mlo = 0;
                else if (prove(bOr(bAnd(bLe(A), bLe(pAddC(pNeg(Bp), 1))), bAnd(bLe(pNeg(A)), bLe(pAddC(Bp, 1)))))) t.mhi = 0;
            }
        } else if (op == F_DIV && a->den->isConst() && b->den->isConst()) {
            // |b| bounded away from zero?
            Q gran; bool nz = false;
            if (b->mlo > 0 || b->mhi < 0) { gran = std::min(Q(abs(b->mlo)), Q(abs(b->mhi))); nz = true; }
            else {
                // integer numerator nonzero on this path
                if (prove(bNot(bEq(b->num)))) {
                    Z g = pContent(b->num); Z c = b->num->cst(); mpz_gcd(g.get_mpz_t(), g.get_mpz_t(), c.get_mpz_t());
                    gran = Q(g, b->den->cst()); gran.canonicalize(); gran -= b->err; nz = gran > 0;
                }
            }
            if (nz) {
                P num = pMul(a->num, b->den), den = pMul(b->num, a->den);
                Q mq = ma / gran;
                // try |a| <= |b|
                P A = a->num, Bp = b->num;
                Z l; mpz_lcm(l.get_mpz_t(), a->den->cst().get_mpz_t(), b->den->cst().get_mpz_t());
                A = pScale(A, l / a->den->cst()); Bp = pScale(Bp, l / b->den->cst());
                if (mq > 1) {
                    B le1 = bLe(pIte(bLe(A), pNeg(A), A), pIte(bLe(Bp), pNeg(Bp), Bp));
                    if (prove(le1)) mq = 1 + (a->err + b->err) / gran;
                }
                if (num == den) setAbs(t, pConst(1), pConst(1), 0);
                else if (num == pNeg(den)) setAbs(t, pConst(-1), pConst(1), 0);
                else setAbs(t, num, den, 0);
                t.mlo = -mq; t.mhi = mq;
                Q gm = gran;
                t.err = (a->err + mq * b->err) / gm;
                // with relative errors of integers converted with rounding the bound above is coarse but sound
                if (!(t.num->isConst() && t.den->isConst() && t.err == 0)) {
                    t.err = qUp(t.err + (mq + t.err) * qPow2(-53) + qPow2(-1070));
                }
                t.mlo -= t.err; t.mhi += t.err;
            }
        } else if (op == F_MIN || op == F_MAX) {
            B c = fCmp(op == F_MIN ? 4 : 2, a, b);
            return fIte(c, a, b);
        }
    }
    return internF(std::move(t));
}
F fUn(FpOp op, F a) {
    if (a->op == F_CONST) return fConst(evalOp(op, a->c, 0, nullptr));
    if (op == F_TRUNC32 && a->op == F_TRUNC32) return a;
    FpT t; t.op = op; t.a = a;
    if (a->abs) {
        if (op == F_TRUNC32) {
            Q m = qAbsMax(a->mlo, a->mhi) + a->err;
            if (m < qPow2(127)) {
                Q e = (m + a->err) * qPow2(-24) + qPow2(-149);
                setAbs(t, a->num, a->den, qUp(a->err + e));
                t.mlo = a->mlo - e; t.mhi = a->mhi + e;
                if (a->mlo >= 0 && t.mlo < 0) t.mlo = 0;
            }
        }
        if (op == F_NEG) { setAbs(t, pNeg(a->num), a->den, a->err); t.mlo = -a->mhi; t.mhi = -a->mlo; }
        if (op == F_ABS && a->den->isConst()) {
            setAbs(t, pIte(bLe(a->num), pNeg(a->num), a->num), a->den, a->err);
            t.mlo = 0; t.mhi = qAbsMax(a->mlo, a->mhi);
        }
    }
    return internF(std::move(t));
}
F fLibm(FpOp op, void *fn, F a, F b) {
    if (a->op == F_CONST && (!b || b->op == F_CONST)) return fConst(evalOp(op, a->c, b ? b->c : 0, fn));
    FpT t; t.op = op; t.a = a; t.b = b; t.fn = fn;
    return internF(std::move(t));
}
F fIte(B c, F a, F b) {
    if (c == bTrue || a == b) return a;
    if (c == bFalse) return b;
    FpT t; t.op = F_ITE; t.cond = c; t.a = a; t.b = b;
    if (a->abs && b->abs && a->den->isConst() && b->den->isConst()) {
        Z l; mpz_lcm(l.get_mpz_t(), a->den->cst().get_mpz_t(), b->den->cst().get_mpz_t());
        setAbs(t, pIte(c, pScale(a->num, l / a->den->cst()), pScale(b->num, l / b->den->cst())), pConst(l), std::max(a->err, b->err));
        t.mlo = std::min(a->mlo, b->mlo); t.mhi = std::max(a->mhi, b->mhi);
    }
    return internF(std::move(t));
}
F fRound(F a, RoundMode rm) {
    if (a->op == F_CONST) return fConst(roundMode(a->c, rm));
    FpT t; t.op = F_ROUND; t.a = a; t.rm = rm;
    if (a->abs) {
        Z lo, hi;
        mpz_fdiv_q(lo.get_mpz_t(), a->mlo.get_num_mpz_t(), a->mlo.get_den_mpz_t());
        mpz_cdiv_q(hi.get_mpz_t(), a->mhi.get_num_mpz_t(), a->mhi.get_den_mpz_t());
        P r = fToInt(a, rm, lo, hi);
        setAbs(t, r, pConst(1), 0);
        t.mlo = Q(lo); t.mhi = Q(hi);
    }
    return internF(std::move(t));
}
P fToInt(F a, RoundMode rm, const Z &lo, const Z &hi) {
    if (a->op == F_CONST) return pConst(Z(roundMode(a->c, rm)));
    if (a->op == F_ROUND && a->abs) return a->num; // already integral
    if (a->abs && a->den->isConst()) {
        Z d = a->den->cst();
        std::vector<PTerm> t;
        for (auto &x : a->num->t) {
            Z c;
            if (x.m.empty() && (rm == R_FLOOR)) c = fdiv(x.c, d);
            else c = fdiv(2 * x.c + d, 2 * d); // nearest
            if (c != 0) t.push_back({x.m, c});
        }
        P q = mkPoly(std::move(t));
        P r = pSub(a->num, pScale(q, d));
        Q rl(r->lo, d), rh(r->hi, d);
        rl.canonicalize(); rh.canonicalize();
        rl -= a->err; rh += a->err;
        if (rl == 0 && rh == 0) return q;
        if ((rm == R_ROUND || rm == R_EVEN) && rl > Q(-1, 2) && rh < Q(1, 2)) return q;
        if (rm == R_FLOOR && rl >= 0 && rh < 1) return q;
        if (rm == R_TRUNC && q->lo >= 0 && rl >= 0 && rh < 1) return q;
        if (rm == R_TRUNC && q->hi <= 0 && rl > -1 && rh <= 0) return q;
    }
    Z l = lo, h = hi;
    if (a->abs) {
        Z ml, mh;
        mpz_fdiv_q(ml.get_mpz_t(), a->mlo.get_num_mpz_t(), a->mlo.get_den_mpz_t());
        mpz_cdiv_q(mh.get_mpz_t(), a->mhi.get_num_mpz_t(), a->mhi.get_den_mpz_t());
        if (ml > l) l = ml;
        if (mh < h) h = mh;
    }
    return pFp2Int(a, rm, l, h);
}
// monotone function of a single integer polynomial? returns +1/-1, 0 if not
static int monoOf(F f, P &p) {
    switch (f->op) {
    case F_FROMINT: case F_DYADIC: p = f->p; return 1;
    case F_NEG: return -monoOf(f->a, p);
    case F_ADD: case F_SUB:
        if (f->b->op == F_CONST) return monoOf(f->a, p);
        if (f->a->op == F_CONST) return f->op == F_ADD ? monoOf(f->b, p) : -monoOf(f->b, p);
        return 0;
    case F_MUL:
        if (f->b->op == F_CONST) return f->b->c > 0 ? monoOf(f->a, p) : f->b->c < 0 ? -monoOf(f->a, p) : 0;
        if (f->a->op == F_CONST) return f->a->c > 0 ? monoOf(f->b, p) : f->a->c < 0 ? -monoOf(f->b, p) : 0;
        return 0;
    case F_DIV:
        if (f->b->op == F_CONST) return f->b->c > 0 ? monoOf(f->a, p) : f->b->c < 0 ? -monoOf(f->a, p) : 0;
        return 0;
    case F_ROUND: case F_TRUNC32: return monoOf(f->a, p);
    default: return 0;
    }
}
static double evalMono(F f, const Z &v) {
    switch (f->op) {
    case F_CONST: return f->c;
    case F_FROMINT: { // correctly rounded conversion
        i128 x = (i128)z_to_u128(v); return (double)(int64_t)x == (double)x ? (double)(int64_t)x : (double)x; }
    case F_DYADIC: return ldexp((double)(int64_t)z_to_u128(v), -f->sh);
    case F_ROUND: return roundMode(evalMono(f->a, v), f->rm);
    default: return evalOp(f->op, f->a ? evalMono(f->a, v) : 0, f->b ? evalMono(f->b, v) : 0, f->fn);
    }
}
static bool sameShape(F a, F b) {
    if (a == b) return true;
    if (a->op != b->op || a->rm != b->rm || a->sh != b->sh) return false;
    if (a->op == F_CONST) return a->c == b->c;
    if (a->op == F_FROMINT || a->op == F_DYADIC) return true;
    if ((a->a == nullptr) != (b->a == nullptr) || (a->b == nullptr) != (b->b == nullptr)) return false;
    if (a->a && !sameShape(a->a, b->a)) return false;
    if (a->b && !sameShape(a->b, b->b)) return false;
    return true;
}
static B fuzzCmp(int pred, F a, F b, B mayT, B mayF) {
    if (mayF == bFalse) return bTrue;
    if (mayT == bFalse) return bFalse;
    static std::map<std::tuple<int, F, F>, B> tab;
    auto k = std::make_tuple(pred, a, b);
    auto it = tab.find(k);
    if (it != tab.end()) return it->second;
    BoolT *t = rawB(B_FUZZ);
    t->fa = a; t->fb = b; t->pred = pred; t->mayT = mayT; t->mayF = mayF;
    return tab[k] = t;
}
// a <= b
static B fLe(F a, F b) {
    if (a == b) return bTrue;
    if (a->op == F_CONST && b->op == F_CONST) return a->c <= b->c ? bTrue : bFalse;
    if (a->abs && b->op == F_CONST && std::isinf(b->c)) return b->c > 0 ? bTrue : bFalse; // values with a bound are finite
    if (b->abs && a->op == F_CONST && std::isinf(a->c)) return a->c < 0 ? bTrue : bFalse;
    P pa = nullptr, pb = nullptr;
    int da = monoOf(a, pa), db = monoOf(b, pb);
    if (da && b->op == F_CONST) {
        // a(x) <= c over the bounds of pa: binary search the threshold
        Z lo = pa->lo, hi = pa->hi;
        if (da > 0) { // true for small x
            if (evalMono(a, hi) <= b->c) return bTrue;
            if (!(evalMono(a, lo) <= b->c)) return bFalse;
            while (hi - lo > 1) { Z m = fdiv(lo + hi, 2); if (evalMono(a, m) <= b->c) lo = m; else hi = m; }
            return bLe(pAddC(pa, -lo));
        }
        if (evalMono(a, lo) <= b->c) return bTrue;
        if (!(evalMono(a, hi) <= b->c)) return bFalse;
        while (hi - lo > 1) { Z m = fdiv(lo + hi, 2); if (evalMono(a, m) <= b->c) hi = m; else lo = m; }
        return bLe(pSub(pConst(hi), pa));
    }
    if (db && a->op == F_CONST) {
        Z lo = pb->lo, hi = pb->hi;
        if (db > 0) { // c <= b(x): true for large x
            if (a->c <= evalMono(b, lo)) return bTrue;
            if (!(a->c <= evalMono(b, hi))) return bFalse;
            while (hi - lo > 1) { Z m = fdiv(lo + hi, 2); if (a->c <= evalMono(b, m)) hi = m; else lo = m; }
            return bLe(pSub(pConst(hi), pb));
        }
        if (a->c <= evalMono(b, hi)) return bTrue;
        if (!(a->c <= evalMono(b, lo))) return bFalse;
        while (hi - lo > 1) { Z m = fdiv(lo + hi, 2); if (a->c <= evalMono(b, m)) lo = m; else hi = m; }
        return bLe(pAddC(pb, -lo));
    }
    // the sign of a product or quotient of exactly known values is exact: nothing here underflows to zero
    auto signOf = [](F f, P &s, int &neg) {
        while (f->op == F_NEG) { f = f->a; neg = -neg; }
        if (f->op != F_DIV && f->op != F_MUL) return false;
        if (f->op == F_DIV && !f->abs) return false;
        F x = f->a, y = f->b;
        auto ok = [](F g) { return g->op == F_FROMINT || g->op == F_DYADIC || (g->op == F_CONST && std::isfinite(g->c) && (g->c == 0 || fabs(g->c) > 1e-100)); };
        if (!ok(x) || !ok(y)) return false;
        s = pMul(x->num, y->num);
        return true;
    };
    {
        P s; int neg = 1;
        if (b->op == F_CONST && b->c == 0 && signOf(a, s, neg)) return bLe(neg > 0 ? s : pNeg(s));
        if (a->op == F_CONST && a->c == 0 && signOf(b, s, neg)) return bLe(neg > 0 ? pNeg(s) : s);
    }
    if (a->abs && b->abs) {
        P num, den;
        if (a->den == b->den) { num = pSub(a->num, b->num); den = a->den; }
        else if (a->den->isConst() && b->den->isConst()) {
            Z l; mpz_lcm(l.get_mpz_t(), a->den->cst().get_mpz_t(), b->den->cst().get_mpz_t());
            num = pSub(pScale(a->num, l / a->den->cst()), pScale(b->num, l / b->den->cst())); den = pConst(l);
        } else { num = pSub(pMul(a->num, b->den), pMul(b->num, a->den)); den = pMul(a->den, b->den); }
        Q err = a->err + b->err;
        if (err == 0) {
            if (den->isConst()) return bLe(num);
            B pos = bLe(pSub(pConst(1), den));
            return bOr(bAnd(pos, bLe(num)), bAnd(bNot(pos), bLe(pNeg(num))));
        }
        if (da && db && da == db && sameShape(a, b) && den->isConst()) {
            // same monotone function of pa and pb; strictly separated when pa != pb
            Z g = pContent(num); Z c = num->cst(); mpz_gcd(g.get_mpz_t(), g.get_mpz_t(), c.get_mpz_t());
            Q step(g, den->cst()); step.canonicalize();
            if (step > err) return da > 0 ? bLe(pSub(pa, pb)) : bLe(pSub(pb, pa));
        }
        P zero = pConst(0);
        B mayT = realLe(num, den, zero, err), mayF = realLe(pNeg(num), den, zero, err);
        return fuzzCmp(5, a, b, mayT, mayF);
    }
    return fuzzCmp(5, a, b, bTrue, bTrue);
}
B fCmp(int pred, F a, F b) {
    switch (pred) {
    case 0: return bFalse;
    case 15: return bTrue;
    case 7: return bTrue;  // ord (no NaN)
    case 8: return bFalse; // uno
    case 5: case 13: return fLe(a, b);
    case 3: case 11: return fLe(b, a);
    case 4: case 12: return bNot(fLe(b, a));
    case 2: case 10: return bNot(fLe(a, b));
    case 1: case 9: return bAnd(fLe(a, b), fLe(b, a));
    case 6: case 14: return bNot(bAnd(fLe(a, b), fLe(b, a)));
    }
    return bTrue;
}

// ------------------------------------------------------------ evaluation
static Z evalUf(const Atom &x, const Z &av, const Z &bv) {
    unsigned w = x.width;
    u128 mask = w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1);
    u128 a = z_to_u128(av) & mask, b = z_to_u128(bv) & mask;
    auto sx = [&](u128 v) -> i128 { if (w < 128 && (v >> (w - 1)) & 1) v |= ~mask; return (i128)v; };
    u128 r = 0;
    switch (x.uf) {
    case UF_XOR: r = a ^ b; break;
    case UF_AND: r = a & b; break;
    case UF_OR: r = a | b; break;
    case UF_UDIV: r = b ? a / b : 0; break;
    case UF_UREM: r = b ? a % b : 0; break;
    case UF_SDIV: return b ? z_from_i128(sx(a) / sx(b)) : Z(0);
    case UF_SREM: return b ? z_from_i128(sx(a) % sx(b)) : Z(0);
    case UF_SHL: r = b < w ? (a << (unsigned)b) & mask : 0; break;
    case UF_LSHR: r = b < w ? a >> (unsigned)b : 0; break;
    case UF_ASHR: return z_from_i128(sx(a) >> (unsigned)(b < w ? b : w - 1));
    case UF_CTPOP: { for (unsigned i = 0; i < w; i++) r += (a >> i) & 1; break; }
    case UF_CTLZ: { unsigned i = 0; while (i < w && !((a >> (w - 1 - i)) & 1)) i++; r = i; break; }
    case UF_CTTZ: { unsigned i = 0; while (i < w && !((a >> i) & 1)) i++; r = i; break; }
    }
    return z_from_u128(r);
}
Z Evaluator::atom(uint32_t a) {
    auto it = am.find(a);
    if (it != am.end()) return it->second;
    const Atom x = g_atoms[a];
    Z r;
    switch (x.kind) {
    case A_VAR: case A_FRESH: {
        auto i = m->v.find(a);
        r = i != m->v.end() ? i->second : (x.lo > 0 ? x.lo : x.hi < 0 ? x.hi : Z(0));
        break;
    }
    case A_ITE: r = boolean(x.cond) ? poly(x.a) : poly(x.b); break;
    case A_FDIV: r = fdiv(poly(x.a), x.d); break;
    case A_EX: r = fmod_(fdiv(poly(x.a), z_pow2(x.exlo)), z_pow2(x.exn)); break;
    case A_UF: r = evalUf(x, poly(x.a), poly(x.b)); break;
    case A_FP2INT: { double d = roundMode(fp(x.fp), x.rm); r = std::isfinite(d) ? Z(d) : Z(0); break; }
    }
    am[a] = r;
    return r;
}
Z Evaluator::poly(P p) {
    if (p->isConst()) return p->cst();
    auto it = pm.find(p);
    if (it != pm.end()) return it->second;
    Z r = 0;
    for (auto &x : p->t) {
        Z c = x.c;
        for (auto a : x.m) c *= atom(a);
        r += c;
    }
    pm[p] = r;
    return r;
}
bool Evaluator::boolean(B b) {
    switch (b->k) {
    case B_TRUE: return true;
    case B_FALSE: return false;
    case B_LE: return poly(b->p) <= 0;
    case B_EQ: return poly(b->p) == 0;
    case B_VAR: { auto i = m->bv.find(b->id); return i != m->bv.end() && i->second; }
    case B_NOT: return !boolean(b->args[0]);
    default: break;
    }
    auto it = bm.find(b);
    if (it != bm.end()) return it->second;
    bool r;
    if (b->k == B_AND) { r = true; for (auto x : b->args) if (!boolean(x)) { r = false; break; } }
    else if (b->k == B_OR) { r = false; for (auto x : b->args) if (boolean(x)) { r = true; break; } }
    else { // FUZZ
        if (b->p) r = poly(b->p) <= 0;
        else r = fp(b->fa) <= fp(b->fb);
    }
    bm[b] = r;
    return r;
}
double Evaluator::fp(F f) {
    if (f->op == F_CONST) return f->c;
    auto it = fm.find(f);
    if (it != fm.end()) return it->second;
    double r;
    switch (f->op) {
    case F_FROMINT: { i128 v = (i128)z_to_u128(poly(f->p)); r = (v >= INT64_MIN && v <= INT64_MAX) ? (double)(int64_t)v : (double)v; break; }
    case F_DYADIC: r = ldexp((double)(int64_t)z_to_u128(poly(f->p)), -f->sh); break;
    case F_ITE: r = boolean(f->cond) ? fp(f->a) : fp(f->b); break;
    case F_ROUND: r = roundMode(fp(f->a), f->rm); break;
    default: r = evalOp(f->op, f->a ? fp(f->a) : 0, f->b ? fp(f->b) : 0, f->fn);
    }
    fm[f] = r;
    return r;
}
