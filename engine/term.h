// Symbolic terms: integer polynomials over atoms, boolean formulas, floating point terms.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <functional>
#include <gmpxx.h>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>

typedef mpz_class Z;
typedef mpq_class Q;
typedef unsigned __int128 u128;
typedef __int128 i128;

struct Poly;
struct BoolT;
struct FpT;
typedef const Poly *P;
typedef const BoolT *B;
typedef const FpT *F;

Z z_from_u64(uint64_t v);
Z z_from_i64(int64_t v);
Z z_from_u128(u128 v);
Z z_from_i128(i128 v);
u128 z_to_u128(const Z &z); // modulo 2^128
std::string z_str(const Z &z);
Z z_pow2(unsigned k);

enum AtomKind { A_VAR, A_ITE, A_FDIV, A_EX, A_UF, A_FP2INT, A_FRESH };
enum UfOp { UF_XOR, UF_AND, UF_OR, UF_UDIV, UF_UREM, UF_SDIV, UF_SREM, UF_SHL, UF_LSHR, UF_ASHR, UF_CTPOP, UF_CTLZ, UF_CTTZ };
enum RoundMode { R_TRUNC, R_ROUND, R_FLOOR, R_CEIL, R_EVEN };

struct Atom {
    AtomKind kind;
    std::string name; // VAR / FRESH
    Z lo, hi;
    B cond = nullptr;             // ITE
    P a = nullptr, b = nullptr;   // ITE branches / FDIV a by d / EX a
    Z d;                          // FDIV
    unsigned exlo = 0, exn = 0;   // EX
    UfOp uf = UF_XOR;             // UF
    unsigned width = 0;
    F fp = nullptr;               // FP2INT
    RoundMode rm = R_TRUNC;
    bool isInput = false;
};
extern std::vector<Atom> g_atoms;

typedef std::vector<uint32_t> Mono; // sorted atom ids, empty = 1
struct PTerm {
    Mono m;
    Z c;
};
struct Poly {
    std::vector<PTerm> t; // sorted by mono (empty first)
    Z lo, hi;
    uint32_t id;
    size_t hash;
    bool isConst() const { return t.empty() || (t.size() == 1 && t[0].m.empty()); }
    Z cst() const { return (!t.empty() && t[0].m.empty()) ? t[0].c : Z(0); }
    bool linear() const;
};

P pConst(const Z &z);
P pAtom(uint32_t a);
P pAdd(P a, P b);
P pSub(P a, P b);
P pNeg(P a);
P pMul(P a, P b);
P pScale(P a, const Z &c);
P pAddC(P a, const Z &c);
Z pContent(P a); // gcd of the non-constant coefficients (0 if constant)
std::string pStr(P p);

uint32_t mkVar(const std::string &name, const Z &lo, const Z &hi, bool input);
uint32_t mkFresh(const std::string &name, const Z &lo, const Z &hi);
P pIte(B c, P a, P b);
P pFdiv(P a, const Z &d); // floor(a/d), d>0
P pEx(P a, unsigned lo, unsigned n); // floor(a/2^lo) mod 2^n
P pMod(P a, unsigned w); // equal modulo 2^w
P pUf(UfOp op, unsigned width, P a, P b, const Z &lo, const Z &hi);
P pFp2Int(F f, RoundMode rm, const Z &lo, const Z &hi);

enum BKind { B_TRUE, B_FALSE, B_LE, B_EQ, B_VAR, B_FUZZ, B_AND, B_OR, B_NOT };
struct BoolT {
    BKind k;
    P p = nullptr;           // LE: p<=0, EQ: p==0
    std::vector<B> args;     // AND OR NOT
    std::string name;        // VAR
    F fa = nullptr, fb = nullptr; // FUZZ: comparison fa <pred> fb
    int pred = 0;
    B mayT = nullptr, mayF = nullptr; // FUZZ: implied by true / by false
    uint32_t id;
};
extern B bTrue, bFalse;
B bLe(P p); // p <= 0
B bEq(P p); // p == 0
inline B bLe(P a, P b) { return bLe(pSub(a, b)); }
inline B bLt(P a, P b) { return bLe(pAddC(pSub(a, b), 1)); }
inline B bEq(P a, P b) { return bEq(pSub(a, b)); }
B bNot(B a);
B bAnd(B a, B b);
B bOr(B a, B b);
B bAndN(std::vector<B> v);
B bOrN(std::vector<B> v);
B bIte(B c, B a, B b);
B bXor(B a, B b);
B bVar(const std::string &name);
std::string bStr(B b);

// Floating point terms: an exactly evaluable tree plus a sound abstraction num/den +- err over the reals.
enum FpOp { F_CONST, F_FROMINT, F_DYADIC, F_ADD, F_SUB, F_MUL, F_DIV, F_NEG, F_SQRT, F_ATAN2, F_ROUND, F_ABS, F_ITE, F_SIN, F_COS, F_MIN, F_MAX, F_LIBM1, F_LIBM2, F_TRUNC32 };
struct FpT {
    FpOp op;
    double c = 0;         // CONST
    P p = nullptr;        // FROMINT / DYADIC (p * 2^-sh)
    int sh = 0;
    F a = nullptr, b = nullptr;
    B cond = nullptr;
    RoundMode rm = R_TRUNC;
    void *fn = nullptr;   // LIBM
    bool abs = false;     // abstraction present
    P num = nullptr, den = nullptr; // den: constant polynomial > 0, or polynomial known nonzero
    Q err;                // absolute error bound
    Q mlo, mhi;           // bounds of the value (when abs)
    uint32_t id;
};
F fConst(double d);
F fFromInt(P p, bool isSigned);
F fDyadic(P p, int sh);
F fBin(FpOp op, F a, F b, std::function<bool(B)> prove);
F fUn(FpOp op, F a);
F fRound(F a, RoundMode rm);
F fIte(B c, F a, F b);
F fLibm(FpOp op, void *fn, F a, F b);
// comparison; pred as LLVM FCmp predicate (ordered/unordered treated alike, no NaN assumed)
B fCmp(int pred, F a, F b);
P fToInt(F a, RoundMode rm, const Z &lo, const Z &hi);

struct Model {
    std::unordered_map<uint32_t, Z> v;     // atom id (VAR / FRESH) -> value
    std::unordered_map<uint32_t, bool> bv; // BoolT id (B_VAR) -> value
    uint64_t version = 0;
};
struct Evaluator {
    const Model *m;
    std::unordered_map<P, Z> pm;
    std::unordered_map<uint32_t, Z> am;
    std::unordered_map<B, bool> bm;
    std::unordered_map<F, double> fm;
    explicit Evaluator(const Model *mm) : m(mm) {}
    Z atom(uint32_t a);
    Z poly(P p);
    bool boolean(B b);
    double fp(F f);
};
bool boolIsFuzzy(B b); // contains approximated atoms
