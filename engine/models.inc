// Models of the runtime: allocation, exceptions, locks, OpenMP, libm, and the harness interface.
struct LockSt {
    int writer = -1;
    std::map<int, int> readers;
    std::vector<uint32_t> vc, rvc;
};
static std::map<uint64_t, LockSt> g_locks;
static std::map<uint64_t, std::vector<uint32_t>> g_atomVc;
static void syncAcquire(Thread &t, uint64_t a) {
    auto it = g_atomVc.find(a);
    if (it != g_atomVc.end()) joinVc(t.vc, it->second);
}
static void syncRelease(Thread &t, uint64_t a) {
    joinVc(g_atomVc[a], t.vc);
    t.vc[t.id]++;
}
static void syncOrder(Thread &t, uint64_t a, AtomicOrdering o, bool load, bool store) {
    if (load && isAcquireOrStronger(o)) syncAcquire(t, a);
    if (store && isReleaseOrStronger(o)) syncRelease(t, a);
}
static std::string lockName(uint64_t a) {
    static std::map<uint64_t, int> names;
    auto it = names.find(a);
    if (it == names.end()) it = names.insert({a, (int)names.size()}).first;
    return "lock " + std::to_string(it->second);
}
static std::string cstr(uint64_t a) {
    std::string s;
    for (int i = 0; i < 400; i++) {
        checkAccess(a + i, 1, false);
        char c = *(char *)(a + i);
        if (!c) break;
        s += c;
    }
    return s;
}
static uint64_t A64(Ctx &c, int i) { return (uint64_t)concreteVal(c.args[i], 64); }
static unsigned A32(Ctx &c, int i) { return (unsigned)concreteVal(c.args[i], 32); }
static void block(Ctx &c, std::function<bool()> until, const std::string &on) {
    c.control = true;
    c.t.blocked = until;
    c.t.blockedOn = on;
    reschedule(true);
}
static bool canWrite(LockSt &l) { return l.writer < 0 && l.readers.empty(); }
// returns true when finished
static void doLock(Ctx &c, bool write, bool tryOnly, bool rw) {
    uint64_t a = A64(c, 0);
    checkAccess(a, 8, true);
    Thread &t = c.t;
    if (schedPoint(t)) { c.control = true; return; }
    LockSt &l = g_locks[a];
    bool free = write ? canWrite(l) : l.writer < 0;
    if (free) {
        joinVc(t.vc, l.vc);
        if (write) { joinVc(t.vc, l.rvc); l.writer = t.id; }
        else l.readers[t.id]++;
        c.ret = mkC(0);
        return;
    }
    if (tryOnly) { c.ret = mkC(16); return; } // EBUSY
    if (rw && l.writer == t.id) { c.ret = mkC(35); return; } // EDEADLK
    t.yieldDone = true; // no second choice when the lock is tried again
    block(c, [a, write] { LockSt &x = g_locks[a]; return write ? canWrite(x) : x.writer < 0; }, lockName(a));
}
static void doUnlock(Ctx &c) {
    uint64_t a = A64(c, 0);
    Thread &t = c.t;
    LockSt &l = g_locks[a];
    if (l.writer == t.id) { l.writer = -1; joinVc(l.vc, t.vc); }
    else if (l.readers.count(t.id)) { if (--l.readers[t.id] == 0) l.readers.erase(t.id); joinVc(l.rvc, t.vc); }
    else failHere("unlock of a lock the thread does not hold");
    t.vc[t.id]++;
    c.ret = mkC(0);
}
// ---- OpenMP
struct Loop { uint64_t next = 0, ub = 0; int64_t st = 1; uint64_t chunk = 1; bool done = false; };
struct Team { int n = 1; int master = 0; int finished = 0; std::map<int, Loop> loops; int arrived = 0; int gen = 0; std::vector<uint32_t> vc; std::vector<int> members; };
static std::vector<Team *> g_teams;
static void ompFork(Ctx &c) {
    uint64_t fnp = A64(c, 2);
    const Function *fn = g_fnAt[fnp];
    int n = (int)cfg("omp_threads", 1);
    if (c.t.team >= 0) n = 1; // nested regions are serial
    Team *tm = new Team;
    tm->n = n;
    tm->master = c.t.id;
    int ti = (int)g_teams.size();
    g_teams.push_back(tm);
    Thread &m = c.t;
    int oldTeam = m.team, oldTid = m.ompTid, oldLoop = m.loopNo;
    std::vector<Val> extra(c.args.begin() + 3, c.args.end());
    auto startArgs = [&](Thread &t, int tid) {
        uint64_t a = arenaAlloc(16);
        uint32_t v = tid, z = 0;
        memcpy((void *)a, &v, 4);
        memcpy((void *)(a + 8), &z, 4);
        std::vector<Val> as = {mkC(a), mkC(a + 8)};
        as.insert(as.end(), extra.begin(), extra.end());
        (void)t;
        return as;
    };
    for (int k = 1; k < n; k++) {
        Thread *w = newThread();
        joinVc(w->vc, m.vc);
        w->vc[w->id]++;
        w->team = ti; w->ompTid = k; w->loopNo = 0;
        tm->members.push_back(w->id);
        int wid = w->id;
        auto as = startArgs(*w, k);
        g_live++;
        pushFrame(*w, fn, as, [wid, tm](Val) {
            T[wid]->done = true; g_live--; tm->finished++;
            joinVc(tm->vc, T[wid]->vc);
        });
    }
    if (n > 1) m.vc[m.id]++;
    m.team = ti; m.ompTid = 0; m.loopNo = 0;
    c.control = true;
    int mid = m.id;
    auto as = startArgs(m, 0);
    if (n == 1) {
        pushFrame(m, fn, as, [mid, oldTeam, oldTid, oldLoop](Val) {
            Thread &x = *T[mid];
            x.team = oldTeam; x.ompTid = oldTid; x.loopNo = oldLoop;
            completeCall(x, Val());
        });
        return;
    }
    pushFrame(m, fn, as, [mid, tm, oldTeam, oldTid, oldLoop](Val) {
        Thread &x = *T[mid];
        auto fin = [mid, tm, oldTeam, oldTid, oldLoop] {
            Thread &y = *T[mid];
            joinVc(y.vc, tm->vc);
            y.team = oldTeam; y.ompTid = oldTid; y.loopNo = oldLoop;
            completeCall(y, Val());
        };
        if (tm->finished == tm->n - 1) { fin(); return; }
        x.blocked = [tm, fin, mid]() -> bool { return tm->finished == tm->n - 1; };
        x.blockedOn = "the end of a parallel region";
        x.afterBlock = fin;
        reschedule(true);
    });
}
static bool t_soloReset(Thread &t) { return t.team < 0; }
static Team *teamOf(Thread &t) { if (t.team < 0) { static Team solo; return &solo; } return g_teams[t.team]; }
static void dispatchInit(Ctx &c) { // loc gtid sched lb ub st chunk
    Team *tm = teamOf(c.t);
    if (t_soloReset(c.t)) tm->loops.erase(c.t.loopNo + 1);
    c.t.loopNo++;
    if (!tm->loops.count(c.t.loopNo)) {
        Loop l;
        l.next = A64(c, 3); l.ub = A64(c, 4); l.st = (int64_t)A64(c, 5); l.chunk = std::max<uint64_t>(1, A64(c, 6));
        l.done = l.next > l.ub;
        tm->loops[c.t.loopNo] = l;
    }
}
static void dispatchInit4(Ctx &c) {
    Team *tm = teamOf(c.t);
    if (t_soloReset(c.t)) tm->loops.erase(c.t.loopNo + 1);
    c.t.loopNo++;
    if (!tm->loops.count(c.t.loopNo)) {
        Loop l;
        l.next = (uint64_t)(int64_t)(int32_t)A32(c, 3); l.ub = (uint64_t)(int64_t)(int32_t)A32(c, 4); l.st = (int32_t)A32(c, 5); l.chunk = std::max<unsigned>(1, A32(c, 6));
        l.done = (int64_t)l.next > (int64_t)l.ub;
        tm->loops[c.t.loopNo] = l;
    }
}
static void dispatchNextW(Ctx &c, int bytes) { // loc gtid plast plower pupper pstride
    if (schedPoint(c.t)) { c.control = true; return; }
    Team *tm = teamOf(c.t);
    Loop &l = tm->loops[c.t.loopNo];
    if (l.done) { c.ret = mkC(0); return; }
    uint64_t lo = l.next, hi = lo + (l.chunk - 1) * l.st;
    if ((int64_t)(l.ub - hi) <= 0) { hi = l.ub; l.done = true; } else l.next = hi + l.st;
    storeRaw(A64(c, 3), mkC(maskW(lo, bytes * 8)), bytes);
    storeRaw(A64(c, 4), mkC(maskW(hi, bytes * 8)), bytes);
    if (A64(c, 5)) storeRaw(A64(c, 5), mkC(maskW((u128)(uint64_t)l.st, bytes * 8)), bytes);
    if (A64(c, 2)) storeRaw(A64(c, 2), mkC(l.done), 4);
    c.ret = mkC(1);
}
static void staticInitW(Ctx &c, int bytes) { // loc gtid sched plast plower pupper pstride incr chunk
    Team *tm = teamOf(c.t);
    Ty ty; ty.k = T_INT; ty.w = bytes * 8; ty.size = bytes;
    auto rd = [&](int i) { u128 v = concreteVal(loadRaw(A64(c, i), ty, bytes), bytes * 8); return (int64_t)sextW(v, bytes * 8); };
    int64_t lb = rd(4), ub = rd(5), inc = (int64_t)sextW(concreteVal(c.args[7], bytes * 8), bytes * 8), chunk = (int64_t)sextW(concreteVal(c.args[8], bytes * 8), bytes * 8);
    unsigned sched = A32(c, 2) & 0xffff;
    int64_t n = tm->n, tid = c.t.ompTid;
    int64_t trip = (ub - lb) / inc + 1;
    if ((inc > 0 && ub < lb) || (inc < 0 && ub > lb)) trip = 0;
    int64_t l, u, stride;
    if (sched == 33) { // chunked
        if (chunk < 1) chunk = 1;
        l = lb + tid * chunk * inc; u = l + (chunk - 1) * inc; stride = n * chunk * inc;
    } else {
        int64_t q = trip / n, r = trip % n;
        l = lb + inc * (tid * q + std::min(tid, r));
        u = l + q * inc - (tid < r ? 0 : inc);
        stride = trip ? trip : 1;
        if (trip == 0) { l = ub + inc; u = ub; }
    }
    storeRaw(A64(c, 4), mkC(maskW((u128)l, bytes * 8)), bytes);
    storeRaw(A64(c, 5), mkC(maskW((u128)u, bytes * 8)), bytes);
    storeRaw(A64(c, 6), mkC(maskW((u128)stride, bytes * 8)), bytes);
    storeRaw(A64(c, 3), mkC(tid == n - 1), 4);
}
static void barrier(Ctx &c) {
    Team *tm = teamOf(c.t);
    if (tm->n <= 1) return;
    Thread &t = c.t;
    if (t.barGen >= 0) { // released
        t.barGen = -1;
        joinVc(t.vc, tm->vc);
        return;
    }
    joinVc(tm->vc, t.vc);
    t.vc[t.id]++;
    if (++tm->arrived == tm->n) { tm->arrived = 0; tm->gen++; joinVc(t.vc, tm->vc); return; }
    int g = tm->gen;
    t.barGen = g;
    block(c, [tm, g] { return tm->gen > g; }, "a barrier");
}
// ---- strings
static void makeString(uint64_t dst, const std::string &s) { // libstdc++ layout
    uint64_t p = dst + 16;
    if (s.size() > 15) { p = arenaAlloc(s.size() + 1); storeRaw(dst + 16, mkC(s.size()), 8); }
    for (size_t i = 0; i <= s.size(); i++) storeRaw(p + i, mkC(i < s.size() ? (uint8_t)s[i] : 0), 1);
    storeRaw(dst, mkC(p), 8);
    storeRaw(dst + 8, mkC(s.size()), 8);
}
// ---- harness inputs
static std::string uniqueName(uint64_t a) {
    static std::map<std::string, int> cnt;
    std::string n = cstr(a);
    int k = cnt[n]++;
    return k ? n + "#" + std::to_string(k) : n;
}

static void addOut(const std::string &n, const Val &v, Ty ty) { g_outs.push_back({n, v, ty}); }

static void pushRealHash(Ctx &c);
static void hashOf(Ctx &c) {
    if (cfg("real_hash", 0)) { pushRealHash(c); return; }
    c.ret = mkC(0);
}
static void pushRealHash(Ctx &c) {
    const Function *fn = c.in.callee;
    if (!fn || fn->isDeclaration()) incomplete("hash function without a body");
    c.control = true;
    pushFrame(c.t, fn, c.args);
}
static std::unordered_map<std::string, Handler> &handlers() {
    static std::unordered_map<std::string, Handler> h;
    if (!h.empty()) return h;
    auto reg = [&](const char *n, Handler f) { h[n] = f; };
    // allocation
    Handler hNew = [](Ctx &c) {
        uint64_t n = A64(c, 0);
        uint64_t p = arenaAlloc(n ? n : 1);
        if (!p) { // as the real allocator when memory is exhausted
            try { throw std::bad_alloc(); } catch (...) {
                Exn *e = new Exn; e->ep = std::current_exception(); e->ti = abi::__cxa_current_exception_type(); e->obj = (uint64_t) * (void **)&e->ep;
                c.control = true;
                raise(c.t, e);
            }
            return;
        }
        if (g_live > 1) raceAccess(c.t, p, n, true);
        c.ret = mkC(p);
    };
    Handler hDel = [](Ctx &c) {
        uint64_t a = A64(c, 0);
        if (a && !inArena(a)) { ::free((void *)a); return; }
        if (a && g_live > 1) { auto it = g_allocs.find(a); if (it != g_allocs.end()) raceAccess(c.t, a, it->second, true); }
        arenaFree(a);
    };
    for (auto n : {"_Znwm", "_Znam", "malloc", "_ZnwmSt11align_val_t"}) reg(n, hNew);
    for (auto n : {"_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "free", "_ZdlPvmSt11align_val_t", "_ZdlPvSt11align_val_t"}) reg(n, hDel);
    reg("calloc", [](Ctx &c) { uint64_t n = A64(c, 0) * A64(c, 1); uint64_t p = arenaAlloc(n ? n : 1); if (p) memset((void *)p, 0, n); c.ret = mkC(p); });
    // exceptions
    reg("__cxa_allocate_exception", [](Ctx &c) { c.ret = mkC(arenaAlloc(A64(c, 0) + 16)); });
    reg("__cxa_free_exception", [](Ctx &c) { });
    reg("__cxa_throw", [](Ctx &c) {
        Exn *e = new Exn;
        e->obj = A64(c, 0);
        e->ti = (const std::type_info *)A64(c, 1);
        c.control = true;
        raise(c.t, e);
    });
    reg("__cxa_begin_catch", [](Ctx &c) {
        uint64_t o = A64(c, 0);
        Exn *e = g_exns[o];
        c.t.caught.push_back(e);
        uint64_t adj = g_adj.count(o) ? g_adj[o] : o;
        c.ret = mkC(adj);
    });
    reg("__cxa_end_catch", [](Ctx &c) { if (!c.t.caught.empty()) c.t.caught.pop_back(); });
    reg("__cxa_rethrow", [](Ctx &c) {
        if (c.t.caught.empty()) failHere("std::terminate: rethrow without an exception");
        Exn *e = c.t.caught.back();
        c.control = true;
        raise(c.t, e);
    });
    reg("__cxa_get_exception_ptr", [](Ctx &c) { uint64_t o = A64(c, 0); c.ret = mkC(g_adj.count(o) ? g_adj[o] : o); });
    reg("_ZSt9terminatev", [](Ctx &c) { failHere("std::terminate"); });
    reg("abort", [](Ctx &c) { failHere("abort"); });
    reg("__cxa_pure_virtual", [](Ctx &c) { failHere("pure virtual call"); });
    reg("__assert_fail", [](Ctx &c) { failHere("assertion failed: " + cstr(A64(c, 0))); });
    reg("__cxa_atexit", [](Ctx &c) { c.ret = mkC(0); });
    reg("__tsan_acquire", [](Ctx &c) { syncAcquire(c.t, A64(c, 0)); });
    reg("__tsan_release", [](Ctx &c) { syncRelease(c.t, A64(c, 0)); });
    reg("__cxa_guard_acquire", [](Ctx &c) { uint64_t a = A64(c, 0); c.ret = mkC(*(uint8_t *)a == 0); });
    reg("__cxa_guard_release", [](Ctx &c) { *(uint8_t *)A64(c, 0) = 1; });
    reg("__cxa_guard_abort", [](Ctx &c) {});
    // memory
    Handler hMemcpy = [](Ctx &c) {
        uint64_t d = A64(c, 0), s = A64(c, 1), n = A64(c, 2);
        raceCheck(c.t, s, n, false); raceCheck(c.t, d, n, true);
        copyMem(d, s, n); c.ret = mkC(d);
    };
    reg("memcpy", hMemcpy); reg("memmove", hMemcpy);
    reg("memset", [](Ctx &c) { uint64_t d = A64(c, 0), n = A64(c, 2); raceCheck(c.t, d, n, true); Val v = mkC(maskW(concreteVal(c.args[1], 32), 8)); for (uint64_t i = 0; i < n; i++) storeRaw(d + i, v, 1); c.ret = mkC(d); });
    Handler hCmp = [](Ctx &c) {
        uint64_t a = A64(c, 0), b = A64(c, 1), n = A64(c, 2);
        raceCheck(c.t, a, n, false); raceCheck(c.t, b, n, false);
        if (n) { checkAccess(a, n, false); checkAccess(b, n, false); }
        if (!anySymbolic(a, n) && !anySymbolic(b, n)) { int r = memcmp((void *)a, (void *)b, n); c.ret = mkC((uint32_t)(r < 0 ? -1 : r > 0)); return; }
        // byte order decides; equality first
        Ty t; t.k = T_INT; t.w = 8; t.size = 1;
        B allEq = bTrue;
        for (uint64_t i = 0; i < n; i++) allEq = bAnd(allEq, bEq(toU(loadRaw(a + i, t, 1), 8), toU(loadRaw(b + i, t, 1), 8)));
        if (branchOn(allEq)) { c.ret = mkC(0); return; }
        for (uint64_t i = 0; i < n; i++) {
            P x = toU(loadRaw(a + i, t, 1), 8), y = toU(loadRaw(b + i, t, 1), 8);
            if (branchOn(bEq(x, y))) continue;
            c.ret = mkC(branchOn(bLt(x, y)) ? (uint32_t)-1 : 1);
            return;
        }
        c.ret = mkC(0);
    };
    reg("memcmp", hCmp); reg("bcmp", hCmp);
    reg("strlen", [](Ctx &c) { c.ret = mkC(cstr(A64(c, 0)).size()); });
    reg("strcmp", [](Ctx &c) { int r = strcmp(cstr(A64(c, 0)).c_str(), cstr(A64(c, 1)).c_str()); c.ret = mkC((uint32_t)r); });
    // formatting: texts of equal values are equal and of different concrete values different; symbolic ones are not written out
    reg("_ZN3fmt2v76detail7vformatB5cxx11ENS0_17basic_string_viewIcEENS0_11format_argsE", [](Ctx &c) {
        uint64_t n = A64(c, 2), desc = A64(c, 3), vals = A64(c, 4);
        std::string f((const char *)A64(c, 1), n), r;
        bool packed = !(desc >> 62 & 3);
        size_t k = 0;
        for (size_t i = 0; i < f.size(); i++) {
            if ((f[i] == '{' || f[i] == '}') && i + 1 < f.size() && f[i + 1] == f[i]) { r += f[i++]; continue; }
            if (f[i] != '{') { r += f[i]; continue; }
            size_t e = f.find('}', i);
            if (e == std::string::npos) break;
            std::string spec = f.substr(i + 1, e - i - 1);
            size_t at = !spec.empty() && isdigit(spec[0]) ? atoi(spec.c_str()) : k++;
            i = e;
            unsigned ty = packed && at < 15 ? desc >> (4 * at) & 15 : 0;
            uint64_t a = vals + 16 * at;
            if (ty == 0 || ty == 5 || ty == 6 || ty == 11 || ty == 15) { r += "<value>"; continue; }
            unsigned w = ty == 1 || ty == 2 || ty == 9 ? 4 : ty == 7 || ty == 8 ? 1 : ty == 13 ? 16 : 8;
            checkAccess(a, w, false);
            if (inArena(a) && anySymbolic(a, w)) { r += "<value>"; continue; }
            char b[64] = "";
            if (ty == 1) snprintf(b, sizeof b, "%d", *(int *)a);
            else if (ty == 2) snprintf(b, sizeof b, "%u", *(unsigned *)a);
            else if (ty == 3) snprintf(b, sizeof b, "%lld", *(long long *)a);
            else if (ty == 4 || ty == 14) snprintf(b, sizeof b, "%llu", *(unsigned long long *)a);
            else if (ty == 7 || ty == 8) snprintf(b, sizeof b, "%d", *(signed char *)a);
            else if (ty == 9) snprintf(b, sizeof b, "%.9g", *(float *)a);
            else if (ty == 10) snprintf(b, sizeof b, "%.17g", *(double *)a);
            else if (ty == 12) r += cstr(*(uint64_t *)a);
            else {
                uint64_t d = *(uint64_t *)a, l = *(uint64_t *)(a + 8);
                checkAccess(d, l, false);
                if (inArena(d) && l && anySymbolic(d, l)) r += "<value>"; else r.append((const char *)d, l);
            }
            r += b;
        }
        makeString(A64(c, 0), r);
    });
    // libm
#define LIBM1(n, o) reg(n, [](Ctx &c) { if (!c.args[0].s) { double x = asDouble(c.args[0].c); c.ret = mkC(fromDouble(o(x))); } else c.ret = mkF(LIBSYM(o, toF(c.args[0]))); });
#define SYM_sqrt(f) fUn(F_SQRT, f)
#define SYM_fabs(f) fUn(F_ABS, f)
#define SYM_round(f) fRound(f, R_ROUND)
#define SYM_floor(f) fRound(f, R_FLOOR)
#define SYM_ceil(f) fRound(f, R_CEIL)
#define SYM_trunc(f) fRound(f, R_TRUNC)
#define SYM_rint(f) fRound(f, R_EVEN)
#define SYM_sin(f) fUn(F_SIN, f)
#define SYM_cos(f) fUn(F_COS, f)
#define LIBSYM(o, f) SYM_##o(f)
    LIBM1("sqrt", sqrt) LIBM1("fabs", fabs) LIBM1("round", round) LIBM1("floor", floor) LIBM1("ceil", ceil) LIBM1("trunc", trunc) LIBM1("rint", rint) LIBM1("nearbyint", rint) LIBM1("sin", sin) LIBM1("cos", cos)
    reg("atan2", [](Ctx &c) {
        if (!c.args[0].s && !c.args[1].s) c.ret = mkC(fromDouble(atan2(asDouble(c.args[0].c), asDouble(c.args[1].c))));
        else c.ret = mkF(fBin(F_ATAN2, toF(c.args[0]), toF(c.args[1]), proveFn));
    });
    reg("llround", [](Ctx &c) { if (!c.args[0].s) c.ret = mkC((u128)(uint64_t)llround(asDouble(c.args[0].c))); else c.ret = mkP(fToInt(toF(c.args[0]), R_ROUND, -z_pow2(63), z_pow2(63) - 1), 64); });
    h["lround"] = h["llround"];
    reg("lrint", [](Ctx &c) { if (!c.args[0].s) c.ret = mkC((u128)(uint64_t)lrint(asDouble(c.args[0].c))); else c.ret = mkP(fToInt(toF(c.args[0]), R_EVEN, -z_pow2(63), z_pow2(63) - 1), 64); });
    h["llrint"] = h["lrint"];
    // hashes of keys: any consistent hash gives the same collection contents (equal keys, equal hashes is property C23)
#define CONSTHASH(n) reg(n, [](Ctx &c) { hashOf(c); });
    CONSTHASH("_ZNKSt4hashI10CoordinateEclERKS0_") CONSTHASH("_ZNKSt4hashI11LineSegmentEclERKS0_") CONSTHASH("_ZNKSt4hashI7PolygonEclERKS0_")
    CONSTHASH("_ZNKSt4hashI10CoordinateEclES0_") CONSTHASH("_ZNKSt4hashI11LineSegmentEclES0_") CONSTHASH("_ZNKSt4hashI7PolygonEclES0_")
    // locks
    reg("pthread_mutex_lock", [](Ctx &c) { doLock(c, true, false, false); });
    reg("pthread_mutex_trylock", [](Ctx &c) { doLock(c, true, true, false); });
    reg("pthread_mutex_unlock", [](Ctx &c) { doUnlock(c); });
    reg("pthread_rwlock_wrlock", [](Ctx &c) { doLock(c, true, false, true); });
    reg("pthread_rwlock_rdlock", [](Ctx &c) { doLock(c, false, false, true); });
    reg("pthread_rwlock_trywrlock", [](Ctx &c) { doLock(c, true, true, true); });
    reg("pthread_rwlock_tryrdlock", [](Ctx &c) { doLock(c, false, true, true); });
    reg("pthread_rwlock_unlock", [](Ctx &c) { doUnlock(c); });
    reg("pthread_mutex_init", [](Ctx &c) { c.ret = mkC(0); });
    reg("pthread_mutex_destroy", [](Ctx &c) { c.ret = mkC(0); });
    reg("pthread_rwlock_init", [](Ctx &c) { c.ret = mkC(0); });
    reg("pthread_rwlock_destroy", [](Ctx &c) { c.ret = mkC(0); });
    // OpenMP
    reg("__kmpc_fork_call", ompFork);
    reg("__kmpc_global_thread_num", [](Ctx &c) { c.ret = mkC(c.t.ompTid); });
    for (auto n : {"__kmpc_dispatch_init_8u", "__kmpc_dispatch_init_8"}) reg(n, dispatchInit);
    for (auto n : {"__kmpc_dispatch_init_4u", "__kmpc_dispatch_init_4"}) reg(n, dispatchInit4);
    for (auto n : {"__kmpc_dispatch_next_8u", "__kmpc_dispatch_next_8"}) reg(n, [](Ctx &c) { dispatchNextW(c, 8); });
    for (auto n : {"__kmpc_dispatch_next_4u", "__kmpc_dispatch_next_4"}) reg(n, [](Ctx &c) { dispatchNextW(c, 4); });
    for (auto n : {"__kmpc_for_static_init_8u", "__kmpc_for_static_init_8"}) reg(n, [](Ctx &c) { staticInitW(c, 8); });
    for (auto n : {"__kmpc_for_static_init_4u", "__kmpc_for_static_init_4"}) reg(n, [](Ctx &c) { staticInitW(c, 4); });
    for (auto n : {"__kmpc_for_static_fini", "__kmpc_dispatch_fini_8u", "__kmpc_dispatch_fini_8", "__kmpc_dispatch_fini_4", "__kmpc_dispatch_fini_4u", "__kmpc_push_num_threads", "__kmpc_flush"}) reg(n, [](Ctx &c) {});
    reg("__kmpc_barrier", barrier);
    for (auto n : {"__kmpc_reduce", "__kmpc_reduce_nowait"}) reg(n, [](Ctx &c) { c.ret = mkC(2); }); // every thread adds its part atomically
    reg("__kmpc_end_reduce_nowait", [](Ctx &c) {});
    reg("__kmpc_end_reduce", barrier);
    reg("__kmpc_single", [](Ctx &c) { c.ret = mkC(c.t.ompTid == 0); });
    reg("__kmpc_end_single", [](Ctx &c) {});
    reg("__kmpc_master", [](Ctx &c) { c.ret = mkC(c.t.ompTid == 0); });
    reg("__kmpc_end_master", [](Ctx &c) {});
    reg("__kmpc_masked", [](Ctx &c) { c.ret = mkC(c.t.ompTid == 0); });
    reg("__kmpc_end_masked", [](Ctx &c) {});
    reg("__kmpc_critical", [](Ctx &c) { c.args[0] = c.args[2]; doLock(c, true, false, false); });
    reg("__kmpc_critical_with_hint", [](Ctx &c) { c.args[0] = c.args[2]; doLock(c, true, false, false); });
    reg("__kmpc_end_critical", [](Ctx &c) { c.args[0] = c.args[2]; doUnlock(c); });
    for (auto n : {"omp_set_lock"}) reg(n, [](Ctx &c) { doLock(c, true, false, false); });
    reg("omp_unset_lock", doUnlock);
    reg("omp_init_lock", [](Ctx &c) {}); reg("omp_destroy_lock", [](Ctx &c) {});
    reg("omp_get_num_threads", [](Ctx &c) { c.ret = mkC(teamOf(c.t)->n); });
    reg("omp_get_thread_num", [](Ctx &c) { c.ret = mkC(c.t.ompTid); });
    reg("omp_get_max_threads", [](Ctx &c) { c.ret = mkC(cfg("omp_threads", 1)); });
    reg("omp_get_num_procs", [](Ctx &c) { c.ret = mkC(cfg("omp_threads", 1)); });
    reg("omp_in_parallel", [](Ctx &c) { c.ret = mkC(teamOf(c.t)->n > 1); });
    reg("omp_set_num_threads", [](Ctx &c) {});
    // harness interface
    reg("sx_int", [](Ctx &c) {
        std::string n = uniqueName(A64(c, 0));
        Z lo = z_from_i64((int64_t)A64(c, 1)), hi = z_from_i64((int64_t)A64(c, 2));
        if (lo > hi) finish("infeasible");
        uint32_t a = mkVar(n, lo, hi, true);
        g_inputs.push_back({n, a, nullptr, 0, 0});
        c.ret = mkP(lo == hi ? pConst(lo) : pAtom(a), 64);
    });
    reg("sx_pick", [](Ctx &c) {
        std::string n = uniqueName(A64(c, 0));
        Z lo = z_from_i64((int64_t)A64(c, 1)), hi = z_from_i64((int64_t)A64(c, 2));
        if (lo > hi) finish("infeasible");
        uint32_t a = mkVar(n, lo, hi, true);
        g_inputs.push_back({n, a, nullptr, 0, 0});
        Z v = concretize(pAtom(a));
        c.ret = mkC(z_to_u128(v) & (u128)UINT64_MAX);
    });
    reg("sx_bool", [](Ctx &c) {
        std::string n = uniqueName(A64(c, 0));
        B b = bVar(n);
        g_inputs.push_back({n, 0, b, 1, 0});
        c.ret = mkB(b);
    });
    reg("sx_dyadic", [](Ctx &c) {
        std::string n = uniqueName(A64(c, 0));
        Z lo = z_from_i64((int64_t)A64(c, 1)), hi = z_from_i64((int64_t)A64(c, 2));
        uint32_t a = mkVar(n, lo, hi, true);
        g_inputs.push_back({n, a, nullptr, 2, (int)A32(c, 3)});
        c.ret = mkF(fDyadic(pAtom(a), (int)A32(c, 3)));
    });
    reg("sx_assume", [](Ctx &c) { assumeB(toB(c.args[0])); });
    reg("sx_assert", [](Ctx &c) {
        std::string w = cstr(A64(c, 1));
        g_sh->asserts++;
        B b = S.reduce(toB(c.args[0]));
        if (b == bTrue) return;
        Model m;
        SatR r;
        if (S.haveModel && !S.evalModel(b)) { r = S_SAT; m = S.model; }
        else r = S.check(bNot(b), &m, -1, true);
        if (r == S_UNSAT) return;
        if (r == S_SAT) {
            violation("assert: " + w, &m);
            if (b == bFalse) finish("ended");
            assumeB(b);
            return;
        }
        g_sh->unks++;
        logLine("{\"k\":\"unk\",\"what\":" + jstr("assert: " + w) + ",\"at\":" + jstr(traceBack()) + ",\"f\":" + jstr(bStr(b).substr(0, 2000)) + "}");
        assumeB(b);
    });
    reg("sx_reach", [](Ctx &c) {
        static std::set<std::string> seen;
        std::string w = cstr(A64(c, 0));
        if (seen.insert(w).second) logLine("{\"k\":\"reach\",\"what\":" + jstr(w) + "}");
    });
    reg("sx_out", [](Ctx &c) { Ty t; t.k = T_INT; t.w = 64; t.size = 8; addOut(cstr(A64(c, 0)), c.args[1], t); });
    reg("sx_outd", [](Ctx &c) { Ty t; t.k = T_DBL; t.w = 64; t.size = 8; addOut(cstr(A64(c, 0)), c.args[1], t); });
    reg("sx_cfg", [](Ctx &c) { std::string n = cstr(A64(c, 0)); int64_t o = cfg(n.c_str(), 0); g_cfg[n] = (int64_t)A64(c, 1); c.ret = mkC((uint64_t)o); });
    reg("sx_alloc", [](Ctx &c) { uint64_t n = A64(c, 0); uint64_t p = arenaAlloc(n ? n : 1); if (!n && p) validAt(p) = 0; if (p) memset((void *)p, 0, n); c.ret = mkC(p); });
    reg("sx_free", [](Ctx &c) { arenaFree(A64(c, 0)); });
    reg("sx_symbolic", [](Ctx &c) { c.ret = mkC(c.args[0].s != nullptr); });
    reg("sx_thread", [](Ctx &c) {
        const Function *fn = g_fnAt[A64(c, 0)];
        Thread *w = newThread();
        joinVc(w->vc, c.t.vc);
        w->vc[w->id]++;
        c.t.vc[c.t.id]++;
        int id = w->id;
        g_live++;
        pushFrame(*w, fn, {c.args[1]}, [id](Val) { T[id]->done = true; g_live--; });
    });
    reg("sx_join", [](Ctx &c) {
        int me = c.t.id;
        auto fin = [me] { for (auto *x : T) if (x->id != me && !x->done) return false; return true; };
        if (!fin()) { block(c, fin, "the other threads"); return; }
        for (auto *x : T) joinVc(c.t.vc, x->vc);
    });
    reg("sx_done", [](Ctx &c) { finish("path"); });
    return h;
}
Handler findHandler(const std::string &name) {
    auto &h = handlers();
    auto it = h.find(name);
    return it == h.end() ? nullptr : it->second;
}
static void intrinsic(Thread &t, DInst &in, const Function *f, std::vector<Val> &args) {
    Val r;
    Ctx c{t, in, args, Val()};
    unsigned w = in.ty.w;
    switch (f->getIntrinsicID()) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl:
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::donothing: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: break;
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
        uint64_t d = A64(c, 0), s = A64(c, 1), n = (uint64_t)concreteVal(args[2], tyOf(f->getArg(2)->getType()).w);
        raceCheck(t, s, n, false); raceCheck(t, d, n, true);
        copyMem(d, s, n);
        break;
    }
    case Intrinsic::memset: {
        uint64_t d = A64(c, 0), n = (uint64_t)concreteVal(args[2], tyOf(f->getArg(2)->getType()).w);
        raceCheck(t, d, n, true);
        Val v = args[1];
        if (!v.s && n && inArena(d)) {
            checkAccess(d, n, true);
            for (uint64_t i = 0; i < n; i++) if (validAt(d + i) == 3) { g_cells.erase(d + i); validAt(d + i) = 1; }
            memset((void *)d, (int)(uint8_t)v.c, n);
        } else for (uint64_t i = 0; i < n; i++) storeRaw(d + i, v, 1);
        break;
    }
    case Intrinsic::eh_typeid_for: r = mkC(typeIndex(A64(c, 0))); break;
    case Intrinsic::trap: failHere("trap"); break;
    case Intrinsic::expect: r = args[0]; break;
    case Intrinsic::is_constant: r = mkC(0); break;
    case Intrinsic::objectsize: r = mkC((uint64_t)-1); break;
    case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: {
        auto id = f->getIntrinsicID();
        bool sg = id == Intrinsic::smax || id == Intrinsic::smin, mx = id == Intrinsic::smax || id == Intrinsic::umax;
        P x = sg ? toS(args[0], w) : toU(args[0], w), y = sg ? toS(args[1], w) : toU(args[1], w);
        B le = bLe(x, y);
        r = mkP(mx ? pIte(le, y, x) : pIte(le, x, y), w);
        break;
    }
    case Intrinsic::abs: { P x = toS(args[0], w); r = mkP(pIte(bLe(pConst(0), x), x, pNeg(x)), w); break; }
    case Intrinsic::usub_sat: { P x = toU(args[0], w), y = toU(args[1], w); r = mkP(pIte(bLe(y, x), pSub(x, y), pConst(0)), w); break; }
    case Intrinsic::uadd_sat: { P x = pAdd(toU(args[0], w), toU(args[1], w)); Z m = z_pow2(w) - 1; r = mkP(pIte(bLe(x, pConst(m)), x, pConst(m)), w); break; }
    case Intrinsic::ssub_sat: case Intrinsic::sadd_sat: {
        P x = toS(args[0], w), y = toS(args[1], w);
        P z = f->getIntrinsicID() == Intrinsic::ssub_sat ? pSub(x, y) : pAdd(x, y);
        Z hi = z_pow2(w - 1) - 1, lo = -z_pow2(w - 1);
        r = mkP(pIte(bLe(z, pConst(hi)), pIte(bLe(pConst(lo), z), z, pConst(lo)), pConst(hi)), w);
        break;
    }
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow:
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: {
        auto id = f->getIntrinsicID();
        bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
        unsigned ow = tyOf(f->getArg(0)->getType()).w;
        P x = sg ? toS(args[0], ow) : toU(args[0], ow), y = sg ? toS(args[1], ow) : toU(args[1], ow), z;
        if (id == Intrinsic::sadd_with_overflow || id == Intrinsic::uadd_with_overflow) z = pAdd(x, y);
        else if (id == Intrinsic::ssub_with_overflow || id == Intrinsic::usub_with_overflow) z = pSub(x, y);
        else z = pMul(x, y);
        Z lo = sg ? Z(-z_pow2(ow - 1)) : Z(0), hi = sg ? Z(z_pow2(ow - 1) - 1) : Z(z_pow2(ow) - 1);
        B ok = bAnd(bLe(pConst(lo), z), bLe(z, pConst(hi)));
        r = mkAgg({wrapTo(z, ow), mkB(bNot(ok))});
        break;
    }
    case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop: {
        u128 x = concreteVal(args[0], w);
        auto id = f->getIntrinsicID();
        unsigned n = 0;
        if (id == Intrinsic::ctpop) { for (unsigned i = 0; i < w; i++) n += (x >> i) & 1; }
        else if (id == Intrinsic::ctlz) { n = w; for (unsigned i = 0; i < w; i++) if ((x >> i) & 1) n = w - 1 - i; }
        else { n = w; for (int i = w - 1; i >= 0; i--) if ((x >> i) & 1) n = i; }
        r = mkC(n);
        break;
    }
    case Intrinsic::fshl: case Intrinsic::fshr: {
        unsigned k = (unsigned)(concreteVal(args[2], w) % w);
        bool left = f->getIntrinsicID() == Intrinsic::fshl;
        if (k == 0) { r = left ? args[0] : args[1]; break; }
        unsigned hiBits = left ? k : w - k; // bits taken from the top of b appear at the bottom
        P a = toU(args[0], w), b = toU(args[1], w);
        r = mkP(pAdd(pScale(pEx(a, 0, w - hiBits), z_pow2(hiBits)), pEx(b, w - hiBits, hiBits)), w);
        break;
    }
    case Intrinsic::bswap: {
        P a = toU(args[0], w), s = pConst(0);
        for (unsigned i = 0; i < w / 8; i++) s = pAdd(s, pScale(pEx(a, 8 * i, 8), z_pow2(w - 8 - 8 * i)));
        r = mkP(s, w);
        break;
    }
    case Intrinsic::round: case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven:
    case Intrinsic::sqrt: case Intrinsic::fabs: case Intrinsic::sin: case Intrinsic::cos: {
        auto id = f->getIntrinsicID();
        const char *n = id == Intrinsic::round ? "round" : id == Intrinsic::floor ? "floor" : id == Intrinsic::ceil ? "ceil" : id == Intrinsic::trunc ? "trunc" : id == Intrinsic::sqrt ? "sqrt" : id == Intrinsic::fabs ? "fabs" : id == Intrinsic::sin ? "sin" : id == Intrinsic::cos ? "cos" : "rint";
        if (in.ty.k == T_FLT) {
            float x = asFloat(concreteVal(args[0], 32));
            r = mkC(fromFloat(id == Intrinsic::round ? roundf(x) : id == Intrinsic::floor ? floorf(x) : id == Intrinsic::ceil ? ceilf(x) : id == Intrinsic::trunc ? truncf(x) : id == Intrinsic::sqrt ? sqrtf(x) : id == Intrinsic::fabs ? fabsf(x) : rintf(x)));
            break;
        }
        findHandler(n)(c);
        r = c.ret;
        break;
    }
    case Intrinsic::fmuladd: case Intrinsic::fma: {
        if (args[0].s || args[1].s || args[2].s) incomplete("symbolic fma");
        double x = asDouble(args[0].c), y = asDouble(args[1].c), z = asDouble(args[2].c);
        r = mkC(fromDouble(f->getIntrinsicID() == Intrinsic::fma ? fma(x, y, z) : x * y + z));
        break;
    }
    case Intrinsic::minnum: case Intrinsic::maxnum: {
        bool mn = f->getIntrinsicID() == Intrinsic::minnum;
        F x = toF(args[0]), y = toF(args[1]);
        B lt = fCmp(4, x, y);
        r = mkF(mn ? fIte(lt, x, y) : fIte(lt, y, x));
        break;
    }
    case Intrinsic::copysign: {
        if (args[0].s || args[1].s) incomplete("symbolic copysign");
        r = mkC(fromDouble(copysign(asDouble(args[0].c), asDouble(args[1].c)))); break;
    }
    case Intrinsic::is_fpclass: { if (args[0].s) { r = mkC(0); break; } double d = asDouble(args[0].c); unsigned m = A32(c, 1); unsigned k = std::isnan(d) ? 3 : d == -INFINITY ? 4 : d == INFINITY ? 512 : d == 0 ? 96 : d < 0 ? 24 : 384; r = mkC((m & k) != 0); break; }
    case Intrinsic::stacksave: r = mkC(t.sp); break;
    case Intrinsic::stackrestore: break;
    case Intrinsic::threadlocal_address: r = args[0]; break;
    default: incomplete("intrinsic " + f->getName().str());
    }
    completeCall(t, r);
}
