// Native scheduler for replaying schedules: threads run one at a time and hand over at the same points, by the same choices
// (inputs sched0, sched1, ...) as in the engine. Compiled without the thread sanitizer and synchronising with futexes only, so
// that the hand-overs do not order the code's own accesses for it. Also stands in for the OpenMP runtime.
#include "sx.h"
#include "sx_sched.h"
#include <climits>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <linux/futex.h>
#include <map>
#include <pthread.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <vector>
extern "C" void __tsan_acquire(void *) __attribute__((weak));
extern "C" void __tsan_release(void *) __attribute__((weak));
extern "C" void AnnotateIgnoreReadsBegin(const char *, int) __attribute__((weak));
extern "C" void __tsan_ignore_thread_begin() __attribute__((weak));
extern "C" void __tsan_ignore_thread_end() __attribute__((weak));
struct Team;
struct Th {
    int id = 0;
    bool done = false;
    std::function<bool()> blocked;
    int go = 0; // futex
    Team *team = nullptr;
    int ompTid = 0, loopNo = 0;
    pthread_t h;
    std::function<void()> body;
};
struct Loop { uint64_t next = 0, ub = 0; int64_t st = 1; uint64_t chunk = 1; bool done = false; };
struct Team { int n = 1, finished = 0, arrived = 0, gen = 0; std::map<int, Loop> loops; char tag = 0; };
static std::vector<Th *> T;
static int g_cur = 0, g_live = 1, g_choices = 0, g_preempt = 0;
static __thread Th *me = nullptr;
static Th *self() {
    if (!me) { me = new Th; me->id = 0; T.push_back(me); }
    return me;
}
static void wake(Th *t) { __atomic_store_n(&t->go, 1, __ATOMIC_SEQ_CST); syscall(SYS_futex, &t->go, FUTEX_WAKE_PRIVATE, INT_MAX, nullptr, nullptr, 0); }
static void sleepUntil(Th *t) {
    while (!__atomic_load_n(&t->go, __ATOMIC_SEQ_CST)) syscall(SYS_futex, &t->go, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    __atomic_store_n(&t->go, 0, __ATOMIC_SEQ_CST);
}
static int chooseOf(int n) {
    if (n <= 1) return 0;
    int k = (int)sx_native_input("sched" + std::to_string(g_choices++));
    return k < 0 || k >= n ? 0 : k;
}
static bool runnable(Th *t) { return !t->done && (!t->blocked || t->blocked()); }
static void handTo(int id) {
    Th *t = self();
    T[id]->blocked = nullptr;
    g_cur = id;
    if (T[id] == t) return;
    wake(T[id]);
    if (!t->done) sleepUntil(t);
}
static void reschedule(bool mustLeave) {
    std::vector<int> can;
    for (auto *t : T) if (runnable(t) && !(mustLeave && t->id == g_cur)) can.push_back(t->id);
    if (can.empty()) sx_native_stop("deadlock");
    handTo(can[chooseOf((int)can.size())]);
}
static void schedPoint() {
    Th *t = self();
    if (g_live <= 1) return;
    if (g_preempt >= sx_native_cfg("preemptions", 1000)) return;
    std::vector<int> can{t->id};
    for (auto *x : T) if (x->id != t->id && runnable(x)) can.push_back(x->id);
    int k = chooseOf((int)can.size());
    if (k == 0) return;
    g_preempt++;
    handTo(can[k]); // back here: the operation is done without another choice
}
static void block(std::function<bool()> until) {
    self()->blocked = until;
    reschedule(true);
}
static void *threadMain(void *p) {
    me = (Th *)p;
    sleepUntil(me);
    me->body();
    me->done = true;
    g_live--;
    reschedule(true);
    return nullptr;
}
static Th *spawn(std::function<void()> body) {
    self();
    Th *t = new Th;
    t->id = (int)T.size();
    t->body = std::move(body);
    T.push_back(t);
    g_live++;
    if (pthread_create(&t->h, nullptr, threadMain, t)) sx_native_stop("diverged: no thread");
    return t;
}
void sx_sched_begin() { self(); }
void sx_sched_finish() {}
// ---- locks
struct LockSt { int writer = -1; std::map<int, int> readers; };
static std::map<void *, LockSt> g_locks;
static bool canWrite(LockSt &l) { return l.writer < 0 && l.readers.empty(); }
static int lockOp(void *a, bool write, bool tryOnly, bool rw) {
    schedPoint();
    Th *t = self();
    while (true) {
        LockSt &l = g_locks[a];
        bool free = write ? canWrite(l) : l.writer < 0;
        if (free) { if (write) l.writer = t->id; else l.readers[t->id]++; return 0; }
        if (tryOnly) return 16;
        if (rw && l.writer == t->id) return 35;
        block([a, write] { LockSt &x = g_locks[a]; return write ? canWrite(x) : x.writer < 0; });
    }
}
static void unlockOp(void *a) {
    LockSt &l = g_locks[a];
    Th *t = self();
    if (l.writer == t->id) l.writer = -1;
    else if (l.readers.count(t->id)) { if (--l.readers[t->id] == 0) l.readers.erase(t->id); }
    else sx_native_stop("assert: unlock of a lock the thread does not hold");
}
extern "C" {
#define LOCK(NAME, TYPE, WRITE, TRY, RW) \
    int __real_##NAME(TYPE *); \
    int __wrap_##NAME(TYPE *m) { if (!me) return __real_##NAME(m); int r = lockOp(m, WRITE, TRY, RW); return r ? r : __real_##NAME(m); }
LOCK(pthread_mutex_lock, pthread_mutex_t, true, false, false)
LOCK(pthread_mutex_trylock, pthread_mutex_t, true, true, false)
LOCK(pthread_rwlock_wrlock, pthread_rwlock_t, true, false, true)
LOCK(pthread_rwlock_rdlock, pthread_rwlock_t, false, false, true)
LOCK(pthread_rwlock_trywrlock, pthread_rwlock_t, true, true, true)
LOCK(pthread_rwlock_tryrdlock, pthread_rwlock_t, false, true, true)
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { if (me) unlockOp(m); return __real_pthread_mutex_unlock(m); }
int __real_pthread_rwlock_unlock(pthread_rwlock_t *);
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *m) { if (me) unlockOp(m); return __real_pthread_rwlock_unlock(m); }
// ---- harness
static std::vector<Th *> g_started;
void sx_thread(void (*fn)(void *), void *arg) { g_started.push_back(spawn([fn, arg] { fn(arg); })); }
void sx_join(void) {
    Th *t = self();
    auto fin = [t] { for (auto *x : T) if (x != t && !x->done) return false; return true; };
    if (!fin()) block(fin);
    for (auto *x : g_started) pthread_join(x->h, nullptr);
    g_started.clear();
}
// ---- OpenMP
typedef void (*Micro)(int32_t *, int32_t *, ...);
static void callMicro(Micro f, int tid, int n, void **a) {
    int32_t g = tid, b = 0;
    switch (n) {
    case 0: f(&g, &b); break;
    case 1: f(&g, &b, a[0]); break;
    case 2: f(&g, &b, a[0], a[1]); break;
    case 3: f(&g, &b, a[0], a[1], a[2]); break;
    case 4: f(&g, &b, a[0], a[1], a[2], a[3]); break;
    case 5: f(&g, &b, a[0], a[1], a[2], a[3], a[4]); break;
    case 6: f(&g, &b, a[0], a[1], a[2], a[3], a[4], a[5]); break;
    case 7: f(&g, &b, a[0], a[1], a[2], a[3], a[4], a[5], a[6]); break;
    case 8: f(&g, &b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]); break;
    case 9: f(&g, &b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]); break;
    case 10: f(&g, &b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9]); break;
    case 11: f(&g, &b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10]); break;
    case 12: f(&g, &b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11]); break;
    default: sx_native_stop("diverged: parallel region with many variables");
    }
}
void __kmpc_fork_call(void *, int32_t argc, Micro fn, ...) {
    void *a[16];
    va_list ap; va_start(ap, fn);
    for (int i = 0; i < argc && i < 16; i++) a[i] = va_arg(ap, void *);
    va_end(ap);
    Th *m = self();
    int n = m->team ? 1 : (int)sx_native_cfg("omp_threads", 1);
    if (n < 1) n = 1;
    Team *tm = new Team;
    tm->n = n;
    std::vector<Th *> ws;
    for (int k = 1; k < n; k++) {
        Th *w = spawn([=] { callMicro(fn, k, argc, (void **)a); tm->finished++; });
        w->team = tm; w->ompTid = k; w->loopNo = 0;
        ws.push_back(w);
    }
    Team *ot = m->team; int oi = m->ompTid, ol = m->loopNo;
    m->team = tm; m->ompTid = 0; m->loopNo = 0;
    callMicro(fn, 0, argc, a);
    if (tm->finished != n - 1) block([tm, n] { return tm->finished == n - 1; });
    for (auto *w : ws) pthread_join(w->h, nullptr);
    m->team = ot; m->ompTid = oi; m->loopNo = ol;
}
static Team *teamOf(Th *t) { static Team solo; return t->team ? t->team : &solo; }
static void dispatchInit(int64_t lo, int64_t hi, int64_t st, int64_t chunk) {
    Th *t = self(); Team *tm = teamOf(t);
    if (!t->team) tm->loops.erase(t->loopNo + 1);
    t->loopNo++;
    if (!tm->loops.count(t->loopNo)) { Loop l; l.next = lo; l.ub = hi; l.st = st; l.chunk = chunk < 1 ? 1 : chunk; l.done = (int64_t)l.next > (int64_t)l.ub; tm->loops[t->loopNo] = l; }
}
static bool dispatchNext(int32_t *last, uint64_t &lo, uint64_t &hi, int64_t &st) {
    schedPoint();
    Th *t = self(); Loop &l = teamOf(t)->loops[t->loopNo];
    if (l.done) return false;
    lo = l.next; hi = lo + (l.chunk - 1) * l.st;
    if ((int64_t)(l.ub - hi) <= 0) { hi = l.ub; l.done = true; } else l.next = hi + l.st;
    st = l.st;
    if (last) *last = l.done;
    return true;
}
#define DISPATCH(SUF, TYPE) \
    void __kmpc_dispatch_init_##SUF(void *, int32_t, int32_t, TYPE lo, TYPE hi, TYPE st, TYPE chunk) { dispatchInit((int64_t)lo, (int64_t)hi, (int64_t)st, (int64_t)chunk); } \
    int32_t __kmpc_dispatch_next_##SUF(void *, int32_t, int32_t *last, TYPE *lo, TYPE *hi, TYPE *st) { \
        uint64_t a, b; int64_t s; if (!dispatchNext(last, a, b, s)) return 0; *lo = (TYPE)a; *hi = (TYPE)b; if (st) *st = (TYPE)s; return 1; } \
    void __kmpc_dispatch_fini_##SUF(void *, int32_t) {}
DISPATCH(8u, uint64_t) DISPATCH(8, int64_t) DISPATCH(4u, uint32_t) DISPATCH(4, int32_t)
#define STATIC(SUF, TYPE, STYPE) \
    void __kmpc_for_static_init_##SUF(void *, int32_t, int32_t sched, int32_t *last, TYPE *lo, TYPE *hi, STYPE *stride, STYPE inc, STYPE chunk) { \
        Th *t = self(); int64_t n = teamOf(t)->n, tid = t->ompTid, lb = (int64_t)(STYPE)*lo, ub = (int64_t)(STYPE)*hi, trip = (ub - lb) / inc + 1, l, u, s; \
        if ((inc > 0 && ub < lb) || (inc < 0 && ub > lb)) trip = 0; \
        if ((sched & 0xffff) == 33) { if (chunk < 1) chunk = 1; l = lb + tid * chunk * inc; u = l + (chunk - 1) * inc; s = n * chunk * inc; } \
        else { int64_t q = trip / n, r = trip % n; l = lb + inc * (tid * q + (tid < r ? tid : r)); u = l + q * inc - (tid < r ? 0 : inc); s = trip ? trip : 1; if (trip == 0) { l = ub + inc; u = ub; } } \
        *lo = (TYPE)l; *hi = (TYPE)u; *stride = (STYPE)s; if (last) *last = tid == n - 1; }
STATIC(8u, uint64_t, int64_t) STATIC(8, int64_t, int64_t) STATIC(4u, uint32_t, int32_t) STATIC(4, int32_t, int32_t)
void __kmpc_for_static_fini(void *, int32_t) {}
void __kmpc_push_num_threads(void *, int32_t, int32_t) {}
void __kmpc_flush(void *) {}
int32_t __kmpc_global_thread_num(void *) { return self()->ompTid; }
void __kmpc_barrier(void *, int32_t) {
    Team *tm = teamOf(self());
    if (tm->n <= 1) return;
    if (__tsan_release) __tsan_release(&tm->tag);
    if (++tm->arrived == tm->n) { tm->arrived = 0; tm->gen++; }
    else { int g = tm->gen; block([tm, g] { return tm->gen > g; }); }
    if (__tsan_acquire) __tsan_acquire(&tm->tag);
}
int32_t __kmpc_reduce(void *, int32_t, int32_t, size_t, void *, void *, void *) { return 2; }
int32_t __kmpc_reduce_nowait(void *, int32_t, int32_t, size_t, void *, void *, void *) { return 2; }
void __kmpc_end_reduce(void *l, int32_t t, void *) { __kmpc_barrier(l, t); }
void __kmpc_end_reduce_nowait(void *, int32_t, void *) {}
int32_t __kmpc_single(void *, int32_t) { return self()->ompTid == 0; }
void __kmpc_end_single(void *, int32_t) {}
int32_t __kmpc_master(void *, int32_t) { return self()->ompTid == 0; }
void __kmpc_end_master(void *, int32_t) {}
int32_t __kmpc_masked(void *, int32_t, int32_t) { return self()->ompTid == 0; }
void __kmpc_end_masked(void *, int32_t) {}
void __kmpc_critical(void *, int32_t, void *n) { lockOp(n, true, false, false); if (__tsan_acquire) __tsan_acquire(n); }
void __kmpc_critical_with_hint(void *, int32_t, void *n, uint32_t) { lockOp(n, true, false, false); if (__tsan_acquire) __tsan_acquire(n); }
void __kmpc_end_critical(void *, int32_t, void *n) { if (__tsan_release) __tsan_release(n); unlockOp(n); }
void omp_set_lock(void *n) { lockOp(n, true, false, false); if (__tsan_acquire) __tsan_acquire(n); }
void omp_unset_lock(void *n) { if (__tsan_release) __tsan_release(n); unlockOp(n); }
void omp_init_lock(void *) {}
void omp_destroy_lock(void *) {}
int omp_get_num_threads(void) { return teamOf(self())->n; }
int omp_get_thread_num(void) { return self()->ompTid; }
int omp_get_max_threads(void) { return (int)sx_native_cfg("omp_threads", 1); }
int omp_get_num_procs(void) { return (int)sx_native_cfg("omp_threads", 1); }
int omp_in_parallel(void) { return teamOf(self())->n > 1; }
void omp_set_num_threads(int) {}
}
