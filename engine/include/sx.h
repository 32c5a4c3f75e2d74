// Harness interface. Under the symbolic engine these calls are intercepted; natively (sx_native.cpp)
// they read the values of one concrete input vector and print the observations.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
int64_t sx_int(const char *name, int64_t lo, int64_t hi);       // any integer in [lo, hi]
bool sx_bool(const char *name);                                  // either truth value
double sx_dyadic(const char *name, int64_t lo, int64_t hi, int shift); // k * 2^-shift for any integer k in [lo, hi]
int64_t sx_pick(const char *name, int64_t lo, int64_t hi);       // like sx_int, but the path splits on the value
void sx_assume(bool c);                                          // restrict to inputs where c holds
void sx_assert(bool c, const char *what);                        // the property
void sx_reach(const char *what);                                 // coverage: this point must be reachable
void sx_out(const char *name, int64_t v);                        // observation compared between engine and native run
void sx_outd(const char *name, double v);
int64_t sx_cfg(const char *name, int64_t v);                     // engine settings
void *sx_alloc(size_t n);                                        // exactly n accessible bytes, guarded
void sx_free(void *p);
bool sx_symbolic(int64_t v);                                     // engine: is the value symbolic (native: false)
void sx_thread(void (*fn)(void *), void *arg);                   // start a thread
void sx_join(void);                                              // wait for all started threads
void sx_done(void);                                              // end of the path
}
// exact integer arithmetic for oracles: a 128 bit value in both worlds
typedef __int128 sx_i128;
