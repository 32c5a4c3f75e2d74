// Prepended to the sources of the bitcode and thread sanitizer builds. Copying a shared pointer orders nothing; giving one up is
// ordered before the destruction of what it points to. libstdc++'s counters are acquire-release operations throughout, which
// would hide races behind every copy of a shared pointer that happens in between.
#pragma once
#if defined(__cplusplus)
#ifndef _GLIBCXX_TSAN
#define _GLIBCXX_TSAN 1
#endif
extern "C" void __tsan_acquire(void *addr);
extern "C" void __tsan_release(void *addr);
#define _GLIBCXX_SYNCHRONIZATION_HAPPENS_BEFORE(A) __tsan_release((void *)(A))
#define _GLIBCXX_SYNCHRONIZATION_HAPPENS_AFTER(A) __tsan_acquire((void *)(A))
#undef __ATOMIC_ACQ_REL
#define __ATOMIC_ACQ_REL 0
#include <ext/atomicity.h>
#include <bits/shared_ptr.h>
#undef __ATOMIC_ACQ_REL
#define __ATOMIC_ACQ_REL 4
#endif
