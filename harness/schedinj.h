// Schedule perturbation: link with SCHED_WRAP (specs.py).  Random pauses around every lock, unlock,
// signal and wait of the code under test, and spurious wake-ups, which POSIX allows at any time.
#ifndef SCHEDINJ_H
#define SCHEDINJ_H
#include "vt.h"
#include <atomic>
namespace si {
inline std::atomic<int> &level() { static std::atomic<int> l(0); return l; }     // percent of calls that pause
inline std::atomic<int> &spurious() { static std::atomic<int> l(0); return l; }  // percent of waits that return at once
inline std::atomic<uint64_t> &salt() { static std::atomic<uint64_t> l(1); return l; }
inline std::atomic<uint64_t> &n_pause() { static std::atomic<uint64_t> l(0); return l; }
inline std::atomic<uint64_t> &n_spur() { static std::atomic<uint64_t> l(0); return l; }
inline std::atomic<int> &fail_create() { static std::atomic<int> l(0); return l; } // percent of pthread_create calls that fail
inline uint64_t rnd() {
    static __thread uint64_t s = 0;
    if (!s) s = salt().fetch_add(0x9E3779B97F4A7C15ULL, std::memory_order_relaxed) | 1;
    s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s >> 11;
}
inline void pause_() {
    if (vt::in_runtime()) return;
    int l = level().load(std::memory_order_relaxed);
    if (!l || (int)(rnd() % 100) >= l) return;
    n_pause().fetch_add(1, std::memory_order_relaxed);
    switch (rnd() % 8) { case 0: vt::sleep_us(rnd() % 120); break; case 1: case 2: for (int i = 0, n = rnd() % 300; i < n; i++) asm volatile("" ::: "memory"); break; default: sched_yield(); }
}
inline void begin(vt::Rng &r) { salt() = r.next() | 1; level() = r.chance(70) ? (int)r.below(40) : 0; spurious() = r.chance(60) ? (int)r.below(50) : 0; }
inline void end() { level() = 0; spurious() = 0; fail_create() = 0; }
inline void report() { vt::count("inj_pauses", n_pause().exchange(0)); vt::count("inj_spurious_wakeups", n_spur().exchange(0)); }
}
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t *m); int __real_pthread_mutex_unlock(pthread_mutex_t *m);
int __real_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m); int __real_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *t);
int __real_pthread_cond_signal(pthread_cond_t *c); int __real_pthread_cond_broadcast(pthread_cond_t *c);
int __real_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *p);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { si::pause_(); return __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { int r = __real_pthread_mutex_unlock(m); si::pause_(); return r; }
static bool si_spur(pthread_mutex_t *m) {
    int s = si::spurious().load(std::memory_order_relaxed); if (vt::in_runtime() || !s || (int)(si::rnd() % 100) >= s) return false;
    si::n_spur().fetch_add(1, std::memory_order_relaxed); __real_pthread_mutex_unlock(m);
    if (si::rnd() % 4 == 0) vt::sleep_us(si::rnd() % 200); else sched_yield();
    __real_pthread_mutex_lock(m); return true;
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (si_spur(m)) return 0; return __real_pthread_cond_wait(c, m); }
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *t) { if (si_spur(m)) return 0; return __real_pthread_cond_timedwait(c, m, t); }
int __wrap_pthread_cond_signal(pthread_cond_t *c) { si::pause_(); int r = __real_pthread_cond_signal(c); si::pause_(); return r; }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { si::pause_(); int r = __real_pthread_cond_broadcast(c); si::pause_(); return r; }
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *p) {
    int s = si::fail_create().load(std::memory_order_relaxed); if (s && (int)(si::rnd() % 100) < s) return EAGAIN;
    si::pause_(); return __real_pthread_create(t, a, f, p);
}
}
#endif
