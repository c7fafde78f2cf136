// A clock the harness controls: all ways the library asks for the time, and waiting in epoll.
#ifndef VCLOCK_H
#define VCLOCK_H
#include "vt.h"
#include <dlfcn.h>
#include <sys/epoll.h>
#include <sys/time.h>
#include <atomic>
namespace vc {
inline std::atomic<int> &on() { static std::atomic<int> v(0); return v; }
inline std::atomic<uint64_t> &mono_us() { static std::atomic<uint64_t> v(1000000000ULL); return v; }
inline std::atomic<int64_t> &wall_off_us() { static std::atomic<int64_t> v(1600000000LL * 1000000); return v; } // wall = mono + offset
inline std::atomic<uint64_t> &asked() { static std::atomic<uint64_t> v(0); return v; }
inline std::atomic<int> &tick_us() { static std::atomic<int> v(1); return v; } // passes with every question
inline uint64_t now() { return mono_us(); }
inline void advance(uint64_t us) { mono_us() += us; }
inline int (*&wait_hook())(int, struct epoll_event *, int, int) { static int (*f)(int, struct epoll_event *, int, int) = 0; return f; }
template <class F> F real(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
}
extern "C" {
int clock_gettime(clockid_t c, struct timespec *t) {
    static int (*f)(clockid_t, struct timespec *) = vc::real<int (*)(clockid_t, struct timespec *)>("clock_gettime");
    if (!vc::on()) return f(c, t);
    vc::asked()++; uint64_t u = vc::mono_us() += (uint64_t)(int)vc::tick_us();
    if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) u += (int64_t)vc::wall_off_us();
    t->tv_sec = u / 1000000; t->tv_nsec = (u % 1000000) * 1000; return 0;
}
int gettimeofday(struct timeval *t, void *) noexcept {
    struct timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0;
}
time_t time(time_t *p) noexcept { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); if (p) *p = s.tv_sec; return s.tv_sec; }
int epoll_wait(int ep, struct epoll_event *e, int n, int ms) {
    static int (*f)(int, struct epoll_event *, int, int) = vc::real<int (*)(int, struct epoll_event *, int, int)>("epoll_wait");
    if (!vc::on() || !vc::wait_hook()) return f(ep, e, n, ms);
    int k = f(ep, e, n, 0);
    if (k != 0) return k;
    return vc::wait_hook()(ep, e, n, ms);
}
int epoll_pwait(int ep, struct epoll_event *e, int n, int ms, const sigset_t *s) {
    static int (*f)(int, struct epoll_event *, int, int, const sigset_t *) = vc::real<int (*)(int, struct epoll_event *, int, int, const sigset_t *)>("epoll_pwait");
    if (!vc::on() || !vc::wait_hook()) return f(ep, e, n, ms, s);
    return epoll_wait(ep, e, n, ms);
}
}
#endif
