// C31: mutexes, reader/writer and spin locks, conditions, threads, singletons under contention.
#include "vt.h"
#include <atomic>
#include <sys/syscall.h>
#include <functional>
#include "CLock.h"
#include "CThread.h"
#include "CSingleton.h"
using namespace vt;
using namespace lce;

template <class P> static bool until(P p, int ms) { uint64_t end = now_us() + ms * 1000ULL; while (!p()) { if (now_us() > end) return p(); sleep_us(20); } return true; }
struct Run { std::function<void()> f; pthread_t t; };
static void *run_main(void *a) { ((Run *)a)->f(); return 0; }
struct Crew { // n threads through one start gate
    std::vector<Run *> r; std::atomic<int> go;
    Crew() : go(0) {}
    void add(std::function<void()> f) { Run *x = new Run; x->f = [this, f]() { while (!go) ; f(); }; r.push_back(x); }
    void run() { for (size_t i = 0; i < r.size(); i++) pthread_create(&r[i]->t, 0, run_main, r[i]); go = 1; for (size_t i = 0; i < r.size(); i++) { pthread_join(r[i]->t, 0); delete r[i]; } r.clear(); }
};
static void pause_a_bit(Rng &r) { int k = (int)r.below(10); if (k == 0) sleep_us(r.below(50)); else if (k < 3) sched_yield(); }

// ---- mutual exclusion -----------------------------------------------------------------------
static void locks(Rng &r) {
    CMutex mu; CSpinLock sp; bool spin = r.chance(35);
    CLock &l = spin ? (CLock &)sp : (CLock &)mu;
    long a = 0, b = 0, want = 0; int inside = 0; std::atomic<long> got(0), tried(0);
    int n = 2 + (int)r.below(5), it = 20 + (int)r.below(100); Crew c;
    for (int i = 0; i < n; i++) { uint64_t s = r.next(); c.add([&, s]() { Rng q(s);
        for (int k = 0; k < it; k++) {
            int how = (int)q.below(4);
            if (how == 0) { if (!l.tryLock()) { tried++; continue; } }
            else if (how == 1) { if (!l.lock()) { fail("lock", "lock reports failure"); return; } }
            else {
                try { CAutoLock g(l); if (inside++ != 0) fail("exclusion", "two threads inside one lock"); a++; pause_a_bit(q); b++; if (a != b) fail("exclusion", "update of another thread seen half done"); inside--; got++; if (how == 3 && q.chance(20)) throw 1; }
                catch (int) { count("guards_unwound"); }
                continue;
            }
            if (inside++ != 0) fail("exclusion", "two threads inside one lock");
            a++; pause_a_bit(q); b++; if (a != b) fail("exclusion", "update of another thread seen half done");
            inside--; got++;
            if (!l.unlock()) fail("unlock", "unlock reports failure");
        } }); }
    c.run(); (void)want;
    VT_CHECK(a == got && b == got, "lost-update", fmt("%ld of %ld updates under the lock survived", a, got.load()));
    VT_CHECK(l.tryLock(), "still-locked", "the lock is still held after everybody released it");
    std::atomic<int> other(-1); Run x; x.f = [&]() { other = l.tryLock() ? 1 : 0; if (other == 1) l.unlock(); };
    pthread_create(&x.t, 0, run_main, &x); pthread_join(x.t, 0);
    VT_CHECK(other == 0, "trylock-held", "tryLock succeeds on a lock another thread holds"); l.unlock();
    count(spin ? "spin_sections" : "mutex_sections", got); count("try_refused", tried);
}
static void rwlocks(Rng &r) {
    CReadWriteLock l; long a = 0, b = 0; std::atomic<int> readers(0), writers(0); std::atomic<long> wr(0), rd(0); std::atomic<int> max_readers(0);
    int n = 3 + (int)r.below(4), it = 60; Crew c;
    for (int i = 0; i < n; i++) { uint64_t s = r.next(); c.add([&, s]() { Rng q(s);
        for (int k = 0; k < it; k++) {
            if (q.chance(30)) {
                if (q.chance(30)) { if (!l.tryWriteLock()) continue; } else if (!l.writeLock()) { fail("rw-lock", "writeLock reports failure"); return; }
                if (writers++ || readers) fail("rw-exclusion", "a writer is not alone");
                a++; pause_a_bit(q); b++; wr++; writers--;
            } else {
                if (q.chance(30)) { if (!l.tryReadLock()) continue; } else if (!l.readLock()) { fail("rw-lock", "readLock reports failure"); return; }
                int m = ++readers; if (m > max_readers) max_readers = m;
                if (writers) fail("rw-exclusion", "a reader is inside together with a writer");
                long x = a; pause_a_bit(q); if (x != a || a != b) fail("rw-stable", "data changed under a read lock"); rd++; readers--;
            }
            if (!l.unlock()) fail("rw-unlock", "unlock reports failure");
        } }); }
    c.run();
    VT_CHECK(a == wr && b == wr, "rw-lost-update", "updates under the write lock were lost");
    // readers share
    VT_CHECK(l.readLock(), "rw-lock", "readLock reports failure");
    std::atomic<int> shared(-1), excl(-1); Run x; x.f = [&]() { shared = l.tryReadLock(); if (shared == 1) l.unlock(); excl = l.tryWriteLock(); if (excl == 1) l.unlock(); };
    pthread_create(&x.t, 0, run_main, &x); pthread_join(x.t, 0); l.unlock();
    VT_CHECK(shared == 1, "rw-not-shared", "a second reader is refused"); VT_CHECK(excl == 0, "rw-exclusion", "a writer gets in while a reader holds the lock");
    // a try fails at once while a writer is inside
    VT_CHECK(l.writeLock(), "rw-lock", "writeLock reports failure"); shared = excl = -1;
    x.f = [&]() { bool b = l.tryReadLock(); if (b) l.unlock(); shared = b; b = l.tryWriteLock(); if (b) l.unlock(); excl = b; };
    pthread_create(&x.t, 0, run_main, &x); bool prompt = until([&]() { return excl >= 0; }, 5000); l.unlock(); pthread_join(x.t, 0);
    VT_CHECK(prompt, "rw-try-waits", "a try for the lock waits for the writer inside"); VT_CHECK(!prompt || (shared == 0 && excl == 0), "rw-exclusion", "somebody gets in while a writer holds the lock"); count("rw_tries_refused", 2);
    VT_CHECK(l.tryReadLock() && l.unlock() && l.tryWriteLock() && l.unlock(), "rw-still-locked", "the lock is still held after everybody released it");
    count("rw_writes", wr); count("rw_reads", rd); distinct("shape", fnv(fmt("rw%d,%d", n, max_readers.load())));
}
// time stamps as the library sees them: with g_round the microseconds are cut to milliseconds, so that a wait can be made to end exactly on a full second
static __thread int g_round;
extern "C" int clock_gettime(clockid_t id, struct timespec *t) { int rc = (int)syscall(SYS_clock_gettime, id, t); if (rc == 0 && g_round && (id == CLOCK_REALTIME || id == CLOCK_MONOTONIC)) t->tv_nsec -= t->tv_nsec % 1000000; return rc; }
extern "C" int gettimeofday(struct timeval *tv, void *) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0; }
// ---- conditions -------------------------------------------------------------------------------
static void conditions(Rng &r) {
    CMutex m; Condition c; int tokens = 0, waiting = 0; long taken = 0; bool end = false; int consumers = 1 + (int)r.below(4), producers = 1 + (int)r.below(3), each = 30 + (int)r.below(80);
    bool timed = r.chance(40), bc = r.chance(30); std::atomic<int> done(0), bad(0); long total = (long)producers * each;
    Crew crew;
    for (int i = 0; i < consumers; i++) crew.add([&]() { m.lock();
        while (true) { while (tokens == 0 && !end) { waiting++; bool ok = timed ? c.wait(m, 20000) : c.wait(m); waiting--; if (!ok) { bad++; } } if (tokens == 0 && end) break; tokens--; taken++; if (taken == total) { end = true; c.broadcast(); } }
        m.unlock(); done++; });
    for (int i = 0; i < producers; i++) { uint64_t s = r.next(); crew.add([&, s]() { Rng q(s); for (int k = 0; k < each; k++) { m.lock(); tokens++; bool out = q.chance(50); if (!out) { bool ok = bc ? c.broadcast() : c.signal(); if (!ok) fail("signal", "signal reports failure"); } m.unlock(); if (out) { bool ok = bc ? c.broadcast() : c.signal(); if (!ok) fail("signal", "signal reports failure"); } pause_a_bit(q); } }); }
    crew.run(); // a lost wake-up hangs here: reported as a hang
    VT_CHECK(taken == total, "tokens", "tokens were lost");
    VT_CHECK(bad == 0, timed ? "early-timeout" : "wait-failed", timed ? "a wait of 20 s gave up although it was notified at once" : "wait reports failure");
    count("wakeups", total);
}
static void timed_waits(Rng &r) { // without notification: about the given time; with: at once
    int n = 6; Crew crew;
    for (int i = 0; i < n; i++) { uint64_t s = r.next(); crew.add([s]() { Rng q(s); CMutex m; Condition c;
        static const int T[] = {0, 1, 5, 20, 120, 300, 600, 999, 1000, 1300}; int t = T[q.below(10)];
        m.lock(); uint64_t t0 = now_us(); bool ok; int spurious = 0;
        do { ok = c.wait(m, t); } while (ok && ++spurious < 3);
        uint64_t el = now_us() - t0; bool held = !m.tryLock(); m.unlock();
        VT_CHECK(!ok, "no-timeout", fmt("a wait of %d ms nobody notified reports a notification", t));
        VT_CHECK(held, "wait-unlocked", "the mutex is not held after a timed wait");
        VT_CHECK(el + 1500 >= (uint64_t)t * 1000, "early-timeout", fmt("a wait of %d ms ended after %llu us", t, (unsigned long long)el));
        VT_CHECK(el < (uint64_t)t * 1000 + 3000000, "late-timeout", fmt("a wait of %d ms ended after %llu us", t, (unsigned long long)el));
        count("timeouts"); distinct("shape", fnv(fmt("t%d", t))); }); }
    uint64_t cs = r.next(); crew.add([cs]() { Rng q(cs); // due exactly at a full second
        CMutex m; Condition c; struct timespec ts; g_round = 1; clock_gettime(q.chance(20) ? CLOCK_REALTIME : CLOCK_MONOTONIC, &ts); int t = 1000 - (int)(ts.tv_nsec / 1000000); m.lock(); uint64_t t0 = now_us(); bool ok = c.wait(m, t); uint64_t el = now_us() - t0; clock_gettime(CLOCK_REALTIME, &ts); m.unlock(); g_round = 0;
        VT_CHECK(!ok, "no-timeout", "a wait nobody notified reports a notification"); VT_CHECK(el + 2500 >= (uint64_t)t * 1000, "early-timeout", fmt("a wait of %d ms ended after %llu us", t, (unsigned long long)el)); count("full_seconds"); });
    crew.run();
    CMutex m; Condition c; bool flag = false; std::atomic<int> st(0); uint64_t el = 0; bool ok = false; Run x;
    x.f = [&]() { m.lock(); st = 1; uint64_t t0 = now_us(); while (!flag) { ok = c.wait(m, 15000); if (!ok) break; } el = now_us() - t0; m.unlock(); st = 2; };
    pthread_create(&x.t, 0, run_main, &x); while (st == 0) sleep_us(20); sleep_us(r.below(3000)); m.lock(); flag = true; c.signal(); m.unlock(); pthread_join(x.t, 0);
    VT_CHECK(ok && el < 10000000, "missed-signal", fmt("a timed wait did not notice its notification (%llu us)", (unsigned long long)el));
}
// ---- threads ----------------------------------------------------------------------------------
struct Th : CThread {
    std::function<int(Th *)> f; std::atomic<int> runs, ended; long data; pthread_t self;
    Th() : runs(0), ended(0), data(0) {}
    int run() { self = pthread_self(); runs++; int x = f(this); ended++; return x; }
};
static long vm_pages() { long v = 0; FILE *f = fopen("/proc/self/statm", "r"); if (f) { if (fscanf(f, "%ld", &v) != 1) v = 0; fclose(f); } return v; }
static void threads(Rng &r) {
    int kind = (int)r.below(11); count(fmt("thread_kind_%d", kind));
    switch (kind) {
    case 0: { // start, join: the body ran once, its effects are visible
        Th t; t.data = 5; t.f = [](Th *x) { x->data = x->data * 3; return 0; };
        VT_CHECK(t.start() == 0, "start", "start fails"); VT_CHECK(t.join() == 0, "join", "join fails");
        VT_CHECK(t.runs == 1 && t.ended == 1 && t.data == 15, "body", fmt("body ran %d times, ended %d times", t.runs.load(), t.ended.load())); break; }
    case 1: { // an ended and joined thread is gone: what starts afterwards is not affected by its object
        Th *a = new Th; a->f = [](Th *) { return 0; }; a->start(); a->join();
        std::atomic<int> go(0), fin(0); Run x; x.f = [&]() { while (!go) { sleep_us(50); pthread_testcancel(); } fin = 1; };
        pthread_create(&x.t, 0, run_main, &x);
        if (r.chance(50)) a->stop(); delete a; go = 1;
        bool ok = until([&]() { return fin == 1; }, 5000);
        VT_CHECK(ok, "foreign-cancel", "deleting the object of a joined thread ended another thread");
        if (ok) { VT_CHECK(pthread_join(x.t, 0) == 0, "foreign-detach", "deleting the object of a joined thread detached another thread"); } break; }
    case 2: { // stop is seen by the body
        Th t; std::atomic<int> in(0); t.f = [&](Th *x) { in = 1; int old; pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &old); while (!x->isStoped()) sched_yield(); x->data = 9; return 0; };
        t.start(); if (r.chance(70)) while (!in) sleep_us(10);
        if (r.chance(50)) sleep_us(r.below(300));
        if (!in) { while (!in) sleep_us(10); }
        t.stop(); VT_CHECK(t.isStoped(), "stop-flag", "isStoped is false after stop"); t.join(); VT_CHECK(t.data == 9, "stop", "body did not end regularly"); break; }
    case 3: { // stop ends a body that sleeps
        Th t; std::atomic<int> in(0); t.f = [&](Th *) { in = 1; sleep(1000); return 0; };
        t.start(); while (!in) sleep_us(10); uint64_t t0 = now_us(); t.stop(); t.join(); VT_CHECK(now_us() - t0 < 5000000, "stop-slow", "stop did not end a sleeping thread"); break; }
    case 4: { // the body stops itself right away: not forgotten
        Th t; t.f = [](Th *x) { int old; pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &old); x->stop(); for (int i = 0; i < 200; i++) { if (!x->isStoped()) { x->data = 1; break; } if (i % 10 == 0) sched_yield(); } return 0; };
        t.start(); t.join(); VT_CHECK(t.data == 0, "stop-forgotten", "a stop request during start was forgotten"); break; }
    case 5: { // again after join
        Th t; t.f = [](Th *x) { x->data++; return 0; }; int n = 2 + (int)r.below(3);
        for (int i = 0; i < n; i++) { if (r.chance(30)) { t.stop(); } VT_CHECK(t.start() == 0, "restart", "start after join fails"); VT_CHECK(!t.isStoped() || t.ended > i, "restart-stopped", "a started thread is marked as stopped"); t.join(); }
        VT_CHECK(t.data == n, "restart", fmt("%d starts ran the body %ld times", n, t.data)); break; }
    case 6: { // any order without a thread
        Th t; int n = (int)r.below(5); for (int i = 0; i < n; i++) { int k = (int)r.below(3); if (k == 0) t.stop(); else if (k == 1) t.join(); else t.detach(); } VT_CHECK(t.runs == 0, "phantom", "a thread ran that was never started"); break; }
    case 7: { // detached, ended: the object no longer reaches any thread
        Th *a = new Th; a->f = [](Th *) { return 0; }; a->start(); a->detach(); until([&]() { return a->ended == 1; }, 20000); sleep_us(2000);
        std::atomic<int> go(0), fin(0); Run x; x.f = [&]() { while (!go) { sleep_us(50); pthread_testcancel(); } fin = 1; };
        pthread_create(&x.t, 0, run_main, &x);
        if (r.chance(50)) a->stop(); delete a; go = 1;
        bool ok = until([&]() { return fin == 1; }, 5000);
        VT_CHECK(ok, "foreign-cancel", "stopping a thread that had ended cancelled another one");
        if (ok) VT_CHECK(pthread_join(x.t, 0) == 0, "foreign-detach", "the object of an ended thread detached another one"); break; }
    case 9: { // after a detached run the next one can be joined again
        Th t; t.f = [](Th *x) { if (x->runs > 1) sleep_us(3000); x->data++; return 0; }; t.start(); t.detach(); until([&]() { return t.ended == 1; }, 20000);
        for (int i = 2; i < 4; i++) { VT_CHECK(t.start() == 0, "restart", "start after a detached run fails"); VT_CHECK(t.join() == 0, "join", "join after a detached run fails"); VT_CHECK(t.ended == i, "join-early", "join returned before the body had ended"); } break; }
    case 10: { // deleting the object of an ended thread that nobody joined releases the thread
        long v0 = vm_pages(); int n = 24; for (int i = 0; i < n; i++) { Th *t = new Th; t->f = [](Th *) { return 0; }; t->start(); until([&]() { return t->ended == 1; }, 20000); sleep_us(300); delete t; }
        until([&]() { return (vm_pages() - v0) * 4 < n * 8192L / 2; }, 2000); long kb = (vm_pages() - v0) * 4; VT_CHECK(kb < n * 8192L / 2, "thread-leak", fmt("%d ended threads left %ld KiB of address space", n, kb)); break; }
    case 8: { // many at once
        int n = 2 + (int)r.below(8); std::vector<Th *> v; std::atomic<long> sum(0); for (int i = 0; i < n; i++) { Th *t = new Th; t->data = i; t->f = [&sum](Th *x) { sum += x->data; return 0; }; v.push_back(t); }
        for (int i = 0; i < n; i++) VT_CHECK(v[i]->start() == 0, "start", "start fails");
        for (int i = 0; i < n; i++) { v[i]->join(); VT_CHECK(v[i]->runs == 1, "body", "body did not run once"); delete v[i]; }
        VT_CHECK(sum == (long)n * (n - 1) / 2, "body-object", "bodies ran with the wrong objects"); break; }
    }
}
// ---- singletons ---------------------------------------------------------------------------------
static std::atomic<int> g_made[400];
template <int I> struct One { long a, b; One() { g_made[I]++; a = I; sched_yield(); if (I % 3 == 0) sleep_us(30); b = I * 7; } };
template <int I> struct Probe {
    static void go(Rng &r) {
        int n = 3 + (int)r.below(4); std::vector<void *> p(n, (void *)0); std::atomic<int> bad(0); Crew c;
        for (int i = 0; i < n; i++) c.add([&, i]() { One<I> &o = CSingleton<One<I> >::getInstance(); p[i] = &o; if (o.a != I || o.b != I * 7) bad++; });
        c.run();
        VT_CHECK(g_made[I] == 1, "singleton-count", fmt("%d instances constructed", g_made[I].load())); VT_CHECK(bad == 0, "singleton-half", "an instance was handed out before it was complete");
        for (int i = 1; i < n; i++) VT_CHECK(p[i] == p[0], "singleton-same", "two instances handed out"); count("singletons");
        Probe<I - 1>::go(r);
    }
};
template <> struct Probe<0> { static void go(Rng &) {} };

static void one(Rng &r, uint64_t i) {
    int k = (int)(i % 8);
    if (k == 0) locks(r); else if (k == 1) rwlocks(r); else if (k == 2) conditions(r); else if (k == 3 && i % 16 == 3) timed_waits(r); else threads(r);
    distinct("shape", fnv(fmt("%d/%llu", k, (unsigned long long)r.below(1000000))));
}
int main(int argc, char **argv) {
    init(argc, argv);
    Rng r = case_rng(31); Probe<150>::go(r);
    cases(one);
    return done();
}
