// C17: the ring queue between two threads loses and invents nothing.
#include "vt.h"
#include <atomic>
#include <iostream>
#include "CCircleQueue.h"
using namespace vt;
using namespace lce;

struct El { int v; uint32_t a, b, c; std::string s; El(int x = -1) : v(x), a(x * 3u + 1), b(x * 7u + 5), c(~(uint32_t)x), s(fmt("own-memory-%d-of-this-element", x)) {}
    bool whole() const { return a == v * 3u + 1 && b == v * 7u + 5 && c == ~(uint32_t)v && s == fmt("own-memory-%d-of-this-element", v); } };
struct Pod { uint64_t w[6]; };
static Pod mk(uint64_t i) { Pod p; for (int k = 0; k < 6; k++) p.w[k] = i * 0x9E3779B97F4A7C15ULL + k; return p; }
static std::atomic<int> g_live(0);
struct Cnt { int v; Cnt(int x = 0) : v(x) { g_live++; } Cnt(const Cnt &o) : v(o.v) { g_live++; } ~Cnt() { g_live--; } };

static void seq(Rng &r, uint32_t cap) { // one thread, against a plain deque
    CCircleQueue<El> *q = new CCircleQueue<El>; El e;
    if (r.chance(20)) { // before init nothing fits and nothing is there
        VT_CHECK(q->empty() && q->full(), "before-init", fmt("before init: empty() %d full() %d", q->empty(), q->full()));
        VT_CHECK(!q->enque(El(3)) && !q->deque(e), "before-init", "an operation before init succeeded"); count("before_init");
    }
    if (r.chance(5)) { q->init(0); cap = 1000; } else q->init(cap);
    std::deque<int> m; int next = 0; uint64_t h = cap; int fill = (int)r.below(100);
    int n = (int)std::min<uint32_t>(300 + cap * 4, 6000);
    for (int i = 0; i < n; i++) {
        if (r.chance(2)) fill = r.chance(40) ? (r.chance(50) ? 97 : 3) : (int)r.below(100);
        if ((int)r.below(100) < fill) {
            bool ok = q->enque(El(next)), want = m.size() < cap; if (ok) m.push_back(next); next++;
            if (ok != want) { fail("seq:enque", fmt("capacity %u with %zu elements: enque %s", cap, m.size() - ok, ok ? "accepted" : "refused")); break; }
            if (!ok) count("seq_full");
        } else {
            bool ok = q->deque(e), want = !m.empty();
            if (ok != want) { fail("seq:deque", fmt("capacity %u with %zu elements: deque %s", cap, m.size(), ok ? "gave one" : "refused")); break; }
            if (ok) { if (e.v != m.front() || !e.whole()) { fail("seq:value", fmt("capacity %u: deque gave %d (whole: %d), expected %d", cap, e.v, e.whole(), m.front())); break; } m.pop_front(); } else count("seq_empty");
        }
        if (q->empty() != m.empty() || q->full() != (m.size() >= cap)) { fail("seq:state", fmt("capacity %u with %zu elements: empty() %d full() %d", cap, m.size(), q->empty(), q->full())); break; }
        h = h * 31 + m.size(); count("seq_ops");
        if (r.chance(1) && r.chance(30)) { cap = 1 + (uint32_t)r.below(20); q->init(cap); m.clear(); count("reinits"); }
    }
    distinct("history", h); delete q;
    { int base = g_live; { CCircleQueue<Cnt> c; c.init(cap); for (uint32_t i = 0; i < cap; i++) c.enque(Cnt(i)); } VT_CHECK(g_live == base, "element-leak", "elements were not destroyed with the queue"); }
}
// The harness' own book-keeping uses relaxed atomics only, so that it orders nothing for the queue.
template <class T> struct Duo { CCircleQueue<T> q; uint32_t cap; uint64_t n; std::atomic<uint64_t> enq_done, deq_start, deq_done; uint64_t salt; int pa, ca; std::atomic<int> left; std::atomic<uint64_t> refused_full, refused_empty; std::atomic<bool> stop; };
static El make(El *, uint64_t i) { return El((int)i); }
static Pod make(Pod *, uint64_t i) { return mk(i); }
static bool same(const El &e, uint64_t i) { return e.v == (int)i && e.whole(); }
static bool same(const Pod &p, uint64_t i) { Pod q = mk(i); return !memcmp(&p, &q, sizeof p); }
static void dawdle(Rng &r, int mood) { if (mood == 0) return; if ((int)r.below(100) < mood) { switch (r.below(4)) { case 0: sched_yield(); break; case 1: sleep_us(r.below(60)); break; default: for (int i = 0, n = r.below(400); i < n; i++) asm volatile("" ::: "memory"); } } }
template <class T> static void *producer(void *p) {
    Duo<T> *d = (Duo<T> *)p; Rng r(d->salt);
    for (uint64_t i = 0; i < d->n && !d->stop.load(std::memory_order_relaxed);) {
        uint64_t done_before = d->deq_done.load(std::memory_order_relaxed);
        T v = make((T *)0, i);
        bool ok = d->q.enque(v);
        if (ok) {
            uint64_t started = d->deq_start.load(std::memory_order_relaxed);
            if (i + 1 > started + d->cap) fail("over-capacity", fmt("capacity %u: element %llu accepted while at most %llu were taken", d->cap, (unsigned long long)i, (unsigned long long)started));
            i++; d->enq_done.store(i, std::memory_order_relaxed);
        } else {
            if (i - done_before < d->cap) fail("refused-not-full", fmt("capacity %u: refused with at most %llu elements held", d->cap, (unsigned long long)(i - done_before)));
            d->refused_full.fetch_add(1, std::memory_order_relaxed); if (r.chance(30)) sched_yield();
        }
        dawdle(r, d->pa);
    }
    d->left.fetch_sub(1, std::memory_order_relaxed); return 0;
}
template <class T> static void *consumer(void *p) {
    Duo<T> *d = (Duo<T> *)p; Rng r(d->salt + 1); T v = make((T *)0, 77);
    for (uint64_t i = 0; i < d->n && !d->stop.load(std::memory_order_relaxed);) {
        uint64_t have = d->enq_done.load(std::memory_order_relaxed); bool peek = r.chance(5);
        if (peek && d->q.empty() && have > i) fail("empty-not-empty", "empty() although an element was accepted and not taken");
        d->deq_start.store(i + 1, std::memory_order_relaxed);
        bool ok = d->q.deque(v);
        if (ok) { if (!same(v, i)) { fail("value", fmt("capacity %u: element %llu arrived wrong, cut or out of order: %s", d->cap, (unsigned long long)i, hex(&v, sizeof v).c_str())); d->stop.store(true, std::memory_order_relaxed); break; } i++; d->deq_done.store(i, std::memory_order_relaxed); }
        else { if (have > i) fail("refused-not-empty", fmt("capacity %u: nothing to take although %llu elements were accepted and %llu taken", d->cap, (unsigned long long)have, (unsigned long long)i)); d->refused_empty.fetch_add(1, std::memory_order_relaxed); if (r.chance(30)) sched_yield(); }
        dawdle(r, d->ca);
    }
    d->left.fetch_sub(1, std::memory_order_relaxed); return 0;
}
template <class T> static void duo(Rng &r, const char *what) {
    Duo<T> *d = new Duo<T>; d->cap = r.chance(70) ? 1 + (uint32_t)r.below(5) : 1 + (uint32_t)r.below(300); d->n = 2000 + r.below(4000); d->enq_done = 0; d->deq_start = 0; d->deq_done = 0; d->salt = r.next();
    d->pa = r.chance(50) ? 0 : (int)r.below(20); d->ca = r.chance(50) ? 0 : (int)r.below(20); d->left = 2; d->refused_full = 0; d->refused_empty = 0; d->stop = false; d->q.init(d->cap);
    pthread_t a, b; pthread_create(&a, 0, producer<T>, d); pthread_create(&b, 0, consumer<T>, d);
    uint64_t end = now_us() + 60000000; while (d->left.load(std::memory_order_relaxed) > 0) { if (now_us() > end) { fail("stuck", fmt("capacity %u: producer and consumer make no progress at %llu/%llu", d->cap, (unsigned long long)d->enq_done.load(), (unsigned long long)d->deq_done.load())); die_now(); } if (st().violations) { d->stop = true; } sleep_us(50); }
    pthread_join(a, 0); pthread_join(b, 0);
    if (!d->stop) VT_CHECK(d->q.empty() && !d->q.full(), "left-over", "the queue is not empty after everything was taken");
    count("handed_over", d->deq_done); count("refused_full", d->refused_full); count("refused_empty", d->refused_empty);
    uint64_t h = fnv(what, strlen(what)) + d->cap; h = h * 1000003 + d->refused_full; h = h * 1000003 + d->refused_empty; distinct("history", h);
    if (r.chance(4)) sample(fmt("%s capacity %u: %llu elements handed over, %llu refusals when full, %llu when empty", what, d->cap, (unsigned long long)d->deq_done, (unsigned long long)d->refused_full, (unsigned long long)d->refused_empty));
    delete d;
}
static void one(Rng &r, uint64_t i) {
    if (i < 8) for (uint32_t c = 1 + (uint32_t)i; c <= 40; c += 8) seq(r, c);
    seq(r, r.chance(80) ? 1 + (uint32_t)r.below(8) : 1 + (uint32_t)r.below(1200));
    duo<El>(r, "strings"); duo<Pod>(r, "words");
}
int main(int argc, char **argv) { init(argc, argv); cases(one); return done(); }
