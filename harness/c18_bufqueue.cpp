// C18: the shared buffer queue is a FIFO of intact messages, across processes too.
#include "vt.h"
#include <atomic>
#include <iostream>
#include "CBufferQueue.h"
using namespace vt;
using namespace lce;

static const unsigned long HEAD = 5 * sizeof(unsigned long); // smallest buffer the library takes is derived below
static std::string msg(uint64_t i, size_t n) { std::string s(n, 0); uint64_t x = i * 0x9E3779B97F4A7C15ULL + n; for (size_t k = 0; k < n; k++) { if (k % 8 == 0) x = x * 6364136223846793005ULL + 1442695040888963407ULL; s[k] = (char)(x >> (8 * (k % 8))); } return s; }
static bool push1(CBufferQueue &q, const std::string &s) { Exact e(s); try { q.push(e.p, (unsigned long)s.size()); return true; } catch (std::runtime_error &) { return false; } }
static bool push2(CBufferQueue &q, const std::string &s, size_t cut) { Exact a(s.substr(0, cut)), b(s.substr(cut)); try { q.push(a.p, (unsigned)a.n, b.p, (unsigned)b.n); return true; } catch (std::runtime_error &) { return false; } }
enum { GOT, NONE, TOOLONG };
static int pop1(CBufferQueue &q, unsigned long room, std::string &out) {
    Exact e(std::string(room, '\x5a')); unsigned long n = room;
    try { if (!q.pop(e.p, n)) return NONE; } catch (std::runtime_error &) { for (size_t i = 0; i < room; i++) if (e.p[i] != '\x5a') { fail("pop-wrote", "a pop that failed wrote into the buffer"); break; } return TOOLONG; }
    if (n > room) { fail("pop-size", fmt("pop into %lu bytes reported %lu", room, n)); n = room; }
    out.assign(e.p, n); return GOT;
}
static int pop2(CBufferQueue &q, unsigned long r1, unsigned long r2, std::string &out) {
    Exact a(std::string(r1, '\x5a')), b(std::string(r2, '\x5a')); unsigned long n1 = r1, n2 = r2;
    try { if (!q.pop(a.p, n1, b.p, n2)) return NONE; } catch (std::runtime_error &) { return TOOLONG; }
    if (n1 > r1 || n2 > r2) { fail("pop-size", fmt("pop into %lu+%lu bytes reported %lu+%lu", r1, r2, n1, n2)); return GOT; }
    out.assign(a.p, n1); out.append(b.p, n2);
    if (n2 && n1 < r1) fail("pop-split", fmt("second buffer used (%lu) although the first has room (%lu of %lu)", n2, n1, r1));
    return GOT;
}
struct Buf { char *base, *p; unsigned long n; // an exactly sized, 8 byte aligned heap block
    explicit Buf(unsigned long k) : n(k) { base = (char *)malloc(k); p = base; memset(p, 0xEE, k); } ~Buf() { free(base); } };

static unsigned long smallest() { // found by asking
    static unsigned long s = 0; if (s) return s;
    for (unsigned long n = HEAD; n < 400; n++) { Buf b(n + 1); CBufferQueue q; try { q.create(b.p, n); s = n; return s; } catch (std::runtime_error &) {} }
    fail("create", "no buffer up to 400 bytes is accepted"); return s = 400;
}
static void seq(Rng &r) {
    unsigned long lo = smallest();
    unsigned long n = lo + (r.chance(60) ? r.below(120) : r.chance(70) ? r.below(1000) : r.below(20000));
    Buf *b = new Buf(n); CBufferQueue *q = new CBufferQueue, *q2 = 0; q->create(b->p, n);
    unsigned long cap = n - HEAD; // room for marks and messages
    std::deque<std::string> m; unsigned long used = 0, payload = 0; uint64_t id = 0, h = n; int fill = (int)r.below(100);
    unsigned long big = r.chance(30) ? 12 : r.chance(50) ? cap / 3 + 1 : cap;
    for (int i = 0; i < 250; i++) {
        if (r.chance(3)) fill = (int)r.below(100);
        CBufferQueue &Q = q2 && r.chance(50) ? *q2 : *q; int k = (int)r.below(100);
        if (k < 4) { // attach again
            delete q2; q2 = new CBufferQueue; try { q2->attach(b->p, n); } catch (std::runtime_error &e) { fail("attach", fmt("attaching to a valid queue failed: %s", e.what())); break; }
            if (r.chance(30)) { CBufferQueue bad; bool t = false; try { bad.attach(b->p, r.chance(50) ? n - 1 : lo - 1); } catch (std::runtime_error &) { t = true; } VT_CHECK(t, "attach-wrong-size", "attaching with another buffer size succeeded"); }
            count("attached");
        } else if ((int)r.below(100) < fill) {
            size_t len = r.chance(3) ? 0 : r.chance(10) ? cap - r.below(std::min<unsigned long>(cap, 40)) : r.chance(25) ? cap - used - std::min<unsigned long>(cap - used, 8 + r.below(24)) : 1 + r.below(big);
            std::string s = msg(++id, len); bool two = r.chance(50), isfull = Q.full(len), was = m.size();
            bool ok = two ? push2(Q, s, r.chance(20) ? 0 : r.chance(20) ? len : r.below(len + 1)) : push1(Q, s);
            if (len == 0) { if (!ok || isfull) { fail("push-empty", "an empty message is not ignored"); break; } count("empty_pushes"); }
            else {
                bool must = used + 8 + len + 8 <= cap, mustnot = payload + len > cap;
                if (ok ? mustnot : must) { fail("push-fit", fmt("buffer %lu, %zu messages of %lu bytes: push of %zu %s", n, m.size(), payload, len, ok ? "accepted" : "refused")); break; }
                if (isfull == ok) { fail("full", fmt("full(%zu) gave %d and push %s", len, isfull, ok ? "succeeded" : "failed")); break; }
                if (ok) { m.push_back(s); used += 8 + len; payload += len; count("pushes"); } else count("refused");
            }
            (void)was; h = h * 31 + len * 2 + two;
        } else {
            std::string s; unsigned long room = r.chance(70) ? cap : r.chance(50) && m.size() ? m.front().size() + r.below(2) - (r.chance(30) ? 1 : 0) : r.below(cap); bool two = r.chance(50); unsigned long r1 = two ? (r.chance(30) && m.size() ? std::min<unsigned long>(room, m.front().size()) : r.below(room + 1)) : 0;
            if (two && r.chance(30) && m.size()) r1 = std::min<unsigned long>(room, (unsigned long)r.below(m.front().size() + 2));
            int res = two ? pop2(Q, r1, room - r1, s) : pop1(Q, room, s);
            if (m.empty() ? res != NONE : res == NONE) { fail("pop-empty", fmt("%zu messages: pop gave %d", m.size(), res)); break; }
            if (!m.empty()) {
                if (res == TOOLONG) { if (room >= m.front().size()) { fail("pop-room", fmt("message of %zu bytes does not fit into %lu?", m.front().size(), room)); break; } count("too_long"); }
                else if (s != m.front()) { fail("pop-bytes", fmt("buffer %lu: message of %zu bytes came out as %zu other bytes: %s", n, m.front().size(), s.size(), hex(s, 40).c_str())); break; }
                else count(two ? "pops2" : "pops");
                used -= 8 + m.front().size(); payload -= m.front().size(); m.pop_front();
            } else count("pop_empty");
            h = h * 37 + res;
        }
        CBufferQueue &O = q2 && r.chance(50) ? *q2 : *q;
        if (O.empty() != m.empty() || O.size() != m.size()) { fail("state", fmt("%zu messages: empty() %d size() %lu", m.size(), O.empty(), O.size())); break; }
        if (r.chance(3)) { // lengths no buffer can hold
            unsigned long huge = r.chance(50) ? ~0UL - r.below(40) : cap + 1 + r.below(1000); bool t = false; char c = 0;
            VT_CHECK(O.full(huge), "full-huge", fmt("full(%lu) is false", huge)); unsigned l2 = 0xFFFFFFFFu - (unsigned)r.below(40);
            if (huge > cap && (huge > ~0UL - 100)) { try { O.push(&c, huge); } catch (std::runtime_error &) { t = true; } VT_CHECK(t, "push-huge", "an impossible length was accepted"); }
            t = false; try { O.push(&c, 1 + (unsigned)r.below(60), &c, l2); } catch (std::runtime_error &) { t = true; } VT_CHECK(t, "push-huge", "an impossible pair of lengths was accepted"); count("huge");
        }
    }
    distinct("history", h); delete q2; delete q; delete b;
}
// one side fills, the other drains; shared between two threads or two processes
struct Ctl { std::atomic<uint64_t> pushed, pushing, popped, popping; std::atomic<int> stop; std::atomic<uint64_t> refused, empties; };
static size_t len_of(uint64_t salt, uint64_t i, unsigned long cap) { Rng r(salt + i); return 1 + (r.chance(80) ? r.below(std::max<unsigned long>(1, std::min<unsigned long>(cap - 16, 40))) : r.below(cap - 16)); }
struct Side { char *p; unsigned long n; Ctl *c; uint64_t total, salt; bool two; };
static const std::memory_order RX = std::memory_order_relaxed;
static void *fill_side(void *v) {
    Side *s = (Side *)v; CBufferQueue q; q.attach(s->p, s->n); unsigned long cap = s->n - HEAD; Rng r(s->salt * 3 + 1); uint64_t t0 = now_us();
    for (uint64_t i = 0; i < s->total && !s->c->stop.load(RX);) {
        std::string m = msg(s->salt + i, len_of(s->salt, i, cap)); uint64_t popped = s->c->popped.load(RX);
        s->c->pushing.store(i + 1, RX);
        bool ok = s->two && r.chance(50) ? push2(q, m, r.below(m.size() + 1)) : push1(q, m);
        if (ok) { i++; s->c->pushed.store(i, RX); t0 = now_us(); }
        else { s->c->pushing.store(i, RX); s->c->refused.fetch_add(1, RX); if (popped == i) { fail("refused-empty", "a push into an empty queue was refused"); s->c->stop = 1; } sched_yield(); if (now_us() - t0 > 20000000) { fail("stuck", "the filling side makes no progress"); s->c->stop = 1; } }
        if (r.chance(2)) sleep_us(r.below(60));
        if (r.chance(5)) { uint64_t a = s->c->pushed.load(RX), x = q.size(), dn = s->c->popped.load(RX), up; up = a - std::min(a, popped); if (x > up) { fail("size", fmt("size() %llu, at most %llu messages are there", (unsigned long long)x, (unsigned long long)up)); s->c->stop = 1; } (void)dn; }
    }
    return 0;
}
static void *drain_side(void *v) {
    Side *s = (Side *)v; CBufferQueue q; q.attach(s->p, s->n); unsigned long cap = s->n - HEAD; Rng r(s->salt * 3 + 2); uint64_t t0 = now_us();
    for (uint64_t i = 0; i < s->total && !s->c->stop.load(RX);) {
        uint64_t have = s->c->pushed.load(RX); std::string m; s->c->popping.store(i + 1, RX);
        if (r.chance(5)) { uint64_t x = q.size(); if (x < have - i && have > i) { fail("size", fmt("size() %llu, at least %llu messages are there", (unsigned long long)x, (unsigned long long)(have - i))); s->c->stop = 1; } if (have > i && q.empty()) { fail("empty", "empty() with messages there"); s->c->stop = 1; } }
        unsigned long r1 = r.below(cap); int res = s->two && r.chance(50) ? pop2(q, r1, cap - r1, m) : pop1(q, cap, m);
        if (res == TOOLONG) { fail("pop-room", "a message larger than the buffer"); s->c->stop = 1; }
        else if (res == NONE) { if (have > i) { fail("pop-lost", fmt("nothing to pop although message %llu was accepted", (unsigned long long)i)); s->c->stop = 1; } s->c->empties.fetch_add(1, RX); sched_yield(); if (now_us() - t0 > 20000000) { fail("stuck", "the draining side makes no progress"); s->c->stop = 1; } }
        else { std::string w = msg(s->salt + i, len_of(s->salt, i, cap)); if (m != w) { fail("pop-bytes", fmt("message %llu of %zu bytes came out as %zu other bytes", (unsigned long long)i, w.size(), m.size())); s->c->stop = 1; } i++; s->c->popped.store(i, RX); t0 = now_us(); }
        if (r.chance(2)) sleep_us(r.below(60));
    }
    return 0;
}
static void duo(Rng &r, bool proc) {
    unsigned long n = smallest() + 1 + (r.chance(70) ? r.below(200) : r.below(4000)); uint64_t total = 1500 + r.below(1500); if (n - HEAD < 18) n += 18;
    size_t sz = sizeof(Ctl) + n + 64; char *mem = (char *)mmap(0, sz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); Ctl *c = new (mem) Ctl(); c->pushed = 0; c->pushing = 0; c->popped = 0; c->popping = 0; c->stop = 0; c->refused = 0; c->empties = 0;
    Buf *b = proc ? 0 : new Buf(n); char *p = proc ? mem + ((sizeof(Ctl) + 15) & ~15UL) : b->p;
    Side s = {p, n, c, total, r.next() % 1000003, r.chance(60)}; Side s1 = s, s2 = s;
    CBufferQueue q; q.create(p, n);
    if (proc) {
        fflush(0); bool childfills = r.chance(50); pid_t k = fork();
        if (k == 0) { st().violations = 0; childfills ? fill_side(&s1) : drain_side(&s2); _exit(st().violations ? 9 : 0); }
        childfills ? drain_side(&s2) : fill_side(&s1); int w = 0;
        waitpid(k, &w, 0); if (!WIFEXITED(w) || WEXITSTATUS(w) != 0) { if (WIFEXITED(w) && WEXITSTATUS(w) == 9) st().violations++; else fail("child", fmt("the other process ended with status %x", w)); }
        count("process_messages", c->popped);
    } else {
        pthread_t a, d; pthread_create(&a, 0, fill_side, &s1); pthread_create(&d, 0, drain_side, &s2); pthread_join(a, 0); pthread_join(d, 0);
        count("thread_messages", c->popped);
    }
    if (!c->stop) { CBufferQueue z; z.attach(p, n); VT_CHECK(z.empty() && z.size() == 0 && c->popped == total, "end-state", fmt("after everything was drained: empty() %d size() %lu", z.empty(), z.size())); std::string x; VT_CHECK(pop1(z, n, x) == NONE, "end-state", "a message is left"); }
    count("duo_refused", c->refused); count("duo_empty", c->empties); uint64_t h = n; h = h * 1000003 + c->refused; h = h * 1000003 + c->empties; distinct("history", h);
    if (r.chance(4)) sample(fmt("%s, buffer %lu: %llu messages, %llu refused, %llu times empty", proc ? "processes" : "threads", n, (unsigned long long)c->popped, (unsigned long long)c->refused, (unsigned long long)c->empties));
    delete b; munmap(mem, sz);
}
static void one(Rng &r, uint64_t) { for (int i = 0; i < 12; i++) seq(r); duo(r, false); if (!mode("tsan")) duo(r, true); }
int main(int argc, char **argv) { init(argc, argv); cases(one); return done(); }
