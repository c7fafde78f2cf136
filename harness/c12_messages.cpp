// C12: messages posted to the event loop by many threads and by the loop itself.
#include "vt.h"
#include <atomic>
#include <functional>
#include "Utils.h"
#include "CEvent.h"
#include "CCommMgr.h"
using namespace vt;
using namespace lce;

struct Msg { int sender; uint64_t seq; int type; std::atomic<int> got; };
struct Case {
    CEvent *ev; bool mgr; std::vector<std::vector<Msg *> > m; std::vector<uint64_t> next; pthread_t loop; std::atomic<uint64_t> delivered, posted, self_left; std::atomic<int> running;
    std::atomic<int> go; Rng r; int slow; uint64_t h; std::vector<Msg *> self; uint64_t self_next;
    Case() : ev(0), mgr(false), delivered(0), posted(0), self_left(0), running(0), go(0), r(1), slow(0), h(0), self_next(0) {}
};
static Case *C;
static void deliver(int type, void *p, Msg *want);
struct Proc : CProcessor { void onMessage(int t, void *p) { deliver(t, p, 0); } };
static Proc g_proc;
static int post(Msg *m) {
    int rc = C->mgr ? CCommMgr::getInstance().sendMessage(m->type, &g_proc, m)
                    : C->ev->addMessage(m->type, [m](int t, void *p) { deliver(t, p, m); }, m);
    if (rc == 0) C->posted++; return rc;
}
static void post_self() { Msg *m = new Msg; m->sender = -1; m->seq = C->self.size(); m->type = 77; m->got = 0; C->self.push_back(m); if (post(m) != 0) fail("refused", "a message posted by the loop thread was refused"); }
static void deliver(int type, void *p, Msg *want) { // loop thread
    Msg *m = (Msg *)p;
    if (!pthread_equal(pthread_self(), C->loop)) { fail("thread", "message delivered on a thread that does not run the loop"); return; }
    if (!m) { fail("param", "message delivered without its parameter"); return; }
    VT_CHECK(want == 0 || want == m, "handler", "message delivered to the handler of another message");
    VT_CHECK(type == m->type, "type", fmt("message posted with type %d delivered with type %d", m->type, type));
    VT_CHECK(m->got++ == 0, "twice", fmt("message %llu of sender %d delivered twice", (unsigned long long)m->seq, m->sender));
    uint64_t &n = m->sender < 0 ? C->self_next : C->next[m->sender];
    VT_CHECK(m->seq == n, "order", fmt("sender %d: message %llu delivered when %llu was next", m->sender, (unsigned long long)m->seq, (unsigned long long)n));
    n = m->seq + 1; C->h = C->h * 31 + m->sender;
    if (C->slow && C->r.chance(C->slow)) sleep_us(C->r.below(200));
    int k = 0; while (C->self_left > 0 && k < 3 && C->r.chance(40)) { C->self_left--; post_self(); k++; }
    C->delivered++;
}
struct Poster { int id; uint64_t n; int jit; uint64_t seed; };
static void *poster(void *a) {
    Poster *p = (Poster *)a; Rng r(p->seed);
    while (!C->go) sleep_us(10);
    for (uint64_t i = 0; i < p->n; i++) {
        Msg *m = C->m[p->id][i];
        if (post(m) != 0) { fail("refused", fmt("message %llu of sender %d was refused", (unsigned long long)i, p->id)); break; }
        if (p->jit && r.chance(p->jit)) { if (r.chance(50)) sched_yield(); else sleep_us(r.below(300)); }
    }
    delete p; return 0;
}
static void *loop_main(void *) { if (C->mgr) CCommMgr::getInstance().start(); else C->ev->run(); C->running = 0; return 0; }
static uint64_t total() { uint64_t n = C->self.size(); for (size_t i = 0; i < C->m.size(); i++) n += C->m[i].size(); return n; }
template <class P> static bool until(P p, int ms) { uint64_t end = now_us() + ms * 1000ULL; while (!p()) { if (now_us() > end) return p(); sleep_us(50); } return true; }

static void one(Rng &r, uint64_t idx) {
    Case c; C = &c; c.r = Rng(r.next()); c.mgr = r.chance(30); c.slow = r.chance(30) ? 3 : 0;
    if (!c.mgr) { c.ev = new CEvent; c.ev->init(100); }
    int S = 1 + (int)r.below(6); bool flood = idx == 3 || (st().thorough && r.chance(3)); uint64_t each = flood ? 70000 / S + 1000 : r.below(r.chance(20) ? 2000 : 200);
    for (int i = 0; i < S; i++) { c.m.push_back(std::vector<Msg *>()); c.next.push_back(0); for (uint64_t k = 0; k < each; k++) { Msg *m = new Msg; m->sender = i; m->seq = k; m->type = (int)r.next(); m->got = 0; c.m[i].push_back(m); } }
    uint64_t selfn = flood ? 0 : r.below(100); c.self_left = selfn;
    std::vector<pthread_t> t;
    for (int i = 0; i < S; i++) { Poster *p = new Poster; p->id = i; p->n = each; p->jit = flood ? 0 : (int)r.below(40); p->seed = r.next(); pthread_t x; pthread_create(&x, 0, poster, p); t.push_back(x); }
    bool early = r.chance(30) || flood; // messages are posted before the loop runs
    bool restart = !flood && r.chance(40);
    c.go = early;
    if (early) { if (flood) { if (!until([&]() { return c.posted >= S * each; }, 60000)) { fail("post-blocks", fmt("posting stopped at %llu pending messages", (unsigned long long)c.posted)); die_now(); } count("floods"); } else sleep_us(r.below(2000)); }
    c.running = 1; pthread_create(&c.loop, 0, loop_main, 0);
    c.go = 1;
    if (restart) { // stop in the middle, later go on
        sleep_us(r.below(3000));
        if (r.chance(50)) until([&]() { return c.delivered > 0 || each == 0; }, 5000); else sleep_us(20000); // the loop runs, or even sleeps
        uint64_t t0 = now_us();
        if (c.delivered > 0) {
            if (c.mgr) CCommMgr::getInstance().stop(); else c.ev->stop();
            bool ok = until([&]() { return c.running == 0; }, 1500 + 3000 * (c.slow > 0));
            VT_CHECK(ok, "stop-late", fmt("the loop still runs %llu ms after stop", (unsigned long long)((now_us() - t0) / 1000)));
            pthread_join(c.loop, 0); count("restarts");
            sleep_us(r.below(1000));
            c.running = 1; pthread_create(&c.loop, 0, loop_main, 0);
        }
    }
    for (size_t i = 0; i < t.size(); i++) pthread_join(t[i], 0);
    bool all = until([&]() { return c.delivered >= S * each && c.delivered >= c.posted; }, 60000);
    if (all) { // a last one: the loop runs
        Msg *m = new Msg; m->sender = 0; m->seq = c.m[0].size(); m->type = 5; m->got = 0; c.m[0].push_back(m); post(m);
        all = until([&]() { return m->got > 0 && c.delivered >= c.posted; }, 60000);
    }
    bool idle = r.chance(30);
    if (idle) sleep_us(3000); // it sleeps in its wait now
    uint64_t t0 = now_us();
    if (c.mgr) CCommMgr::getInstance().stop(); else c.ev->stop();
    if (!until([&]() { return c.running == 0; }, 1500)) fail("stop-late", fmt("the loop still runs %llu ms after stop%s", (unsigned long long)((now_us() - t0) / 1000), idle ? " (it was idle)" : ""));
    pthread_join(c.loop, 0);
    uint64_t n = total();
    VT_CHECK(all, "lost", fmt("%llu messages accepted, %llu delivered", (unsigned long long)c.posted.load(), (unsigned long long)c.delivered.load()));
    if (!all) { die_now(); }
    for (size_t i = 0; i < c.m.size(); i++) for (size_t k = 0; k < c.m[i].size(); k++) { VT_CHECK(c.m[i][k]->got == 1, "count", fmt("message %zu of sender %zu delivered %d times", k, i, c.m[i][k]->got.load())); delete c.m[i][k]; }
    for (size_t k = 0; k < c.self.size(); k++) { VT_CHECK(c.self[k]->got == 1, "count-self", fmt("message %zu the loop posted to itself delivered %d times", k, c.self[k]->got.load())); delete c.self[k]; }
    count("messages", n); count("self_messages", c.self.size()); count("posted", c.posted);
    distinct("interleaving", c.h); if (idle) count("stops_idle");
    if (r.chance(2)) sample(fmt("%d senders x %llu messages, %zu posted by handlers, restart %d, early %d", S, (unsigned long long)each, c.self.size(), restart, early));
    if (c.ev) { if (r.chance(20)) { std::atomic<int> *x = new std::atomic<int>(0); for (int i = 0; i < 3; i++) c.ev->addMessage(1, [x](int, void *) { (*x)++; }, 0); } delete c.ev; } // pending ones die with it
}
int main(int argc, char **argv) {
    init(argc, argv); CCommMgr::getInstance().init(100);
    cases(one);
    return done();
}
