// C16: the blocking queue is a linearizable bounded FIFO.
#include "schedinj.h"
#include <iostream>
#include <functional>
#include "CBlockQueue.h"
using namespace vt;
using namespace lce;

struct El { int v; std::string s; El(int a = -1) : v(a), s(fmt("element-with-its-own-memory-%d", a)) {} bool whole() const { return s == fmt("element-with-its-own-memory-%d", v); } };
typedef CBlockQueue<El> Q;
enum { PUSH, POP, POPT, FRONT, BACK, SIZE, FULL, EMPTY, CLEAR };
static const char *N[] = {"push", "pop", "pop-timed", "front", "back", "size", "full", "empty", "clear"};
struct Op { int kind, arg, ret, th; bool ok; uint64_t inv, res; int ms; uint64_t us; };
static std::atomic<uint64_t> g_clock;
static void run_op(Q &q, Op &o) {
    El e; uint64_t t0 = now_us();
    o.inv = g_clock.fetch_add(1, std::memory_order_relaxed);
    switch (o.kind) {
    case PUSH: o.ok = q.push(El(o.arg)); break;
    case POP: o.ok = q.pop(e); o.ret = e.v; break;
    case POPT: o.ok = q.pop(e, o.ms); o.ret = o.ok ? e.v : -1; break;
    case FRONT: o.ok = q.front(e); o.ret = o.ok ? e.v : -1; break;
    case BACK: o.ok = q.back(e); o.ret = o.ok ? e.v : -1; break;
    case SIZE: o.ret = q.size(); break;
    case FULL: o.ok = q.full(); break;
    case EMPTY: o.ok = q.empty(); break;
    case CLEAR: q.clear(); break;
    }
    o.res = g_clock.fetch_add(1, std::memory_order_relaxed); o.us = now_us() - t0;
    if (o.kind == PUSH || o.kind == POP) { if (!o.ok) fail("refused", fmt("%s returned failure", N[o.kind])); }
    if (((o.kind == POP || o.kind == POPT || o.kind == FRONT || o.kind == BACK) && o.ok) && !e.whole()) fail("torn", fmt("%s returned a damaged element", N[o.kind]));
    if (o.kind == POPT && !o.ok) {
        if (o.us + 1000 < (uint64_t)o.ms * 1000) fail("early-timeout", fmt("pop with time-out %d ms gave up after %llu us", o.ms, (unsigned long long)o.us));
        if (o.us > (uint64_t)o.ms * 1000 + 4000000) fail("late-timeout", fmt("pop with time-out %d ms gave up after %llu us", o.ms, (unsigned long long)o.us));
        count("timed_out");
    }
}
static std::string show(const std::vector<Op> &v) {
    std::string s; std::vector<const Op *> p; for (auto &o : v) p.push_back(&o); std::sort(p.begin(), p.end(), [](const Op *a, const Op *b) { return a->inv < b->inv; });
    for (auto o : p) s += fmt(" t%d[%llu,%llu]%s(%d)=%d/%d", o->th, (unsigned long long)o->inv, (unsigned long long)o->res, N[o->kind], o->arg, o->ret, o->ok); return s;
}
// apply to the model; false: this result is impossible in this state
static bool apply(const Op &o, std::deque<int> &m, size_t cap) {
    switch (o.kind) {
    case PUSH: if (m.size() >= cap) return false; m.push_back(o.arg); return true;
    case POP: if (m.empty() || m.front() != o.ret) return false; m.pop_front(); return true;
    case POPT: if (!o.ok) return m.empty(); if (m.empty() || m.front() != o.ret) return false; m.pop_front(); return true;
    case FRONT: return o.ok ? !m.empty() && m.front() == o.ret : m.empty();
    case BACK: return o.ok ? !m.empty() && m.back() == o.ret : m.empty();
    case SIZE: return (int)m.size() == o.ret;
    case FULL: return o.ok == (m.size() >= cap);
    case EMPTY: return o.ok == m.empty();
    case CLEAR: m.clear(); return true;
    }
    return false;
}
struct Lin { const std::vector<Op> &v; size_t cap; std::unordered_set<std::string> seen; uint64_t steps; Lin(const std::vector<Op> &a, size_t c) : v(a), cap(c), steps(0) {}
    bool go(uint32_t done, const std::deque<int> &m) {
        if (done == (1u << v.size()) - 1) return true;
        std::string k((char *)&done, 4); for (int x : m) k += (char)x;
        if (!seen.insert(k).second) return false;
        if (++steps > 3000000) return true; // gave up, counted
        uint64_t minres = ~0ULL; for (size_t i = 0; i < v.size(); i++) if (!(done >> i & 1)) minres = std::min(minres, v[i].res);
        for (size_t i = 0; i < v.size(); i++) if (!(done >> i & 1) && v[i].inv <= minres) { std::deque<int> n = m; if (apply(v[i], n, cap) && go(done | 1u << i, n)) return true; }
        return false;
    } };

static void seq(Rng &r) { // one thread, against a plain deque
    int cap = r.chance(10) ? -(int)r.below(3) : r.chance(70) ? 1 + (int)r.below(6) : 1 + (int)r.below(300);
    Q *q = new Q(cap); if (cap <= 0) cap = 1000; std::deque<int> m; uint64_t h = cap; int next = 0;
    VT_CHECK(q->max_size() == cap, "max-size", fmt("max_size() %d, created for %d", q->max_size(), cap));
    int fill = (int)r.below(100);
    for (int i = 0; i < 400; i++) {
        Op o = {0, 0, 0, 0, false, 0, 0, 0, 0}; int k = (int)r.below(100);
        if (k < 30 || (k < 60 && (int)r.below(100) < fill)) o.kind = PUSH; else if (k < 70) o.kind = r.chance(50) ? POP : POPT; else if (k < 99) o.kind = FRONT + (int)r.below(5); else o.kind = CLEAR;
        if (o.kind == PUSH) { if ((int)m.size() >= cap) o.kind = FULL; else o.arg = next++; }
        if (o.kind == POP && m.empty()) o.kind = EMPTY;
        if (o.kind == POPT) o.ms = m.empty() ? (r.chance(90) ? 0 : (int)r.below(3)) : (int)r.below(5000);
        if (r.chance(2)) fill = (int)r.below(100);
        h = h * 31 + o.kind * 7 + m.size(); run_op(*q, o); count("seq_ops");
        size_t before = m.size();
        if (!apply(o, m, cap)) { fail(fmt("seq:%s", N[o.kind]), fmt("after %d operations with %zu of %d elements: %s(%d) gave %d/%d", i, before, cap, N[o.kind], o.arg, o.ret, o.ok)); break; }
    }
    distinct("history", h); delete q;
}
struct Th { Q *q; std::vector<Op> ops; int id; uint64_t salt; std::atomic<int> *left; std::atomic<int> *start; };
static void *th_main(void *p) {
    Th *t = (Th *)p; Rng r(t->salt);
    while (!t->start->load(std::memory_order_relaxed)) ;
    for (auto &o : t->ops) { run_op(*t->q, o); if (r.chance(20)) sched_yield(); }
    t->left->fetch_sub(1, std::memory_order_relaxed); return 0;
}
static bool join_all(std::vector<pthread_t> &t, std::atomic<int> &left, int ms) {
    uint64_t end = now_us() + (uint64_t)ms * 1000;
    while (left.load(std::memory_order_relaxed) > 0) { if (now_us() > end) return false; sleep_us(20); }
    for (auto x : t) pthread_join(x, 0);
    return true;
}
static void small(Rng &r) { // short histories of several threads: is there any legal order?
    int cap = 1 + (int)r.below(3), T = 2 + (int)r.below(3); Q *q = new Q(cap);
    std::vector<Th> th(T); std::atomic<int> left(T), start(0); int next = 1, nops = 0;
    int kind = (int)r.below(4); // how balanced
    for (int i = 0; i < T; i++) { th[i].q = q; th[i].id = i; th[i].salt = r.next(); th[i].left = &left; th[i].start = &start; }
    // each push is matched by a pop that can take it, so that no thread blocks for ever: timed pops and pushes only block when the rest is done
    int pushes = 0, pops = 0;
    for (int i = 0; i < T; i++) for (int k = 0; k < (T == 2 ? 6 : T == 3 ? 5 : 4); k++) {
        Op o = {0, 0, 0, i, false, 0, 0, 0, 0}; int z = (int)r.below(100);
        if (z < 40) { o.kind = PUSH; o.arg = next++; pushes++; } else if (z < 55 + kind * 10) { o.kind = POPT; o.ms = (int)r.below(6); } else if (z < 95) o.kind = FRONT + (int)r.below(5); else o.kind = r.chance(50) ? CLEAR : SIZE;
        th[i].ops.push_back(o); nops++;
    }
    // a drain thread: pops as long as pushes are blocked (its operations are part of the history)
    Q *qq = q; std::vector<Op> extra; std::vector<pthread_t> t(T);
    for (int i = 0; i < T; i++) __real_pthread_create(&t[i], 0, th_main, &th[i]);
    start = 1; uint64_t t0 = now_us(); uint64_t wait = 1500 + r.below(4000);
    while (left.load(std::memory_order_relaxed) > 0 && now_us() - t0 < 20000000) { if (now_us() - t0 > wait && extra.size() < 12) { Op o = {POPT, 0, 0, 9, false, 0, 0, 0, 0}; run_op(*qq, o); if (o.ok) extra.push_back(o); wait += 300; } sleep_us(20); }
    if (!join_all(t, left, 20000)) { std::vector<Op> v; for (auto &x : th) for (auto &o : x.ops) v.push_back(o); fail("stuck", fmt("capacity %d: threads blocked although elements or room are there:", cap) + show(v)); die_now(); }
    std::vector<Op> v; for (auto &x : th) for (auto &o : x.ops) v.push_back(o); for (auto &o : extra) v.push_back(o);
    std::deque<int> fin; while (true) { Op o = {POPT, 0, 0, 8, false, 0, 0, 0, 0}; run_op(*q, o); if (!o.ok) break; o.inv = g_clock++; o.res = o.inv; v.push_back(o); if (v.size() > 30) break; }
    if (v.size() <= 30) {
        Lin l(v, cap); std::deque<int> m; bool ok = l.go(0, m);
        if (!ok) fail("not-linearizable", fmt("capacity %d, no order of these operations fits a FIFO:", cap) + show(v));
        count(l.steps > 3000000 ? "lin_gave_up" : "lin_histories");
    }
    count("small_ops", v.size());
    uint64_t h = cap; std::vector<const Op *> ord; for (auto &o : v) ord.push_back(&o); std::sort(ord.begin(), ord.end(), [](const Op *a, const Op *b) { return a->res < b->res; }); for (auto o : ord) h = h * 131 + o->kind * 16 + o->th * 3 + o->ok; distinct("history", h);
    if (r.chance(1)) sample(show(v)); (void)pops;
    delete q;
}
struct Big { Q *q; int id, n; bool consumer; int timed; std::vector<Op> log; std::atomic<int> *left, *togo; uint64_t salt; bool cleaner; };
static void *big_main(void *p) {
    Big *b = (Big *)p; Rng r(b->salt);
    if (b->cleaner) { for (int i = 0; i < b->n; i++) { Op o = {CLEAR, 0, 0, b->id, false, 0, 0, 0, 0}; run_op(*b->q, o); b->log.push_back(o); sleep_us(r.below(1500)); } }
    else if (!b->consumer) for (int i = 0; i < b->n; i++) { Op o = {PUSH, b->id * 1000000 + i, 0, b->id, false, 0, 0, 0, 0}; run_op(*b->q, o); b->log.push_back(o); if (r.chance(2)) { Op s = {SIZE, 0, 0, b->id, false, 0, 0, 0, 0}; run_op(*b->q, s); b->log.push_back(s); } if (r.chance(2)) sleep_us(r.below(200)); }
    else while (true) {
        int left = b->togo->load(std::memory_order_relaxed); while (left > 0 && !b->togo->compare_exchange_weak(left, left - 1, std::memory_order_relaxed)) ;
        if (left <= 0) break; // another consumer that fails puts its turn back and takes it again itself
        Op o = {(int)r.below(100) < b->timed ? POPT : POP, 0, 0, b->id, false, 0, 0, (int)r.below(20), 0};
        if (b->timed == 1000) o.kind = POPT, o.ms = 60;
        run_op(*b->q, o); b->log.push_back(o);
        if (!o.ok) { b->togo->fetch_add(1, std::memory_order_relaxed); if (b->timed == 1000 && b->left->load() <= 100) break; }
        if (r.chance(2)) sleep_us(r.below(200));
        if (r.chance(3)) { Op s = {FRONT + (int)r.below(5), 0, 0, b->id, false, 0, 0, 0, 0}; run_op(*b->q, s); b->log.push_back(s); }
    }
    b->left->fetch_sub(b->consumer ? 1 : 100, std::memory_order_relaxed); return 0;
}
static void big(Rng &r, bool storm = false) { // storm: hardly any room, more of one side than of the other, both sides wait at once all the time
    int P = 1 + (int)r.below(4), C = 1 + (int)r.below(4), cap = r.chance(60) ? 1 + (int)r.below(4) : 1 + (int)r.below(200); int each = 50 + (int)r.below(400);
    if (storm) { cap = 1 + (int)r.below(2); P = 1 + (int)r.below(2); C = 3 + (int)r.below(2); if (r.chance(40)) std::swap(P, C); each = (100 + (int)r.below(200)) / P + 1; }
    bool clean = !storm && r.chance(15); if (clean) C = C > 2 ? 2 : C;
    Q *q = new Q(cap); std::vector<Big> b(P + C + clean); std::atomic<int> left(P * 100 + C + (clean ? 100 : 0)), togo(clean ? 1 << 30 : P * each); std::vector<pthread_t> t(b.size());
    for (size_t i = 0; i < b.size(); i++) { b[i].q = q; b[i].id = (int)i; b[i].n = each; b[i].consumer = (int)i >= P && (int)i < P + C; b[i].cleaner = (int)i >= P + C; if (b[i].cleaner) b[i].n = 20; b[i].timed = clean ? 1000 : r.chance(50) ? (int)r.below(100) : 0; b[i].left = &left; b[i].togo = &togo; b[i].salt = r.next(); }
    for (size_t i = 0; i < b.size(); i++) __real_pthread_create(&t[i], 0, big_main, &b[i]);
    if (!join_all(t, left, 40000)) { fail("blocked", fmt("capacity %d, %d producers, %d consumers%s: no progress, size %d", cap, P, C, clean ? ", a cleaner" : "", q->size())); die_now(); }
    std::map<int, const Op *> push, pop; std::vector<const Op *> all;
    for (auto &x : b) for (auto &o : x.log) { all.push_back(&o); if (o.kind == PUSH) push[o.arg] = &o; if ((o.kind == POP || o.kind == POPT) && o.ok) { if (pop.count(o.ret)) fail("twice", fmt("element %d popped twice", o.ret)); pop[o.ret] = &o; } }
    for (auto &x : pop) if (!push.count(x.first)) fail("invented", fmt("element %d popped but never pushed", x.first)); else if (push[x.first]->inv > x.second->res) fail("before", "element popped before it was pushed");
    if (!clean) { for (auto &x : push) if (!pop.count(x.first)) { fail("lost", fmt("element %d was never popped", x.first)); break; } VT_CHECK(q->empty() && q->size() == 0, "not-empty", fmt("%d elements left", q->size())); }
    else while (true) { Op o = {POPT, 0, 0, 8, false, 0, 0, 0, 0}; run_op(*q, o); if (!o.ok) break; }
    // real-time order: a pushed entirely before b is not popped entirely after b
    std::vector<std::pair<const Op *, const Op *> > v; for (auto &x : push) if (pop.count(x.first)) v.push_back(std::make_pair(x.second, pop[x.first]));
    std::sort(v.begin(), v.end(), [](const std::pair<const Op *, const Op *> &a, const std::pair<const Op *, const Op *> &b) { return a.first->inv < b.first->inv; });
    std::vector<std::pair<uint64_t, uint64_t> > byres; for (auto &x : v) byres.push_back(std::make_pair(x.first->res, x.second->inv)); std::sort(byres.begin(), byres.end());
    size_t k = 0; uint64_t maxinv = 0; for (auto &x : v) { while (k < byres.size() && byres[k].first < x.first->inv) maxinv = std::max(maxinv, byres[k++].second); if (maxinv > x.second->res) { fail("order", fmt("element %d overtook one pushed before", x.first->arg)); break; } }
    // capacity and size: bounds at every moment
    if (!clean) {
        std::vector<std::pair<uint64_t, int> > ev; // 1 push inv, 2 push res, 3 pop inv, 4 pop res
        for (auto o : all) { if (o->kind == PUSH) { ev.push_back(std::make_pair(o->inv, 1)); ev.push_back(std::make_pair(o->res, 2)); } else if ((o->kind == POP || o->kind == POPT) && o->ok) { ev.push_back(std::make_pair(o->inv, 3)); ev.push_back(std::make_pair(o->res, 4)); } }
        std::sort(ev.begin(), ev.end());
        int pi = 0, pr = 0, qi = 0, qr = 0; std::vector<uint64_t> tm; std::vector<int> lo, hi;
        for (auto &e : ev) { (e.second == 1 ? pi : e.second == 2 ? pr : e.second == 3 ? qi : qr)++; tm.push_back(e.first); lo.push_back(pr - qi); hi.push_back(std::min(cap, pi - qr)); if (pr - qi > cap) { fail("over-capacity", fmt("%d elements held, capacity %d", pr - qi, cap)); break; } }
        for (auto o : all) if (o->kind == SIZE || o->kind == FULL || o->kind == EMPTY) {
            size_t a = std::upper_bound(tm.begin(), tm.end(), o->inv) - tm.begin(), z = std::upper_bound(tm.begin(), tm.end(), o->res) - tm.begin(); int l = a ? lo[a - 1] : 0, h = a ? hi[a - 1] : 0;
            for (size_t i = a; i < z; i++) { l = std::min(l, lo[i]); h = std::max(h, hi[i]); }
            if (o->kind == SIZE && (o->ret < l || o->ret > h)) fail("size", fmt("size() gave %d, between %d and %d elements were there", o->ret, l, h));
            if (o->kind == FULL && (o->ok ? h < cap : l >= cap)) fail("full", fmt("full() gave %d, between %d and %d of %d elements were there", o->ok, l, h, cap));
            if (o->kind == EMPTY && (o->ok ? l > 0 : h <= 0)) fail("empty", fmt("empty() gave %d, between %d and %d elements were there", o->ok, l, h));
            count("observers");
        }
    }
    count("elements", push.size()); count("big_runs"); if (clean) count("clears", 20);
    std::vector<const Op *> ord = all; std::sort(ord.begin(), ord.end(), [](const Op *a, const Op *b) { return a->res < b->res; }); uint64_t h = 0; for (auto o : ord) h = h * 131 + o->th * 9 + o->kind; distinct("history", h);
    delete q;
}
static void wakeup(Rng &r) { // a blocked pop gets the element at once, a blocked push the room
    Q q(1); El e; int kind = (int)r.below(4); // 0 pop/push 1 timed pop/push 2 push/pop 3 push/clear
    if (kind >= 2) q.push(El(1));
    Op o = {kind == 0 ? POP : kind == 1 ? POPT : PUSH, 7, 0, 0, false, 0, 0, 15000, 0};
    std::atomic<int> left(1), start(1); Th th; th.q = &q; th.id = 0; th.salt = 1; th.left = &left; th.start = &start; th.ops.push_back(o);
    pthread_t t; __real_pthread_create(&t, 0, th_main, &th); sleep_us(r.below(3000));
    if (kind <= 1) q.push(El(7)); else if (kind == 2) { q.pop(e); VT_CHECK(e.v == 1, "order", "wrong element"); } else q.clear();
    std::vector<pthread_t> v(1, t);
    if (!join_all(v, left, 10000)) { fail(fmt("no-wakeup-%d", kind), fmt("a blocked %s was not released by %s", kind <= 1 ? "pop" : "push", kind <= 1 ? "push" : kind == 2 ? "pop" : "clear")); die_now(); }
    if (kind <= 1) VT_CHECK(th.ops[0].ok && th.ops[0].ret == 7, "wakeup-value", "the released pop got something else"); else VT_CHECK(q.size() == 1, "wakeup-size", "the released push left no element");
    count("wakeups");
}
static void one(Rng &r, uint64_t idx) {
    si::begin(r);
    seq(r); for (int i = 0; i < 6; i++) small(r); wakeup(r);
    if (idx % 3 == 0) big(r);
    for (int i = 0; i < 3; i++) { big(r, true); count("storms"); }
    if (idx == 0) { Q q(2); Op o = {POPT, 0, 0, 0, false, 0, 0, 1003 + (int)r.below(200), 0}; run_op(q, o); VT_CHECK(!o.ok, "timeout-success", "pop of an empty queue succeeded"); }
    si::end();
}
int main(int argc, char **argv) { init(argc, argv); cases(one); si::report(); return done(); }
