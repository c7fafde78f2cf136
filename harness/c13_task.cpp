// C13: every accepted task runs exactly once, on a worker, with its own argument; bounds; order; stop.
#include "schedinj.h"
#include <functional>
#include "CTask.h"
using namespace vt;

template <class P> static bool until(P p, int ms) { uint64_t end = now_us() + ms * 1000ULL; while (!p()) { if (now_us() > end) return p(); sleep_us(50); } return true; }
struct Run { std::function<void()> f; pthread_t t; };
static void *run_main(void *a) { ((Run *)a)->f(); return 0; }
struct Bg { // helper threads
    std::vector<Run *> r;
    void add(std::function<void()> f) { Run *x = new Run; x->f = f; r.push_back(x); __real_pthread_create(&x->t, 0, run_main, x); }
    void join() { for (size_t i = 0; i < r.size(); i++) { pthread_join(r[i]->t, 0); delete r[i]; } r.clear(); }
    ~Bg() { join(); }
};

struct Pool;
struct Item { // plain fields: written by the submitter before, by the worker during the task
    long id; long a, b; int type; int work; int producer; int nested; std::atomic<int> runs, entered, ended; int worker; bool stops;
    Item() : id(0), a(0), b(0), type(0), work(0), producer(0), nested(0), runs(0), entered(0), ended(0), worker(-1), stops(false) {}
};
static std::atomic<long> g_gate(0); // gate tasks wait for this to become 1

struct Pool : lce::CTask {
    int n, max; std::atomic<int> busy, peak; std::atomic<long> started, finished; pthread_mutex_t mu; std::vector<Item *> order; // order of beginning
    std::vector<pthread_t> who; std::vector<int> who_set; std::atomic<int> used[64]; std::function<void(Item *)> on;
    uint64_t seed; bool free_index;
    Pool(int n_, int max_, uint64_t s) : n(n_), max(max_), busy(0), peak(0), started(0), finished(0), who(n_), who_set(n_, 0), seed(s), free_index(false) { pthread_mutex_init(&mu, 0); for (int i = 0; i < 64; i++) used[i] = 0; }
    ~Pool() { stop(); pthread_mutex_destroy(&mu); }
    void onWork(int type, void *p, int index) {
        Item *t = (Item *)p;
        in_runtime()++; __real_pthread_mutex_lock(&mu); order.push_back(t);
        if (index < 0 || index >= n) fail("index", fmt("worker index %d of a pool of %d", index, n));
        else { if (free_index) ; else if (!who_set[index]) { who_set[index] = 1; who[index] = pthread_self(); } else if (!pthread_equal(who[index], pthread_self())) fail("index-thread", "two threads work under one index"); 
            if (used[index]++ != 0) fail("index-shared", "two tasks run under one worker index at once"); }
        int b = ++busy; if (b > peak) peak = b; if (b > n) fail("too-many", fmt("%d tasks run at once on %d workers", b, n));
        __real_pthread_mutex_unlock(&mu); in_runtime()--;
        if (t->runs++ != 0) fail("twice", fmt("task %ld executed twice", t->id));
        if (type != t->type) fail("type", fmt("task of type %d executed as %d", t->type, type));
        if (t->a * 3 + 1 != t->b) fail("argument", "effects made before submission are not visible to the task");
        t->worker = index; started++;
        if (on) on(t);
        switch (t->work) {
        case 0: break;
        case 1: sched_yield(); break;
        case 2: sleep_us(t->id % 200); break;
        case 3: { FILE *f = fopen("/dev/null", "w"); if (f) { fprintf(f, "%ld", t->id); fclose(f); } break; } // cancellation points
        case 4: usleep(300); break;
        case 5: while (!g_gate) sleep_us(50); break;
        }
        for (int k = 0; k < t->nested; k++) { Item *c = t + 1 + k; if (dispatch(c->type, c) != 0) c->work = -1; else c->producer = 1000; }
        if (t->stops) stop();
        t->b = t->a * 7; t->ended++; busy--; if (index >= 0 && index < 64) used[index]--; finished++;
    }
};
static void prep(Item &t, long id, Rng &r, bool slow) { t.id = id; t.a = (long)r.below(1000000); t.b = t.a * 3 + 1; t.type = (int)r.next(); t.work = slow ? (int)r.below(5) : (int)r.below(2); }

static void new_epoch(Pool &p) { in_runtime()++; __real_pthread_mutex_lock(&p.mu); p.who_set.assign(p.n, 0); __real_pthread_mutex_unlock(&p.mu); in_runtime()--; }
// In a sequence accepted one after the other, when k begins all earlier ones were taken off the queue before, so at most n-1 of them can be about to begin.
static void check_order(Pool &p, const std::vector<Item *> &acc) {
    std::map<Item *, long> pos; for (size_t i = 0; i < acc.size(); i++) pos[acc[i]] = (long)i;
    std::vector<char> begun(acc.size(), 0); long low = 0; long overtaken = 0;
    for (size_t i = 0; i < p.order.size(); i++) {
        std::map<Item *, long>::iterator f = pos.find(p.order[i]); if (f == pos.end()) continue;
        long k = f->second; begun[k] = 1; while (low < (long)acc.size() && begun[low]) low++;
        long missing = 0; for (long j = low; j < k; j++) if (!begun[j]) missing++;
        if (missing) overtaken++;
        if (missing > p.n - 1) { fail("order", fmt("task %ld began while %ld accepted before it had not (%d workers)", k, missing, p.n)); return; }
    }
    count("overtaken", overtaken);
}
static bool drained(Pool &p, long want, const char *what) {
    if (until([&]() { return p.finished >= want; }, 15000)) return true;
    fail("lost", fmt("%s: %ld accepted tasks, only %ld executed after 15 s", what, want, p.finished.load())); return false;
}
static void ledger(std::vector<Item> &t, const std::vector<int> &ok) {
    for (size_t i = 0; i < t.size(); i++) {
        if (ok[i] == 1 && t[i].runs != 1) fail("exactly-once", fmt("accepted task %ld executed %d times", t[i].id, t[i].runs.load()));
        if (ok[i] == 1 && t[i].ended != 1) fail("cut-short", fmt("task %ld was not executed to its end", t[i].id));
        if (ok[i] == 0 && t[i].runs) fail("refused-ran", "a refused task was executed");
    }
}

// producers and workers together
static void flow(Rng &r) {
    int n = 1 + (int)r.below(8), prod = 1 + (int)r.below(4), each = 20 + (int)r.below(150); int max = r.chance(40) ? (int)r.below(8) : 100000;
    Pool *p = new Pool(n, max, r.next()); p->init(n, max);
    std::vector<Item> t(prod * each); std::vector<int> ok(t.size(), 0); for (size_t i = 0; i < t.size(); i++) prep(t[i], (long)i, r, r.chance(30));
    std::atomic<long> acc(0), ref(0); bool early = r.chance(30); bool retry = r.chance(60);
    if (!early) VT_CHECK(p->run() == 0, "run", "run fails");
    { Bg bg; for (int k = 0; k < prod; k++) bg.add([&, k]() {
        for (int i = 0; i < each; i++) { size_t x = (size_t)k * each + i; int tries = 0; while (p->dispatch(t[x].type, &t[x]) != 0) { ref++; if (!retry || ++tries > 200 || max == 0) goto next; sleep_us(30); } ok[x] = 1; acc++; next:; } });
      if (early) { sleep_us(r.below(500)); p->run(); } }
    bool alldone = drained(*p, acc, "flow");
    if (prod == 1 && alldone) { std::vector<Item *> a; for (size_t i = 0; i < t.size(); i++) if (ok[i]) a.push_back(&t[i]); check_order(*p, a); }
    if (alldone && n == 1) { // one worker: each producer's tasks run in its order
        std::map<long, long> last; for (size_t i = 0; i < p->order.size(); i++) { long id = p->order[i]->id; long pr = id / each; if (last.count(pr) && last[pr] > id) { fail("order", "one worker executed the tasks of one producer out of order"); break; } last[pr] = id; } }
    if (r.chance(50)) p->stop();
    std::vector<long> ord; for (size_t i = 0; i < p->order.size(); i++) ord.push_back(p->order[i]->id * 16 + p->order[i]->worker);
    distinct("interleaving", fnv(ord.data(), ord.size() * sizeof(long)));
    delete p; ledger(t, ok);
    count("tasks", acc); count("refused", ref);
}

// the bound, all workers at once, acceptance order after a full queue
static void bound(Rng &r) {
    int n = 1 + (int)r.below(6), max = 1 + (int)r.below(30); Pool *p = new Pool(n, max, r.next()); p->init(n, max); bool before = r.chance(40);
    std::vector<Item> t(n + max * 2 + 8); for (size_t i = 0; i < t.size(); i++) prep(t[i], (long)i, r, false); std::vector<int> ok(t.size(), 0); std::vector<Item *> acc; size_t x = 0; g_gate = 0;
    if (!before) {
        p->run(); // occupy every worker
        for (int i = 0; i < n; i++, x++) { t[x].work = 5; int tries = 0; while (p->dispatch(t[x].type, &t[x]) != 0 && ++tries < 20000) sleep_us(100); ok[x] = 1; acc.push_back(&t[x]); }
        if (!until([&]() { return p->busy == n; }, 15000)) fail("concurrency", fmt("only %d of %d workers took up a task", p->busy.load(), n));
        count("barriers");
    }
    int in = 0, out = 0;
    for (; x < t.size(); x++) { if (p->dispatch(t[x].type, &t[x]) == 0) { in++; ok[x] = 1; acc.push_back(&t[x]); if (out) fail("bound", "a full queue accepts again though nothing was taken"); } else { out++; VT_CHECK(strlen(p->getErrMsg()) > 0, "errmsg", "refusal without a message"); } }
    VT_CHECK(in == max, "bound", fmt("queue of at most %d tasks accepted %d", max, in)); count("full", 1); count("refused", out);
    if (before) p->run();
    g_gate = 1;
    if (drained(*p, (long)acc.size(), "bound")) { check_order(*p, acc);
        if (n == 1) for (size_t i = 0; i < acc.size(); i++) if (p->order[i] != acc[i]) { fail("order", "one worker executed tasks out of acceptance order"); break; } }
    // after that there is room again
    Item e; prep(e, 1, r, false); VT_CHECK(p->dispatch(e.type, &e) == 0, "room", "the drained queue refuses a task"); drained(*p, (long)acc.size() + 1, "room");
    delete p; ledger(t, ok); VT_CHECK(e.runs == 1, "exactly-once", "task executed not once"); count("tasks", acc.size());
}

// stop, restart, destruction
static void stopping(Rng &r) {
    int n = 1 + (int)r.below(6), rounds = 1 + (int)r.below(4); Pool *p = new Pool(n, 100000, r.next()); p->init(n, 100000);
    int each = 10 + (int)r.below(60); std::vector<Item> t(rounds * each); std::vector<int> ok(t.size(), 0); for (size_t i = 0; i < t.size(); i++) prep(t[i], (long)i, r, true);
    if (r.chance(15)) { p->stop(); count("stop_before_run"); }
    long acc = 0; size_t x = 0; bool inside = r.chance(20), race = r.chance(40);
    for (int k = 0; k < rounds; k++) {
        new_epoch(*p);
        if (r.chance(20)) for (int i = 0; i < 5 && x < t.size(); i++, x++) if (p->dispatch(t[x].type, &t[x]) == 0) { ok[x] = 1; acc++; }
        VT_CHECK(p->run() == 0, "run", "run fails");
        if (r.chance(10)) { // immediately
        } else {
            std::atomic<long> got(0); size_t from = x, to = std::min(t.size(), x + r.below(each + 1)); x = to;
            Bg bg; auto feed = [&, from, to]() { for (size_t i = from; i < to; i++) if (p->dispatch(t[i].type, &t[i]) == 0) { ok[i] = 1; got++; } };
            if (inside && to > from) t[from + r.below(to - from)].stops = true;
            if (race) { bg.add(feed); sleep_us(r.below(2000)); uint64_t t0 = now_us(); p->stop(); uint64_t d = now_us() - t0; if (d > 10000000) fail("stop-slow", fmt("stop took %llu us", (unsigned long long)d)); long s1 = p->started; sleep_us(500); VT_CHECK(p->busy == 0, "stop-running", "a task still runs after stop returned"); VT_CHECK(p->started == s1, "stop-starts", "a task was started after stop returned"); bg.join(); }
            else feed();
            acc += got;
        }
        if (!race && !inside && r.chance(50)) drained(*p, acc, "before stop");
        else if (r.chance(50)) sleep_us(r.below(1500));
        p->stop(); if (r.chance(20)) p->stop();
        VT_CHECK(p->busy == 0, "stop-running", "a task still runs after stop returned"); long s1 = p->started;
        if (r.chance(30)) { sleep_us(300); VT_CHECK(p->started == s1, "stop-starts", "a task was started after stop returned"); }
        if (p->started < acc) count("pending_at_stop");
        count("stops");
    }
    for (size_t i = 0; i < t.size(); i++) t[i].stops = false;
    if (r.chance(70)) { new_epoch(*p); p->run(); bool d = drained(*p, acc, "after restart"); if (r.chance(50)) p->stop(); delete p; if (d) ledger(t, ok); count("restarts"); }
    else { p->stop(); delete p; for (size_t i = 0; i < t.size(); i++) if (t[i].runs != t[i].ended || t[i].runs > ok[i]) fail("cut-short", "a task was cut short by stop"); count("dropped_with_pool"); }
    count("tasks", acc);
}
// tasks that submit tasks
static void nested(Rng &r) {
    int n = 1 + (int)r.below(6); Pool *p = new Pool(n, 100000, r.next()); p->init(n, 100000); p->run(); int m = 20; std::vector<Item> t(m * 4); std::vector<int> ok(t.size(), 1);
    for (size_t i = 0; i < t.size(); i++) prep(t[i], (long)i, r, r.chance(30)); for (int i = 0; i < m; i++) t[i * 4].nested = 3;
    for (int i = 0; i < m; i++) VT_CHECK(p->dispatch(t[i * 4].type, &t[i * 4]) == 0, "refuse", "refused without being full");
    if (drained(*p, (long)t.size(), "nested")) { delete p; ledger(t, ok); } else _exit(3);
    count("nested", m * 3); count("tasks", t.size());
}
// a task stops its own pool, and the pool is started again while other tasks still run: never more than the configured number at once
static void own_stop(Rng &r) {
    int n = 1 + (int)r.below(6); Pool *p = new Pool(n, 1000, r.next()); p->free_index = true; p->init(n, 1000); g_gate = 0; std::vector<Item> t(n * 3); std::vector<int> ok(t.size(), 1);
    for (size_t i = 0; i < t.size(); i++) { prep(t[i], (long)i, r, false); t[i].work = 5; }
    std::atomic<int> stopped(0); p->on = [&](Item *x) { if (x->id == 0) { if (p->stop() != 0) fail("own-stop", "stop from inside a task fails"); stopped = 1; } };
    bool behind = r.chance(50); if (n > 1 && behind) t[0].id = 1, t[1].id = 0;
    p->run(); for (int i = 0; i < n; i++) p->dispatch(t[i].type, &t[i]);
    if (!until([&]() { return stopped == 1; }, 15000)) fail("concurrency", "a task was not taken up or its stop hangs");
    for (size_t i = n; i < t.size(); i++) if (p->dispatch(t[i].type, &t[i]) != 0) fail("refuse", "refused without being full");
    { Bg bg; std::atomic<int> rc(7); bg.add([&]() { rc = p->run(); }); sleep_us(r.below(3000)); g_gate = 1;
      if (!until([&]() { return rc != 7; }, 20000)) { fail("run-hangs", "run after a stop from inside a task does not return"); die_now(); } VT_CHECK(rc == 0, "run", "run fails after a stop from inside a task"); }
    if (drained(*p, (long)t.size(), "after own stop")) { delete p; ledger(t, ok); } else _exit(3);
    count("own_stops"); count("tasks", t.size());
}
// a task of one pool stops another pool: that stop waits like any other
static void cross_stop(Rng &r) {
    int n = 1 + (int)r.below(4), m = 1 + (int)r.below(4); Pool *a = new Pool(n, 1000, r.next()), *b = new Pool(m, 1000, r.next()); a->init(n, 1000); b->init(m, 1000); g_gate = 0;
    std::vector<Item> t(m), u(1); std::vector<int> ok(m, 1), ok1(1, 1); for (int i = 0; i < m; i++) { prep(t[i], i, r, false); t[i].work = 5; } prep(u[0], 0, r, false);
    a->run(); b->run(); for (int i = 0; i < m; i++) b->dispatch(t[i].type, &t[i]);
    until([&]() { return b->busy > 0; }, 15000); std::atomic<int> in(0);
    a->on = [&](Item *) { in = 1; b->stop(); if (b->busy != 0) fail("stop-running", "a task still runs after stop (called by a task of another pool) returned"); in = 2; };
    a->dispatch(u[0].type, &u[0]); until([&]() { return in >= 1; }, 15000); sleep_us(500 + r.below(1500)); g_gate = 1;
    if (drained(*a, 1, "stop by another pool")) { new_epoch(*b); b->run(); if (!drained(*b, m, "after stop by another pool")) _exit(3); delete a; delete b; ledger(t, ok); ledger(u, ok1); } else _exit(3);
    count("cross_stops"); count("tasks", m + 1);
}
// threads that cannot be created: run says so, and works later
static void no_threads(Rng &r) {
    int n = 1 + (int)r.below(6); Pool *p = new Pool(n, 100, 1); p->init(n, 100); std::vector<Item> t(10); std::vector<int> ok(t.size(), 1);
    for (size_t i = 0; i < t.size(); i++) { prep(t[i], (long)i, r, false); p->dispatch(t[i].type, &t[i]); }
    si::fail_create() = r.chance(50) ? 100 : 40; int made = 0;
    int rc = p->run(); bool always = si::fail_create() == 100; si::fail_create() = 0;
    if (always) VT_CHECK(rc != 0, "run-fails", "run reports success though no worker could be started");
    if (rc != 0) { count("runs_failed"); p->stop(); new_epoch(*p); VT_CHECK(p->run() == 0, "run", "run fails"); }
    (void)made; if (drained(*p, 10, "after failed run")) { delete p; ledger(t, ok); } else _exit(3);
}
// life without any task
static void empty_life(Rng &r) {
    int n = 1 + (int)r.below(8); Pool *p = new Pool(n, 10, 1); int k = (int)r.below(5);
    if (k > 0) p->init(n, 10);
    if (k > 1) p->run();
    if (k > 2 && r.chance(50)) sleep_us(r.below(300));
    if (k > 3) p->stop();
    delete p; count("empty_lives");
}
static void one(Rng &r, uint64_t i) {
    si::begin(r);
    switch (i % 6) { case 0: case 1: flow(r); break; case 2: bound(r); break; case 3: stopping(r); break; case 4: nested(r); break; default: empty_life(r); no_threads(r); stopping(r); own_stop(r); cross_stop(r); }
    si::end();
}
int main(int argc, char **argv) { init(argc, argv); cases(one); si::report(); return done(); }
