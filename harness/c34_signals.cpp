// C34: signals registered with the manager reach their handler and disturb nothing, whatever thread they hit.
#include "commloop.h"
#include "CTask.h"
using namespace vt;
using namespace lce;

static const int NS = 70;
static uint32_t g_dummy;
static __thread int g_in_on_signal;
struct SigProc : CProcessor { // runs in signal context: nothing but counters
    std::atomic<uint64_t> n[NS], foreign, nested_bad; std::atomic<int> stop_on; int idx;
    SigProc() : foreign(0), nested_bad(0), stop_on(0), idx(0) { for (int i = 0; i < NS; i++) n[i] = 0; }
    void onSignal(int s) {
        if (s < 1 || s >= NS) foreign++; else n[s]++;
        if (stop_on == s) cl::mgr().stop();
        // what handlers do: calls that fail
        static const int E[] = {EBADF, EPIPE, ECONNRESET, EINVAL, 0, ENOENT, EINPROGRESS, EAGAIN};
        errno = E[__atomic_fetch_add(&g_dummy, 1, __ATOMIC_RELAXED) % 8];
    }
};
static SigProc *P[4]; static std::atomic<int> reg[NS]; // index of the registered processor, -1 none
static std::atomic<uint64_t> base_sent[NS]; // deliveries that must have arrived
static pthread_t g_loop; static std::atomic<uint64_t> g_sync_n; static std::atomic<int> g_sync_sig, g_sync_pct;
static bool rt(int s) { return s >= SIGRTMIN && s <= SIGRTMAX; }
static uint64_t got(int s) { uint64_t n = 0; for (int i = 0; i < 4; i++) n += P[i]->n[s]; return n; }

// a signal hits the thread right behind a failed system call
static void sync_signal() {
    int s = g_sync_sig; if (!s || g_in_on_signal) return;
    if ((int)ni::rnd(100) >= g_sync_pct) return;
    int e = errno; base_sent[s]++;
    g_in_on_signal = 1; errno = e; raise(s); e = errno; g_in_on_signal = 0;
    g_sync_n++; errno = e;
}
extern "C" int epoll_wait(int ep, struct epoll_event *ev, int n, int ms) {
    static int (*f)(int, struct epoll_event *, int, int) = ni::real<int (*)(int, struct epoll_event *, int, int)>("epoll_wait");
    int r = f(ep, ev, n, ms);
    if (r < 0 && !ni::harness_thread()) { static std::atomic<uint64_t> *c = new std::atomic<uint64_t>(0); (*c)++; if (errno == EINTR) ni::cfg().n_eintr++; ni::failed(); }
    return r;
}

// ---- what must go on undisturbed --------------------------------------------------------------
struct Echo : cl::Monitor {
    int id; std::atomic<uint64_t> errs; std::string what; void act_error(StSession &, cl::ConnP, int c) { if (!errs++) what = fmt("code %d", c); }
    Echo() : id(-1), errs(0) { keep_packets = false; }
    void act_read(StSession &s, cl::ConnP, const char *p, int n) { int rc = cl::mgr().write(s, p, n, false); (void)rc; }
};
static Echo g_echo; static int g_port;
struct Dial : cl::Monitor {
    std::atomic<uint64_t> errs, up, down, back; void act_error(StSession &, cl::ConnP, int) { errs++; } Dial() : errs(0), up(0), down(0), back(0) { keep_packets = false; }
    void act_connect(StSession &s, cl::ConnP, bool ok, void *) { if (ok) { up++; std::string m = "hello from the client side"; cl::mgr().write(s, m.data(), m.size(), false); } else down++; }
    void act_read(StSession &s, cl::ConnP c, const char *, int) { if (c->nbytes >= 26) { back++; app_close(s); cl::mgr().close(s); } }
};
static Dial g_dial; static int g_dial_id;
struct Misc : CProcessor {
    std::atomic<uint64_t> msgs, timers, order_bad; uint64_t next; Misc() : msgs(0), timers(0), order_bad(0), next(0) {}
    void onMessage(int, void *p) { if ((uint64_t)(uintptr_t)p != next) order_bad++; next = (uint64_t)(uintptr_t)p + 1; msgs++; }
    void onTimer(int, void *) { timers++; }
};
struct Pool : CTask { std::atomic<uint64_t> n, sum; Pool() : n(0), sum(0) {} void onWork(int t, void *, int) { n++; sum += t; } };

struct Client { int fd; uint64_t n; uint64_t seed; pthread_t t; };
static std::atomic<int> g_abort;
static void *client(void *a) {
    Client *c = (Client *)a; ni::harness_thread() = 1; Rng r(c->seed);
    for (uint64_t i = 0; i < c->n && !g_abort; i++) {
        std::string m = r.bytes(1 + r.edge(20000)), b;
        if (!ni::send_all(c->fd, m)) { fail("connection/send", fmt("the connection broke after %llu messages", (unsigned long long)i)); break; }
        int st = ni::recv_n(c->fd, b, m.size());
        if (st != 1) { fail(st == -1 ? "connection/silent" : "connection/ended", fmt("echo %llu of %llu: %zu of %zu bytes came back, then %s", (unsigned long long)i, (unsigned long long)c->n, b.size(), m.size(), st == -1 ? "nothing for 20 s" : "the connection ended")); break; }
        if (b != m) { fail("connection/content", "other bytes came back"); break; }
        count("echoes");
    }
    return 0;
}
struct Sender { uint64_t seed; uint64_t n; pthread_t t; std::vector<int> sigs; std::vector<pthread_t> *targets; };
static std::atomic<uint64_t> g_sent[NS];
static void *sender(void *a) {
    Sender *s = (Sender *)a; ni::harness_thread() = 1; Rng r(s->seed);
    for (uint64_t i = 0; i < s->n && !g_abort; i++) {
        int sig = s->sigs[r.below(s->sigs.size())], ok = -1; int how = (int)r.below(100);
        if (how < 50) ok = pthread_kill(g_loop, sig);
        else if (how < 65) ok = kill(getpid(), sig);
        else if (how < 80) { union sigval v; v.sival_int = 1; ok = sigqueue(getpid(), sig, v); }
        else if (how < 90 && s->targets->size()) ok = pthread_kill((*s->targets)[r.below(s->targets->size())], sig);
        else ok = raise(sig);
        if (ok == 0) { g_sent[sig]++; if (rt(sig)) base_sent[sig]++; }
        if (r.chance(30)) sleep_us(r.below(200)); else if (r.chance(30)) sched_yield();
    }
    return 0;
}
static std::vector<int> pick_signals(Rng &r) {
    static const int S[] = {SIGUSR1, SIGUSR2, SIGTERM, SIGHUP, SIGINT, SIGQUIT, SIGALRM, SIGURG, SIGWINCH, SIGIO, SIGCHLD, SIGTSTP, SIGVTALRM};
    std::vector<int> v; int k = 1 + (int)r.below(5);
    for (int i = 0; i < k; i++) { int s = r.chance(50) ? S[r.below(sizeof S / sizeof *S)] : SIGRTMIN + (int)r.below(SIGRTMAX - SIGRTMIN + 1); if (std::find(v.begin(), v.end(), s) == v.end()) v.push_back(s); }
    return v;
}
static void do_reg(Rng &r, int s) {
    int k = (int)r.below(4);
    int rc = cl::mgr().addSigHandler(s, P[k]);
    if (rc != 0) { fail("register/refused", fmt("registering signal %d failed: %s", s, cl::mgr().getErrMsg())); return; }
    reg[s] = k; count("registered");
}
static void drain_rt(const char *when) { // every real-time signal that was accepted has been handled
    for (int s = SIGRTMIN; s <= SIGRTMAX; s++) {
        bool ok = ni::wait_for([s]() { return got(s) >= base_sent[s]; }, 10000);
        if (!ok) fail("lost", fmt("%s: real-time signal %d: %llu sent, %llu reached a handler", when, s, (unsigned long long)base_sent[s].load(), (unsigned long long)got(s)));
        if (got(s) > base_sent[s]) fail("invented", fmt("%s: real-time signal %d: %llu sent, %llu reached a handler", when, s, (unsigned long long)base_sent[s].load(), (unsigned long long)got(s)));
        base_sent[s] = got(s);
    }
}
static void one_by_one(Rng &r, const std::vector<int> &sigs, int rounds) { // nothing else is sent: exactly one more each, at the registered one
    for (int i = 0; i < rounds; i++) {
        int s = sigs[r.below(sigs.size())], k = reg[s]; if (k < 0) continue;
        if (mode("threads")) { raise(s); continue; } // ThreadSanitizer puts signals off, at times for long, and merges them
        uint64_t b[4]; for (int j = 0; j < 4; j++) b[j] = P[j]->n[s];
        int how = (int)r.below(3);
        if (how == 0) pthread_kill(g_loop, s); else if (how == 1) kill(getpid(), s); else raise(s);
        base_sent[s]++;
        bool ok = ni::wait_for([&]() { return P[k]->n[s] > b[k]; }, 10000);
        if (!ok) { uint64_t o = 0; for (int j = 0; j < 4; j++) if (j != k) o += P[j]->n[s] - b[j]; fail(o ? "wrong-handler" : "not-delivered", fmt("signal %d sent to the %s did not reach the processor registered last%s", s, how == 0 ? "loop" : how == 1 ? "process" : "own thread", o ? " but another one" : "")); continue; }
        for (int j = 0; j < 4; j++) if (P[j]->n[s] - b[j] != (j == k)) fail("one-by-one", fmt("signal %d sent once: processor %d was notified %llu times (registered: %d)", s, j, (unsigned long long)(P[j]->n[s] - b[j]), k));
        count("single_deliveries");
    }
}
static void refusals(Rng &r) {
    static const int B[] = {0, -1, 65, 70, 1000, -100, SIGKILL, SIGSTOP, 2147483647, -2147483647 - 1, 64 + 1};
    int s = B[r.below(sizeof B / sizeof *B)];
    VT_CHECK(cl::mgr().addSigHandler(s, P[0]) < 0, "register/accepted", fmt("registering a handler for %d, which no handler can be installed for, was reported as done", s));
    int t = SIGUSR1; int k = reg[t]; VT_CHECK(cl::mgr().addSigHandler(t, NULL) < 0, "register/null", "registering no processor was reported as done"); (void)k;
    count("refusals");
}
static void stop_from_signal(Rng &r, cl::Loop &L) {
    int s = r.chance(50) ? SIGUSR1 : SIGRTMIN + 3; reg[s] = 0; cl::mgr().addSigHandler(s, P[0]);
    if (r.chance(50)) sleep_us(2000 + r.below(3000)); // asleep in its wait
    P[0]->stop_on = s; uint64_t t0 = now_us();
    static std::atomic<int> ended; ended = 0; pthread_t lt = g_loop;
    if (r.chance(50)) pthread_kill(lt, s); else raise(s);
    base_sent[s]++;
    struct W { static void *j(void *p) { pthread_join(*(pthread_t *)p, 0); ended = 1; return 0; } }; pthread_t w; pthread_create(&w, 0, W::j, &lt);
    if (!ni::wait_for([]() { return ended == 1; }, 3000)) { fail("stop", fmt("stop() called from onSignal: the loop still runs after %llu ms", (unsigned long long)((now_us() - t0) / 1000))); die_now(); }
    pthread_join(w, 0); L.on = false; P[0]->stop_on = 0; L.start(); g_loop = L.t; cl::on_loop([]() {}); count("stops");
}
static void timer_under_signals(Rng &r, const std::vector<int> &sigs) { // nothing but signals wakes the loop: the timer is due all the same
    static Misc m; uint64_t n0 = m.timers; uint32_t due = 40 + (uint32_t)r.below(50); uint32_t step = due / (2 + (uint32_t)r.below(5));
    bool ok = cl::on_loop([&]() { cl::mgr().addTimer(2000, due, &m); }); if (!ok) { fail("loop/dead", "the loop does not answer"); die_now(); }
    uint64_t t0 = now_us(), k = 0;
    while (m.timers == n0 && now_us() - t0 < 5000000) {
        int s = sigs[r.below(sigs.size())]; if (reg[s] < 0) break;
        pthread_kill(g_loop, s); g_sent[s]++; if (rt(s)) base_sent[s]++; k++;
        sleep_us(step * 1000);
    }
    if (m.timers == n0) fail("timer/starved", fmt("a timer of %u ms had not fired after %llu ms in which a signal arrived every %u ms", due, (unsigned long long)((now_us() - t0) / 1000), step));
    count("timers_under_signals"); count("signals_before_timer", k);
}
static cl::Loop L;
static void one(Rng &r, uint64_t idx) {
    bool tsan = mode("threads"); ni::cfg().seed = r.next(); g_abort = 0;
    std::vector<int> sigs = pick_signals(r); uint64_t h = 1;
    bool late = r.chance(40); // registered by another thread while signals already arrive
    std::vector<int> first = sigs;
    if (late && sigs.size() > 1) first.resize(1 + r.below(sigs.size() - 1));
    for (size_t i = 0; i < first.size(); i++) { do_reg(r, first[i]); h = h * 31 + first[i]; }
    if (r.chance(40)) do_reg(r, first[0]); // again: the last one counts
    if (r.chance(60)) refusals(r);
    one_by_one(r, first, (int)r.below(5));
    // load
    bool inject = !tsan && r.chance(60);
    if (inject) { g_sync_sig = first[r.below(first.size())]; g_sync_pct = r.chance(50) ? 100 : 20; ni::cfg().recv_again = r.chance(50) ? 10 : 0; ni::cfg().send_again = r.chance(50) ? 10 : 0; ni::cfg().recv_eintr = r.chance(50) ? 10 : 0; ni::cfg().send_eintr = r.chance(50) ? 10 : 0; ni::cfg().send_max = r.chance(30) ? 2000 : 0; }
    int nc = 1 + (int)r.below(4); std::vector<Client> cs(nc); std::vector<pthread_t> targets;
    for (int i = 0; i < nc; i++) { cs[i].fd = ni::dial(g_port); if (cs[i].fd < 0) { fail("connection/dial", "the service does not accept connections"); die_now(); } cs[i].n = 1 + r.below(12); cs[i].seed = r.next(); pthread_create(&cs[i].t, 0, client, &cs[i]); }
    Pool pool; uint64_t npool = 0, sum = 0; bool use_pool = r.chance(50); if (use_pool) { pool.init(2, 1000); pool.run(); }
    Misc misc; uint64_t nm = 0, nt = 0; uint64_t dial0 = g_dial.up + g_dial.down, dials = 0;
    { int k = (int)r.below(6); uint64_t s2 = r.next(); bool ok = cl::on_loop([&]() { Rng q(s2); for (int i = 0; i < k; i++) { cl::mgr().addTimer(1000 + i, (uint32_t)q.below(20), &misc); nt++; } }); if (!ok) { fail("loop/dead", "the loop does not answer"); die_now(); } }
    std::vector<Sender> ss(1 + r.below(3));
    for (size_t i = 0; i < ss.size(); i++) { ss[i].seed = r.next(); ss[i].n = r.below(tsan ? 40 : 120); ss[i].sigs = first; ss[i].targets = &targets; }
    for (size_t i = 0; i < ss.size(); i++) pthread_create(&ss[i].t, 0, sender, &ss[i]);
    for (int i = 0, k = (int)r.below(60); i < k; i++) {
        int w = (int)r.below(100);
        if (w < 60) { if (cl::mgr().sendMessage(1, &misc, (void *)(uintptr_t)nm) == 0) nm++; else fail("message/refused", "a message was refused"); }
        else if (w < 80) { if (use_pool) { int t = (int)r.below(1000); if (pool.dispatch(t, 0) == 0) { npool++; sum += t; } } }
        else if (w < 90) { bool ok = cl::on_loop([&]() { int rc = cl::mgr().connect(g_dial_id, ni::my_ip(), g_port); if (rc >= 0) dials++; }); if (!ok) { fail("loop/dead", "the loop does not answer"); die_now(); } }
        else if (late && first.size() < sigs.size()) { int s = sigs[first.size()]; do_reg(r, s); first.push_back(s); raise(s); base_sent[s]++; g_sent[s]++; h = h * 31 + s; count("registered_late"); }
        else sleep_us(r.below(500));
    }
    for (size_t i = 0; i < ss.size(); i++) pthread_join(ss[i].t, 0);
    for (int i = 0; i < nc; i++) pthread_join(cs[i].t, 0);
    bool ok = ni::wait_for([&]() { return misc.msgs >= nm && misc.timers >= nt && pool.n >= npool && g_dial.up + g_dial.down - dial0 >= dials; }, 20000);
    if (!ok) { fail("lost-work", fmt("messages %llu of %llu, timers %llu of %llu, tasks %llu of %llu, connects %llu of %llu", (unsigned long long)misc.msgs.load(), (unsigned long long)nm, (unsigned long long)misc.timers.load(), (unsigned long long)nt,
                                     (unsigned long long)pool.n.load(), (unsigned long long)npool, (unsigned long long)(g_dial.up + g_dial.down - dial0), (unsigned long long)dials)); die_now(); }
    VT_CHECK(misc.msgs == nm && misc.timers == nt && pool.n == npool && pool.sum == sum && misc.order_bad == 0, "extra-work", "messages, timers or tasks ran twice or out of order");
    g_sync_sig = 0; ni::calm();
    ok = ni::wait_for([&]() { return g_dial.back + g_dial.down - 0 >= g_dial.up + g_dial.down; }, 20000);
    VT_CHECK(ok, "connection/outgoing", fmt("%llu outgoing connections, %llu had their answer", (unsigned long long)g_dial.up.load(), (unsigned long long)g_dial.back.load()));
    VT_CHECK(g_dial.down == 0, "connection/outgoing-failed", "an outgoing connection to a listening port was reported as failed");
    VT_CHECK(g_dial.errs == 0 && g_echo.errs == 0 && g_echo.n_other_err == 0, "connection/error", "an error was reported for a healthy connection");
    if (use_pool) pool.stop();
    if (!tsan) drain_rt("after the load");
    for (size_t i = 0; i < first.size(); i++) { int s = first[i]; if (!tsan && g_sent[s] && got(s) == 0) fail("never", fmt("signal %d was sent %llu times and never reached a handler", s, (unsigned long long)g_sent[s].load())); }
    sleep_us(300);
    one_by_one(r, first, 3 + (int)r.below(5));
    for (int i = 0; i < nc; i++) ni::pclose(cs[i].fd);
    ok = ni::wait_for([]() { return g_echo.n_live() == 0 && g_dial.n_live() == 0; }, 20000);
    VT_CHECK(ok, "connection/leak", "connections remained after their peers had closed");
    if (!tsan && r.chance(40)) { timer_under_signals(r, first); drain_rt("after the timer"); }
    if (!tsan && r.chance(30)) stop_from_signal(r, L);
    uint64_t f = 0; for (int i = 0; i < 4; i++) f += P[i]->foreign;
    VT_CHECK(f == 0, "foreign", "a handler was called with a number that is no signal");
    g_echo.report("life/"); g_dial.report("life/"); g_echo.forget(); g_dial.forget();
    uint64_t tot = 0; for (int s = 1; s < NS; s++) { tot += g_sent[s]; g_sent[s] = 0; if (!rt(s)) base_sent[s] = 0; }
    count("sent", tot); count("signals_used", sigs.size()); count("behind_failed_calls", g_sync_n.exchange(0)); count("messages", nm); count("timers", nt); count("tasks", npool); count("dials", dials);
    distinct("history", h * 31 + nc * 7 + nm + tot * 131);
    if (idx < 3) sample(fmt("%zu signals, %llu sent, %d clients, %llu messages, injected %d, late %d", sigs.size(), (unsigned long long)tot, nc, (unsigned long long)nm, (int)inject, (int)late));
}
int main(int argc, char **argv) {
    init(argc, argv);
    for (int i = 0; i < NS; i++) { reg[i] = -1; base_sent[i] = 0; g_sent[i] = 0; }
    for (int i = 0; i < 4; i++) { P[i] = new SigProc; P[i]->idx = i; }
    if (cl::mgr().init(200) < 0) return 9;
    int id = cl::make_srv(SRV_TCP, case_rng(0).next(), g_port, 1000, 200000, 1000, 2000000); if (id < 0) return 9;
    g_echo.id = id; cl::mgr().setProcessor(id, &g_echo, PKG_RAW);
    g_dial_id = cl::mgr().createClient(); cl::mgr().setProcessor(g_dial_id, &g_dial, PKG_RAW);
    ni::cfg().on_fail = sync_signal;
    L.start(); g_loop = L.t; cl::on_loop([]() {});
    cases(one);
    L.stop(); ni::count_injected();
    uint64_t all = 0; for (int s = 1; s < NS; s++) all += got(s); count("handled", all);
    return done();
}
