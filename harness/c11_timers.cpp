// C11: timers of the event loop, under a virtual clock (all histories in no time) and under the real one.
#include "vclock.h"
#include <sys/eventfd.h>
#include <functional>
#include "Utils.h"
#include "CEvent.h"
#include "CCommMgr.h"
using namespace vt;
using namespace lce;

struct T { uint64_t due; void *param; uint64_t gen, passed; T() : due(0), param(0), gen(0), passed(0) {} };
static std::map<int, T> g_model;
static Rng *g_r; static CEvent *g_ev; static bool g_mgr; static int g_budget; static uint64_t g_gen, g_busy_us, g_hash, g_fired, g_last_wait;
static std::string g_log; static bool g_stop; static int g_evfd = -1; static uint64_t g_msgs_left, g_lateness_max;
static std::vector<std::pair<uint64_t, uint64_t> > g_busy; // when handlers took time
static void act();
static const uint64_t MARGIN = 100000; // us
static void fired(int id, void *p);
struct Proc : CProcessor {
    void onTimer(int id, void *p) { fired(id, p); }
    void onMessage(int, void *);
};
static Proc g_proc;
static void posted();
static void arm(int id, uint32_t ms) {
    T t; t.gen = ++g_gen; t.param = (void *)(size_t)(t.gen * 16 + 1);
    uint64_t before = vc::now();
    if (g_mgr) CCommMgr::getInstance().addTimer(id, ms, &g_proc, t.param); else g_ev->addTimer(id, ms, fired, t.param);
    t.due = before + (uint64_t)ms * 1000; g_model[id] = t; count("armed");
    g_log += fmt(" +%d:%u", id, ms); g_hash = g_hash * 131 + ms * 7 + id;
}
static void disarm(int id) { if (g_mgr) CCommMgr::getInstance().delTimer(id); else g_ev->delTimer(id); if (g_model.erase(id)) count("deleted"); g_log += fmt(" -%d", id); g_hash = g_hash * 131 + 5 + id; }
static void stop() { g_stop = true; if (g_mgr) CCommMgr::getInstance().stop(); else g_ev->stop(); }
static void take(uint64_t us) { if (!us) return; g_busy.push_back(std::make_pair(vc::now(), vc::now() + us)); if (g_busy.size() > 4000) g_busy.erase(g_busy.begin(), g_busy.begin() + 2000); vc::advance(us); }
static uint64_t busy_between(uint64_t a, uint64_t b) { uint64_t s = 0; for (size_t i = 0; i < g_busy.size(); i++) { uint64_t x = std::max(a, g_busy[i].first), y = std::min(b, g_busy[i].second); if (y > x) s += y - x; } return s; }

static uint64_t wit(uint64_t us) { return us / 1000; }
static void fired(int id, void *p) {
    g_fired++; count("fired"); uint64_t now = vc::now();
    g_log += fmt(" !%d", id); if (g_log.size() > 3000) g_log.erase(0, 1500);
    if (g_stop) return;
    std::map<int, T>::iterator i = g_model.find(id);
    if (i == g_model.end()) { fail("unarmed", fmt("timer %d fired although it is not armed (fired twice, or deleted):%s", id, g_log.c_str())); return; }
    T t = i->second;
    VT_CHECK(p == t.param, "param", fmt("timer %d fired with the parameter of another arming:%s", id, g_log.c_str()));
    VT_CHECK(now + 1000 >= t.due, "early", fmt("timer %d fired %llu us early:%s", id, (unsigned long long)(t.due - now), g_log.c_str()));
    uint64_t late = now > t.due ? now - t.due : 0, own = late - std::min(late, busy_between(t.due, now));
    VT_CHECK(own <= MARGIN, "late", fmt("timer %d fired %llu ms late (%llu ms of it in handlers):%s", id, (unsigned long long)wit(late), (unsigned long long)wit(late - own), g_log.c_str()));
    for (std::map<int, T>::iterator k = g_model.begin(); k != g_model.end(); ++k)
        VT_CHECK(k->second.due + 1000 >= t.due, "order", fmt("timer %d (due at %llu) fired before timer %d (due at %llu):%s", id, (unsigned long long)wit(t.due), k->first, (unsigned long long)wit(k->second.due), g_log.c_str()));
    g_model.erase(i);
    if (g_r->chance(4)) { take(g_r->below(3000000)); count("long_handlers"); } // the time a handler takes is not added to what others still have to wait
    else take(g_r->chance(20) ? g_r->below(30000) : 0);
    act();
}
static uint32_t delay() {
    Rng &r = *g_r; int k = (int)r.below(20);
    if (k < 3) return (uint32_t)r.below(3);
    if (k < 10) return (uint32_t)r.below(50);
    if (k < 16) return (uint32_t)r.below(3000);
    if (k < 18) return 2990 + (uint32_t)r.below(200);
    if (k < 19) return (uint32_t)r.below(10000000);
    static const uint32_t X[] = {2147483647u, 2147483648u, 4294967295u, 4294967, 4000000000u, 65535, 65536};
    return X[r.below(7)];
}
static int an_id() { Rng &r = *g_r; if (!g_model.empty() && r.chance(40)) { std::map<int, T>::iterator i = g_model.begin(); std::advance(i, r.below(g_model.size())); return i->first; }
    static const int X[] = {0, -1, 2147483647, -2147483647 - 1, 65536}; return r.chance(5) ? X[r.below(5)] : (int)r.below(40); }
static void act() {
    Rng &r = *g_r;
    int n = (int)r.below(g_model.size() < 3 ? 4 : 3);
    for (int k = 0; k < n; k++) {
        if (g_budget <= 0) break;
        g_budget--;
        int op = (int)r.below(10);
        if (op < 6) arm(an_id(), delay());
        else if (op < 8) disarm(an_id());
        else if (op == 8) { uint32_t d = delay(); int m = 2 + (int)r.below(6); for (int i = 0; i < m; i++) arm((int)r.below(40), d); } // same due time
        else { if (r.chance(50)) take(r.below(20000)); else { vc::wall_off_us() += r.range(-3600, 3600) * 1000000LL * (r.chance(10) ? 100000 : 1); count("clock_changes"); } }
    }
    if (r.chance(5) && !g_msgs_left && g_budget > 0) { g_msgs_left = r.chance(50) ? r.below(40) : 2000; posted(); }
    if (g_model.empty()) stop();
}
// a message that posts itself again, and takes a millisecond
static void posted_cb(int, void *) {
    if (!g_msgs_left) return; g_msgs_left--;
    // timers are not starved by a handler that keeps posting
    for (std::map<int, T>::iterator k = g_model.begin(); k != g_model.end(); ++k) if (vc::now() > k->second.due + 1000 && ++k->second.passed > 300) { fail("starved", fmt("timer %d is overdue while %llu messages posted after its due time were delivered:%s", k->first, (unsigned long long)k->second.passed, g_log.c_str())); die_now(); } count("self_posts"); take(500 + g_r->below(1000)); if (g_msgs_left) posted();
}
void Proc::onMessage(int t, void *p) { posted_cb(t, p); }
static void posted() { if (g_mgr) CCommMgr::getInstance().sendMessage(1, &g_proc, 0); else g_ev->addMessage(1, posted_cb, 0); }
static uint64_t g_idle_waits;
static int waiting(int, struct epoll_event *, int, int ms) {
    Rng &r = *g_r;
    g_last_wait = ms;
    if (g_model.empty()) { stop(); return 0; }
    if (ms < 0) { // nothing will ever come
        fail("sleeps-for-ever", fmt("the loop waits without limit while %zu timers are armed:%s", g_model.size(), g_log.c_str())); die_now();
    }
    if (++g_idle_waits > 2000000) { fail("spins", "the loop does not make progress: " + g_log); die_now(); }
    if (r.chance(5)) { vc::advance((uint64_t)(ms * 1000.0 * (r.below(100) / 100.0))); count("inj_eintr"); errno = EINTR; return -1; }
    vc::advance((uint64_t)ms * 1000 + r.below(300)); count("waits");
    // a timer that is overdue by far and never fires
    uint64_t now = vc::now();
    for (std::map<int, T>::iterator k = g_model.begin(); k != g_model.end(); ++k)
        if (now > k->second.due && now - k->second.due - busy_between(k->second.due, now) > 20000000) { fail("lost", fmt("timer %d is %llu ms overdue:%s", k->first, (unsigned long long)wit(now - k->second.due), g_log.c_str())); die_now(); }
    return 0;
}
static void busy_fd(int fd, void *) { if (g_budget > 0 || g_r->chance(50)) take(g_r->below(3000)); count("fd_events"); if (g_r->chance(3)) { uint64_t v; ssize_t k = ::read(fd, &v, 8); (void)k; } }

static void virt(Rng &r, uint64_t idx) {
    g_r = &r; g_model.clear(); g_busy.clear(); g_log.clear(); g_hash = 0; g_stop = false; g_budget = r.chance(1) ? 1500 : 60; g_msgs_left = 0; g_idle_waits = 0;
    vc::wait_hook() = waiting; vc::on() = 1;
    if (idx % 3 == 0) vc::mono_us() = 4294960000ULL * 1000 + r.below(1000000); // around 2^32 ms
    else vc::mono_us() = 1000000000ULL + r.below(1000000000ULL);
    vc::wall_off_us() = 1600000000LL * 1000000;
    vc::tick_us() = 1 + (int)r.below(3);
    g_mgr = st().shard % 4 == 3;
    CEvent *ev = 0;
    if (!g_mgr) { ev = new CEvent; ev->init(1000); g_ev = ev; if (r.chance(30)) { g_evfd = eventfd(1, EFD_NONBLOCK); ev->addFdEvent(g_evfd, CEvent::EV_READ, busy_fd, 0); } }
    for (int i = 0; i < 5; i++) arm((int)r.below(40), delay());
    act();
    g_stop = false;
    if (!g_model.empty()) { if (g_mgr) CCommMgr::getInstance().start(); else ev->run(); }
    VT_CHECK(g_model.empty() || g_stop, "ended", "the loop returned with timers armed");
    // left-overs of the manager (a singleton) must not reach into the next case
    if (g_mgr) { g_stop = true; std::map<int, T> m = g_model; for (std::map<int, T>::iterator i = m.begin(); i != m.end(); ++i) disarm(i->first); }
    vc::on() = 0;
    if (ev) { delete ev; if (g_evfd >= 0) close(g_evfd); g_evfd = -1; }
    distinct("history", g_hash); if (r.chance(1)) sample(g_log.substr(0, 300));
}

// ---- real time: the loop in its own thread, timers armed on it by messages and callbacks -------
struct Real : CProcessor {
    pthread_mutex_t mu; std::map<int, T> model; uint64_t left, worst; std::function<void()> f; std::vector<uint32_t> d;
    void onTimer(int id, void *p) {
        uint64_t now = now_us(); std::map<int, T>::iterator i = model.find(id);
        if (i == model.end()) { fail("unarmed", fmt("timer %d fired although it is not armed", id)); return; }
        VT_CHECK(p == i->second.param, "param", "timer fired with the parameter of another arming");
        VT_CHECK(now + 1000 >= i->second.due, "early", fmt("timer %d fired %llu us early", id, (unsigned long long)(i->second.due - now)));
        if (now > i->second.due) worst = std::max(worst, now - i->second.due);
        VT_CHECK(now < i->second.due + 5000000, "late", fmt("timer %d fired %llu us late", id, (unsigned long long)(now - i->second.due)));
        model.erase(i); left--; count("real_fired");
        if (!d.empty()) { arm(id + 1000, d.back()); d.pop_back(); }
    }
    void arm(int id, uint32_t ms) { T t; t.gen = ++g_gen; t.param = (void *)(size_t)(t.gen * 16 + 1); t.due = now_us() + ms * 1000ULL; if (!model.count(id)) left++; model[id] = t; CCommMgr::getInstance().addTimer(id, ms, this, t.param); }
    void onMessage(int, void *) { f(); }
};
static void *loop_main(void *) { CCommMgr::getInstance().start(); return 0; }
static void real_one(Rng &r, uint64_t) {
    Real &R = *new Real; R.left = 0; R.worst = 0; uint64_t t0 = now_us();
    int n = 3 + (int)r.below(20), gone = (int)r.below(4); for (int i = 0; i < 5; i++) R.d.push_back((uint32_t)r.below(40));
    std::vector<uint32_t> d; for (int i = 0; i < n; i++) d.push_back((uint32_t)r.below(120));
    std::atomic<int> &state = *new std::atomic<int>(0);
    R.f = [&R, &state, n, gone, d]() { if (state == 0) { for (int i = 0; i < n; i++) R.arm(i, d[i]); for (int i = 0; i < gone; i++) { CCommMgr::getInstance().delTimer(i); if (R.model.erase(i)) R.left--; } state = 1; } else if (R.left == 0) state = 2; };
    CCommMgr::getInstance().sendMessage(1, &R);
    while (state < 2) { sleep_us(5000); CCommMgr::getInstance().sendMessage(1, &R); if (now_us() - t0 > 30000000) { fail("lost", fmt("%llu timers did not fire within 30 s", (unsigned long long)R.left)); die_now(); } }
    count("real_runs");
}
int main(int argc, char **argv) {
    init(argc, argv); CCommMgr::getInstance().init(100);
    if (mode("virtual")) cases(virt); else { pthread_t t; pthread_create(&t, 0, loop_main, 0); cases(real_one); CCommMgr::getInstance().stop(); pthread_join(t, 0); }
    count("clock_questions", vc::asked());
    return done();
}
