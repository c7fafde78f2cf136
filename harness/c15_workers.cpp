// C15: several network workers share a listening service: ownership, thread, order, bytes, life cycle.
#include "commloop.h"
#include "schedinj.h"
#include "CNetWorkerMgr.h"
#include <sys/resource.h>
using namespace vt;
using namespace lce;

enum Op { NOOP = 0, ECHO = 1, ECHO_CLOSE, CLOSE_NOW, CLOSE_TWICE, CLOSE_DIAL, CLOSE_OTHER, BIG, SPLIT, EMPTY_ECHO, ANSWER, BIG_CLOSE, CLOSE_MORE, NOPS };
struct Hdr { int tag, seq, arg; };
static std::string pkt(int op, Hdr h, const std::string &pl, bool lng) { // short or long length field
    size_t t = pl.size() + 1 + 12 + 1 + (lng ? 5 : 3); std::string r; r += (char)2;
    if (lng) { r += (char)(t >> 24); r += (char)(t >> 16); }
    r += (char)(t >> 8); r += (char)t; r += (char)op; r.append((char *)&h, 12); return r + pl + (char)3;
}
static std::string pattern(int seed, size_t n) { std::string s(n, 0); uint32_t x = seed * 2654435761u + 1; for (size_t i = 0; i < n; i++) { x = x * 1664525u + 1013904223u; s[i] = (char)(x >> 24); } return s; }

static int g_port[2], g_sink, g_sinkport, g_refused, g_stuck, g_stuckport, g_nsrv;
static std::atomic<int> g_errs, g_stopped;
static void on_err(const char *m) { if (!m || !*m) fail("err-handler", "error handler called without a message"); g_errs++; }
static int hi(int fd) { ni::AsHarness h; if (fd < 0) return fd; int n = fcntl(fd, F_DUPFD_CLOEXEC, 1500); ni::disown(fd); ::close(fd); ni::own(n); return n; }

struct W; struct Out { int id, port, fd, notified, answered; bool ok, closed_early; W *w; cl::ConnP c; };
struct WCall { std::function<void(W &)> f; std::atomic<int> done; WCall() : done(0) {} };
struct WMsg { int sender; uint64_t seq; W *to; };
struct Shared { // of one server
    pthread_mutex_t mu; std::map<int, int> tagw; std::map<int, int> lastseq; std::map<int, int> wfail; std::map<int, size_t> more; std::map<int, size_t> said; std::map<int, int> bad, perw; std::map<int, int> byport; std::set<pthread_t> threads; uint64_t accepted;
    std::map<std::pair<W *, int>, uint64_t> msgs; std::vector<Out *> outs; std::atomic<uint64_t> n_msgs;
    Shared() : accepted(0), n_msgs(0) { pthread_mutex_init(&mu, 0); }
};
static Shared *S;
static std::string tail(int tag) { return fmt("tail of %d;", tag) + std::string((size_t)(tag * 37 % 300), 't'); }
struct LS { LS() { __real_pthread_mutex_lock(&S->mu); } ~LS() { __real_pthread_mutex_unlock(&S->mu); } };
static std::vector<W *> g_ws;
struct Mon : cl::Monitor { W *w; std::vector<StSession> stale; std::map<int, StSession> last; };
struct W : CNetWorker {
    Mon M; std::atomic<int> bound, timers; pthread_t me; int idx, cli, cli_long; bool fast; std::atomic<int> close_in_connect, redial, greet;
    std::atomic<int> inits;
    W() : bound(0), timers(0), cli(-1), cli_long(-1), fast(false), close_in_connect(0), redial(0), greet(0), inits(0) { M.w = this; M.keep_packets = false; idx = (int)g_ws.size(); g_ws.push_back(this); }
    void here(const char *what) { // everything of a worker happens on its one thread
        if (g_stopped) fail("after-stop", fmt("%s notified after the service was stopped", what));
        if (!bound) { me = pthread_self(); bound = 1; LS l; if (!S->threads.insert(me).second) fail("shared-thread", "two workers run on one thread"); }
        else if (!pthread_equal(me, pthread_self())) fail("thread", fmt("%s of one worker notified on two threads", what));
    }
    int init() { inits++; cli = createClient(PKG_H2ST3, 128, 8192, 1000, 200000); cli_long = createClient(PKG_H2LT3, 128, 8192, 1000, 200000); if (cli == cli_long || cli < 0) fail("client-id", "two clients with one id"); addTimer(1, 3, this); return 0; }
    void onTimer(int id, void *p) { here("timer"); if (p != this || id != 1) fail("timer-args", "timer with foreign arguments"); timers++; if (timers < 2000) addTimer(1, 3, this); }
    void onMessage(int type, void *p) {
        here("message");
        if (type == 1) { WCall *c = (WCall *)p; c->f(*this); c->done = 1; return; }
        WMsg *m = (WMsg *)p; if (m->to != this) fail("foreign-message", "message for another worker");
        { LS l; uint64_t &n = S->msgs[std::make_pair(this, m->sender)]; if (m->seq != n) fail("message-order", fmt("message %llu of a sender after %llu", (unsigned long long)m->seq, (unsigned long long)n)); n = m->seq + 1; }
        S->n_msgs++; delete m;
    }
    bool closing(StSession &s) { M.app_close(s); cl::Monitor::L l(&M); if (M.stale.size() < 200) M.stale.push_back(s); return true; }
    Out *dial(int port, bool early) {
        Out *o = new Out; o->port = port; o->fd = -1; o->notified = o->answered = 0; o->ok = o->closed_early = false; o->w = this;
        { LS l; o->id = (int)S->outs.size(); S->outs.push_back(o); }
        int fd = connect(cli, ni::my_ip(), port, o);
        LS l; o->fd = fd; count("dialed");
        if (fd >= 0 && early && !o->notified) { o->closed_early = true; StSession s; s.iFd = fd; s.iSvrId = cli; close(s); count("closed_while_connecting"); }
        return o;
    }
    void again(StSession &s) { if (redial > 0) { redial--; close(s); dial(redial % 2 ? g_sinkport : g_refused, false); count("redialed"); } } // the descriptor of an ended session is in use again before its notification returns
    void onConnect(StSession &s, bool ok, void *data) {
        here("connect");
        bool out = s.iSvrId == cli;
        if (!out && (s.iSvrId < 0 || s.iSvrId >= g_nsrv)) fail("service-id", fmt("connect notification for service %d", s.iSvrId));
        M.onConnect(s, ok, data);
        if (out) {
            LS l; Out *o = (Out *)data; bool known = false; for (size_t i = 0; i < S->outs.size(); i++) if (S->outs[i] == o) known = true;
            if (!known) { fail("foreign-data", "connect notification with a parameter never given"); return; }
            o->notified++; o->ok = ok; if (ok) o->c = M.find(s);
            if (o->w != this) fail("foreign-worker", "connection opened by one worker is notified by another");
            if (o->notified > 1) fail("connect-twice", "second connect notification for one connect call");
            if (o->closed_early) fail("connect-after-close", "connect notification for a connection that was closed before");
            if (ok && o->port != g_sinkport) fail("false-connect", "connect reported as successful to a refusing or silent peer");
            if (!ok && o->port == g_sinkport) fail("false-refusal", "connect to a listening peer reported as failed");
            if (ok) { std::string q = pkt(ECHO, Hdr{o->id, 0, 0}, "hello", false); if (write(s, q.data(), (int)q.size(), false) != 0 && !ni::cfg().epoll_add_fail) fail("first-write", "write to a new connection refused"); }
        } else {
            if (!ok) fail("accepted-not-ok", "an accepted connection is announced as failed");
            int g; { LS l; g = greet; S->accepted++; S->perw[idx]++; S->byport[s.getPort() * 2 + s.iSvrId]++; }
            if (g > 0) { std::string b = pattern(g, g); if (write(s, b.data(), (int)b.size(), false) != 0) fail("greet", "write inside of the connect notification refused"); }
            if (close_in_connect > 0) { close_in_connect--; closing(s); close(s); count("closed_in_connect"); }
        }
        if (!ok) again(s);
    }
    void onClose(StSession &s) { here("close"); M.onClose(s); again(s); }
    void onError(StSession &s, const char *m, int e) { here("error"); if (e == ERR_OP_EVENT) e = ERR_SOCKET; M.onError(s, m, e); if (e != ERR_NOT_READY) again(s); }
    void say(StSession &s, int tag, const std::string &b, bool cl) {
        int rc = write(s, b.data(), (int)b.size(), cl);
        if (rc == 0) { LS l; S->said[tag] += b.size(); }
        else { LS l; if (S->said[tag] + b.size() < 150000 && !ni::cfg().epoll_add_fail) S->bad[tag] = 1; } // not for want of space
        if (rc != 0) { { LS l; S->wfail[tag] = 1; } closing(s); close(s); count("refused_writes"); }
        else if (cl) { M.app_write_close(s); cl::Monitor::L l(&M); if (M.stale.size() < 200) M.stale.push_back(s); }
    }
    void onRead(StSession &s, const char *d, const int n) {
        here("data");
        M.onRead(s, d, n);
        if (!M.find(s)) return; // a close is pending until the rest is out
        bool lng = s.iSvrId == 1; int off = lng ? 5 : 3;
        if (n < off + 14 || d[0] != 2 || d[n - 1] != 3) { fail("packet", "something else than a whole packet delivered"); return; }
        int op = (unsigned char)d[off]; Hdr h; memcpy(&h, d + off + 1, 12);
        std::string pl(d + off + 13, n - off - 14);
        if (s.iSvrId == cli) { LS l; if (op != ANSWER || h.tag < 0 || h.tag >= (int)S->outs.size() || pl != "world") { fail("answer", "wrong data on an outgoing connection"); return; }
            Out *o = S->outs[h.tag]; o->answered++; if (o->w != this || o->c != M.find(s)) fail("answer-owner", "answer delivered for another connection"); return; }
        { LS l; if (S->tagw.count(h.tag) && S->tagw[h.tag] != idx) fail("two-owners", "packets of one connection delivered by two workers"); S->tagw[h.tag] = idx;
          if (h.seq != S->lastseq[h.tag]) fail("order", fmt("packet %d of connection %d delivered after %d packets", h.seq, h.tag, S->lastseq[h.tag])); S->lastseq[h.tag] = h.seq + 1; }
        { cl::Monitor::L l(&M); cl::ConnP c = M.find(s); if (c) { if (c->tag && c->tag != h.tag) M.wrong("mixed", "packets of two peers on one connection"); c->tag = h.tag; } M.last[h.tag] = s; }
        count("packets");
        std::string all(d, n);
        switch (op) {
        case ECHO: say(s, h.tag, all, false); break;
        case EMPTY_ECHO: { bool bad = write(s, "", 0, false) != 0; say(s, h.tag, all, false); if (bad && M.find(s) && !ni::cfg().send_again && !ni::cfg().send_eintr && !ni::cfg().epoll_add_fail) fail("empty-write", "an empty write is an error on a working connection"); break; }
        case ECHO_CLOSE: say(s, h.tag, all, true); break;
        case BIG: say(s, h.tag, pattern(h.tag * 1000 + h.seq, h.arg), false); break;
        case BIG_CLOSE: say(s, h.tag, pattern(h.tag * 1000 + h.seq, h.arg), true); break;
        case CLOSE_MORE: { say(s, h.tag, pattern(h.tag * 1000 + h.seq, h.arg), true); std::string t = tail(h.tag); // what is accepted behind a closing write still goes out before the close
            bool took = write(s, t.data(), (int)t.size(), false) == 0; LS l; S->more[h.tag] = took ? t.size() : 0; if (took) count("behind_closing"); break; }
        case SPLIT: { size_t o = 0; { LS l; S->said[h.tag] += all.size(); } for (int k = 0; k < 5; k++) { size_t m = k == 4 ? all.size() - o : std::min<size_t>(all.size() - o, (h.arg >> (k * 3)) & 7); bool fin = false;
            if (write(s, all.data() + o, (int)m, fin) != 0) { { LS l; S->wfail[h.tag] = 1; } closing(s); close(s); break; } o += m; } break; }
        case CLOSE_NOW: closing(s); close(s); break;
        case CLOSE_TWICE: closing(s); close(s); close(s); if (write(s, "x", 1, false) == 0) fail("write-on-closed", "write accepted by a closed session"); break;
        case CLOSE_DIAL: closing(s); close(s); dial(g_sinkport, false); break;
        case CLOSE_OTHER: { StSession t; bool have; { cl::Monitor::L l(&M); have = M.last.count(h.arg) > 0; if (have) { t = M.last[h.arg]; cl::ConnP oc = M.find(t); have = oc && oc->tag == h.arg; } }
            if (have) { closing(t); close(t); count("closed_other"); } break; }
        }
    }
};
typedef CNetWorkerMgr<W> Mgr;
template <class F> bool on_worker(W &w, F f, int ms = 30000) {
    WCall *c = new WCall; c->f = f;
    if (w.sendMessage(1, c) < 0) return false;
    bool ok = ni::wait_for([c]() { return c->done.load() == 1; }, ms); if (ok) delete c; return ok;
}
struct Peer { int fd, tag, seq, lport, srv; std::string expect; size_t got; bool ends, disturbed, eof, wild, mute; size_t more; };
static bool drain(Peer &p, int ms) { // false: something wrong
    std::string x; int st = ni::recv_some(p.fd, x, 65536, ms);
    if (st == 0 || st == -2) { p.eof = true; return true; }
    if (p.mute) { p.got += x.size(); return true; }
    if (!x.empty()) { if (p.got + x.size() > p.expect.size() || p.expect.compare(p.got, x.size(), x) != 0) {
        size_t i = 0; while (i < x.size() && p.got + i < p.expect.size() && p.expect[p.got + i] == x[i]) i++;
        fail("bytes", fmt("peer %d: answer byte %zu of %zu expected differs or is too much", p.tag, p.got + i, p.expect.size())); return false; }
      p.got += x.size(); count("answer_bytes", x.size()); }
    return true;
}
static int listener(int port, int backlog) { ni::AsHarness h; int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); sockaddr_in a = ni::addr(ni::my_ip(), port); int on = 1; setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &on, sizeof on); if (bind(fd, (sockaddr *)&a, sizeof a) || listen(fd, backlog)) _exit(9); return hi(fd); }
static std::set<std::string> fd_list() { ni::AsHarness h; std::set<std::string> v; for (int i = 0; i < 4096; i++) if (fcntl(i, F_GETFD) >= 0) { char b[200]; int n = (int)readlink(fmt("/proc/self/fd/%d", i).c_str(), b, 199); v.insert(fmt("%d:", i) + std::string(b, n > 0 ? n : 0)); } return v; }
static std::string fd_diff(const std::set<std::string> &a, const std::set<std::string> &b) { std::string r; for (auto &x : a) if (!b.count(x)) r += " -" + x; for (auto &x : b) if (!a.count(x)) r += " +" + x; return r; }
static void *mgr_main(void *p) { ((Mgr *)p)->start(); return 0; }
struct Sender { int id; std::vector<W *> ws; uint64_t n; std::vector<uint64_t> seq; };
static void *send_main(void *p) {
    Sender *s = (Sender *)p; ni::harness_thread() = 1; Rng r(s->id * 77 + s->n); s->seq.assign(s->ws.size(), 0);
    for (uint64_t i = 0; i < s->n; i++) { size_t k = r.below(s->ws.size()); WMsg *m = new WMsg; m->sender = s->id; m->seq = s->seq[k]; m->to = s->ws[k]; if (s->ws[k]->sendMessage(2, m) < 0) delete m; else s->seq[k]++; if (r.chance(3)) sleep_us(r.below(100)); }
    return 0;
}
static void one(Rng &r, uint64_t idx) {
    static int tag = 0;
    int base = vt::open_fds(); std::set<std::string> base_list = fd_list();
    si::begin(r); ni::calm();
    ni::cfg().seed = r.next();
    bool flood = idx % 6 == 5;
    int T = r.chance(20) ? 1 : 2 + (int)r.below(3); uint32_t N = flood ? (uint32_t)(40 + r.below(30)) : 300;
    S = new Shared; g_ws.clear(); g_stopped = 0; g_errs = 0;
    Mgr *mgr = new Mgr; bool early_handler = r.chance(50);
    if (early_handler) mgr->setErrHandler(on_err);
    if (mgr->init(T, N) != 0) { fail("init", mgr->getErrMsg()); die_now(); }
    if (!early_handler) mgr->setErrHandler(on_err);
    if ((int)g_ws.size() != T) fail("workers", fmt("%zu workers, %d asked for", g_ws.size(), T));
    g_nsrv = 2;
    if (r.chance(50)) { // a service whose set-up fails half way leaves nothing behind
        int f0 = vt::open_fds(), how = (int)r.below(5); int port = 10000 + (int)(r.next() % 22000); if (how == 0) ni::cfg().epoll_add_fail = 100; else if (how < 4) ni::cfg().setup_fail = how;
        int id = mgr->createSrv(how == 4 ? "8.8.8.8" : ni::my_ip(), port, PKG_H2ST3, 64, 4096, 100, 150000); ni::cfg().epoll_add_fail = 0; ni::cfg().setup_fail = 0;
        VT_CHECK(id < 0 && *mgr->getErrMsg(), "create/failure-hidden", fmt("createSrv gives %d although a call failed (%d)", id, how)); VT_CHECK(vt::open_fds() == f0, "create/fd-leak", "a service that could not be created leaves a descriptor"); count("create_broken");
    }
    for (int k = 0; k < 2; k++) { int id = -1; for (int i = 0; i < 200 && id < 0; i++) { g_port[k] = 10000 + (int)((r.next()) % 22000); id = mgr->createSrv(ni::my_ip(), g_port[k], k ? PKG_H2LT3 : PKG_H2ST3, r.chance(50) ? 64 : 1024, 4096, r.chance(50) ? 100 : 5000, 150000); } if (id != k) { fail("create", "cannot create a service"); die_now(); } }
    if (r.chance(10)) si::fail_create() = 50;
    if (si::fail_create()) { // workers that cannot be started: reported, and the service can be taken down again
        Mgr *m2 = mgr; std::atomic<int> rc(7); struct A { Mgr *m; std::atomic<int> *rc; } a = {m2, &rc};
        pthread_t t; __real_pthread_create(&t, 0, [](void *p) -> void * { A *a = (A *)p; *a->rc = a->m->start(); return 0; }, &a);
        bool ended = ni::wait_for([&]() { int nb = 0; for (auto w : g_ws) if (w->bound || w->timers) nb++; return rc.load() != 7 || nb == T; }, 5000);
        si::fail_create() = 0; sleep_us(500);
        if (!ended) fail("start-failure", "starting with failing threads neither serves nor returns");
        for (int i = 0; i < 500 && rc.load() == 7; i++) { mgr->stop(); sleep_us(1000 * i); }
        pthread_join(t, 0); g_stopped = 1; delete mgr; count("start_failures");
        VT_CHECK(vt::open_fds() == base, "fd-left", fmt("%d descriptors, %d before the server:%s", vt::open_fds(), base, fd_diff(base_list, fd_list()).c_str()));
        si::end(); delete S; return;
    }
    ni::cfg().accept_fail = r.chance(30) ? 20 : 0; ni::cfg().recv_again = r.chance(30) ? 20 : 0; ni::cfg().recv_max = r.chance(30) ? 1 + (int)r.below(9) : 0;
    ni::cfg().send_max = r.chance(30) ? 1 + (int)r.below(2000) : 0; ni::cfg().send_again = r.chance(30) ? 20 : 0; ni::cfg().send_eintr = r.chance(30) ? 20 : 0; ni::cfg().recv_eintr = r.chance(20) ? 10 : 0; ni::cfg().jitter = r.chance(40) ? 5 : 0;
    ni::cfg().connect_now = r.chance(25) ? 60 : 0;
    bool fails = !flood && r.chance(15);
    pthread_t loop; __real_pthread_create(&loop, 0, mgr_main, mgr);
    for (auto w : g_ws) if (!on_worker(*w, [](W &) {})) { fail("start", "a worker does not react"); die_now(); }
        { int f = hi(ni::dial(g_port[0])); if (!ni::wait_for([&]() { LS l; return S->accepted == 1; })) { fail("start", "the service does not accept"); die_now(); } ni::pclose(f); }
    auto n_live = [&]() { size_t n = 0; for (auto w : g_ws) n += w->M.n_live(); return n; };
    ni::wait_for([&]() { return n_live() == 0; }); for (auto w : g_ws) on_worker(*w, [](W &) {});
    int base_run = vt::open_fds();
    ni::cfg().epoll_add_fail = fails ? 15 : 0;
    std::vector<Peer> P; std::vector<int> sink; std::vector<std::pair<int, std::string> > sinkbuf; uint64_t h = T; std::string log = fmt("%dw", T); uint64_t dialed = 1; int refused = 0, slow = 0;
    auto mk = [&]() { ni::AsHarness ah; int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); ni::own(fd); return hi(fd); };
    auto join = [&](int fd = -1) -> bool {
        Peer p; p.srv = (int)r.below(2); p.tag = ++tag; p.seq = 0; p.got = 0; p.ends = p.disturbed = p.eof = p.wild = false; p.more = 0; p.mute = false;
        p.fd = fd >= 0 ? fd : mk(); ni::AsHarness ah; int on = 1; setsockopt(p.fd, IPPROTO_TCP, TCP_NODELAY, &on, sizeof on);
        if (r.chance(20) && !flood) { int b = 4096; setsockopt(p.fd, SOL_SOCKET, SO_RCVBUF, &b, sizeof b); }
        sockaddr_in a = ni::addr(ni::my_ip(), g_port[p.srv]);
        if (::connect(p.fd, (sockaddr *)&a, sizeof a)) { fail("dial", "cannot connect to the server"); return false; }
        p.lport = cl::local_port(p.fd); dialed++; P.push_back(p); return true;
    };
    auto request = [&](Peer &p, int op, int arg, const std::string &pl) { Hdr hd = {p.tag, p.seq++, arg}; return pkt(op, hd, pl, p.srv == 1); };
    auto echo_ok = [&](Peer &p) -> bool { std::string q = request(p, ECHO, 0, r.alnum(r.below(60))); p.expect += q; if (!ni::send_all(p.fd, q)) return false;
        uint64_t end = now_us() + 20000000; while (p.got < p.expect.size() && !p.eof && now_us() < end) if (!drain(p, 50)) return false; return p.got == p.expect.size(); };
    auto sinks = [&]() {
        while (ni::readable(g_sink, 0)) { ni::AsHarness ah; int s = ::accept(g_sink, 0, 0); if (s < 0) break; ni::own(s); sinkbuf.push_back(std::make_pair(hi(s), std::string())); }
        for (size_t i = 0; i < sinkbuf.size(); i++) { if (sinkbuf[i].first < 0) continue; int st = ni::recv_some(sinkbuf[i].first, sinkbuf[i].second, 4096, 0);
            std::string &b = sinkbuf[i].second; size_t L = pkt(ECHO, Hdr{0, 0, 0}, "hello", false).size();
            if (b.size() >= L) { Hdr hd; memcpy(&hd, b.data() + 4, 12); if (b.substr(0, L) != pkt(ECHO, Hdr{hd.tag, 0, 0}, "hello", false)) fail("outgoing-bytes", "first packet of an outgoing connection damaged"); b.erase(0, L); ni::send_all(sinkbuf[i].first, pkt(ANSWER, Hdr{hd.tag, 0, 0}, "world", false)); count("outgoing_answered"); if (r.chance(30)) { ni::pclose(sinkbuf[i].first); sinkbuf[i].first = -1; } }
            else if (st == 0 || st == -2) { ni::pclose(sinkbuf[i].first); sinkbuf[i].first = -1; } }
    };
    auto accepted = [&]() { LS l; return S->accepted; };
    std::vector<pthread_t> snd; std::vector<Sender *> snds;
    if (r.chance(40)) for (int k = 1 + (int)r.below(2); k > 0; k--) { Sender *s = new Sender; s->id = k; s->ws = g_ws; s->n = r.below(400); snds.push_back(s); pthread_t t; __real_pthread_create(&t, 0, send_main, s); snd.push_back(t); }
    if (flood) {
        log += " flood"; int acc[2] = {0, 0};
        ni::cfg().accept_fail = 0; 
        for (int k = 0; k < 2; k++) {
            int e0 = g_errs; uint64_t a0 = accepted(); int n = (int)N + 5; P.clear();
            std::vector<int> fds; for (int i = 0; i < n; i++) fds.push_back(mk());
            for (int i = 0; i < n; i++) if (!join(fds[i])) return;
            if (!ni::wait_for([&]() { return accepted() - a0 + (g_errs - e0) >= (uint64_t)n; })) fail("accept-stuck", fmt("%d connections made, %d accepted, %d refused", n, (int)(accepted() - a0), g_errs - e0));
            acc[k] = (int)(accepted() - a0); refused += g_errs - e0;
            VT_CHECK(acc[k] + (g_errs - e0) == n, "accept-count", fmt("%d connections, %d accepted and %d refused", n, acc[k], g_errs - e0));
            VT_CHECK(acc[k] <= (int)N, "over-limit", fmt("%d clients at once, limit %u", acc[k], N));
            std::map<int, int> bp; { LS l; bp = S->byport; }
            for (auto &p : P) { if (!bp.count(p.lport * 2 + p.srv)) { std::string x; int st = ni::recv_eof(p.fd, x, 20000); VT_CHECK(st == 0 || st == -2, "not-turned-away", "a client beyond the limit is left hanging"); p.eof = true; count("turned_away"); } }
            for (int i = 0; i < 8; i++) { Peer &p = P[r.below(P.size())]; if (!p.eof) VT_CHECK(echo_ok(p), "starved", fmt("an accepted client is not served while others are turned away: %zu of %zu bytes, end %d, fd %d", p.got, p.expect.size(), p.eof, p.fd)); }
            if (k == 0) { LS l; for (int w = 0; w < T; w++) if (!S->perw[w]) fail("idle-worker", fmt("worker %d of %d got none of %d simultaneous connections", w, T, acc[0])); }
            if (r.chance(60)) { W &w = *g_ws[r.below(T)]; int dn = 0, lim = 3 * (int)N + 20; // more outgoing connections than descriptors the worker can watch
                on_worker(w, [&](W &x) { for (int i = 0; i < lim; i++) { Out *o = x.dial(i % 9 ? g_sinkport : g_refused, false); if (o->fd < 0) dn++; } });
                VT_CHECK(dn > 0, "no-limit", "connections beyond the descriptor table are not refused"); count("outgoing_full");
                ni::wait_for([&]() { sinks(); for (auto &s : sinkbuf) if (s.first >= 0) { ni::pclose(s.first); s.first = -1; } LS l; for (auto o : S->outs) if (o->fd >= 0 && !o->notified) return false; return n_live() <= P.size(); }); }
            for (auto &p : P) { if (r.chance(30)) ni::reset_close(p.fd); else ni::pclose(p.fd); }
            if (!ni::wait_for([&]() { return n_live() == 0 && vt::open_fds() <= base_run; })) fail("left-over", fmt("%zu sessions, %d descriptors too many after all peers have gone", n_live(), vt::open_fds() - base_run));
            { LS l; S->byport.clear(); }
        }
        dialed -= refused; P.clear(); count("floods");
        VT_CHECK(acc[0] == acc[1], "capacity-lost", fmt("%d clients accepted in the first round, %d in the second", acc[0], acc[1]));
    } else {
        int n = 10 + (int)r.below(70);
        for (int i = 0; i < n; i++) {
            int op = (int)r.below(100); h = h * 13 + op / 4;
            if (P.empty() || (op < 22 && P.size() < 30)) { if (!join()) return; if (r.chance(50)) { for (int k = (int)r.below(5); k > 0; k--) if (!join()) return; } log += " join"; continue; }
            size_t k = r.below(P.size()); Peer &p = P[k];
            if (op < 55) { // requests, some of them closing, several in one segment, a few cut
                if (p.ends || p.eof) continue;
                std::string q; int m = 1 + (int)r.below(5);
                for (int j = 0; j < m && !p.ends; j++) {
                    static const int OPS[] = {ECHO, ECHO, ECHO, ECHO, SPLIT, SPLIT, EMPTY_ECHO, BIG, BIG, BIG_CLOSE, CLOSE_MORE, ECHO_CLOSE, CLOSE_NOW, CLOSE_TWICE, CLOSE_DIAL, NOOP, NOOP};
                    int o = OPS[r.below(r.chance(70) ? 10 : 17)]; int arg = (int)r.below(1 << 15); if (o == BIG || o == BIG_CLOSE || o == CLOSE_MORE) arg = (int)(r.chance(50) ? r.below(5000) : r.below(120000)); if (o == CLOSE_MORE) arg = 30000 + (int)r.below(110000);
                    std::string a = request(p, o, arg, r.alnum(r.chance(10) ? r.below(2500) : r.below(40))); q += a; log += fmt(" op%d", o);
                    switch (o) { case ECHO: case SPLIT: case EMPTY_ECHO: p.expect += a; break; case ECHO_CLOSE: p.expect += a; p.ends = true; break; case BIG: p.expect += pattern(p.tag * 1000 + p.seq - 1, arg); break;
                        case BIG_CLOSE: p.expect += pattern(p.tag * 1000 + p.seq - 1, arg); p.ends = true; break; case CLOSE_MORE: p.expect += pattern(p.tag * 1000 + p.seq - 1, arg); p.expect += tail(p.tag); p.more = tail(p.tag).size(); p.ends = true; break; case CLOSE_NOW: case CLOSE_TWICE: case CLOSE_DIAL: p.ends = p.wild = true; break; default: break; }
                }
                if (p.ends && r.chance(50)) { q += request(p, ECHO, 0, "too late"); p.wild = true; } // unread data may turn the close into a reset
                if (r.chance(30) && q.size() > 2) { size_t c = 1 + r.below(q.size() - 1); ni::send_all(p.fd, q.substr(0, c)); sleep_us(r.below(400)); ni::send_all(p.fd, q.substr(c)); }
                else ni::send_all(p.fd, q);
                count("requests", m);
            } else if (op < 60 && P.size() > 1) { size_t o = r.below(P.size()); if (o != k && !p.ends) { P[o].disturbed = true; ni::send_all(p.fd, request(p, CLOSE_OTHER, P[o].tag, "")); log += " kill"; } }
            else if (op < 68) { // peer goes
                if (r.chance(25) && !p.ends) { std::string a = request(p, ECHO, 0, "bye"); ni::send_all(p.fd, a); }
                if (r.chance(15) && !p.ends) { std::string t = request(p, ECHO, 0, "partial"); ni::send_all(p.fd, t.substr(0, r.below(t.size()))); }
                if (r.chance(35)) ni::reset_close(p.fd); else ni::pclose(p.fd);
                P.erase(P.begin() + k); log += " leave"; count("left");
            } else if (op < 76) { // outgoing connections of a worker
                int which = (int)r.below(5); bool early = r.chance(20); int port = which < 3 ? g_sinkport : which == 3 ? g_refused : g_stuckport;
                if (port == g_stuckport && ni::cfg().connect_now) port = g_sinkport;
                W &w = *g_ws[r.below(T)];
                if (!on_worker(w, [port, early](W &x) { x.dial(port, early); })) fail("loop", "a worker does not react");
                log += fmt(" dial%d", which);
            } else if (op < 84) { // dead sessions stay dead
                W &w = *g_ws[r.below(T)]; StSession s; bool have; { cl::Monitor::L l(&w.M); have = !w.M.stale.empty(); if (have) s = w.M.stale[r.below(w.M.stale.size())]; }
                bool wr = r.chance(50), cl = r.chance(50);
                if (have) { on_worker(w, [&](W &x) { // a close that still waits for data may be pending: then a write fails or is appended, close is allowed
                        bool pend; { cl::Monitor::L l(&x.M); pend = x.M.ending.count(s.iFd) > 0; } if (pend) return;
                        if (wr) { if (x.write(s, "stale", 5, cl) == 0) fail("stale-write", "write accepted for a session that was closed"); } else x.close(s); count("stale_uses"); }); log += " stale"; }
            } else if (op < 88 && !fails && T > 1) { // one worker is busy: the others serve
                int wi = (int)r.below(T); std::atomic<int> go(0), in(0);
                WCall *c = new WCall; c->f = [&](W &) { in = 1; for (int j = 0; j < 1000000 && !go; j++) sleep_us(20); };
                if (g_ws[wi]->sendMessage(1, c) == 0) {
                    ni::wait_for([&]() { return in.load() == 1; });
                    for (auto &q : P) { int ow; { LS l; ow = S->tagw.count(q.tag) ? S->tagw[q.tag] : -1; } if (ow < 0 || ow == wi || q.ends || q.disturbed || q.eof) continue; bool wf; 
                        bool ok = echo_ok(q); { LS l; wf = S->wfail.count(q.tag) > 0; } if (!wf && !q.disturbed) VT_CHECK(ok, "worker-blocks-others", "a peer of an idle worker is not served while another worker is busy"); count("served_beside_busy"); break; }
                    go = 1; ni::wait_for([&]() { return c->done.load() == 1; });
                }
                delete c; log += " busy";
            } else if (op < 90) { for (auto w : g_ws) w->close_in_connect = 1; for (auto &q : P) q.disturbed = true; log += " closeinconnect"; if (!join()) return; P.back().disturbed = true; sleep_us(300); ni::wait_for([&]() { return accepted() >= dialed; }, 2000); for (auto w : g_ws) w->close_in_connect = 0; }
            else if (op < 91 && !fails) { // the service speaks first: what is written inside of the connect notification arrives by itself
                if (!ni::wait_for([&]() { return accepted() >= dialed; }, 2000)) continue;
                int g = 1 + (int)(r.chance(50) ? r.below(300) : r.below(60000)); for (auto w : g_ws) w->greet = g;
                if (!join()) return; Peer &z = P.back(); z.expect += pattern(g, g); log += " greet"; uint64_t end = now_us() + 20000000;
                while (z.got < z.expect.size() && !z.eof && now_us() < end) if (!drain(z, 20)) return;
                for (auto w : g_ws) w->greet = 0;
                VT_CHECK(z.got == z.expect.size(), "greeting-stuck", fmt("%zu of %d bytes written at connect arrived although the peer reads", z.got, g)); count("greeted"); }
            else if (op < 92) { for (auto w : g_ws) w->redial = (int)r.below(4); log += " redial"; }
            else if (op < 94 && slow < 2 && !fails) { // a peer that never reads holds up nobody
                slow++; if (!join()) return; Peer &z = P.back(); z.disturbed = z.wild = z.ends = z.mute = true; int last = 0; bool done = false; log += " slow";
                for (int j = 0; j < 150 && !done; j++) { last = z.seq; if (!ni::send_all(z.fd, request(z, BIG, 120000, ""))) break;
                    if (!ni::wait_for([&]() { LS l; done = S->wfail.count(z.tag) > 0; return done || S->lastseq[z.tag] == last + 1; }, 8000)) { fail("slow-peer-blocks", "a worker hangs while a peer does not read"); die_now(); } }
                if (done) count("slow_refused"); int ow; { LS l; ow = S->tagw.count(z.tag) ? S->tagw[z.tag] : -1; }
                for (auto &q : P) { int o2; { LS l; o2 = S->tagw.count(q.tag) ? S->tagw[q.tag] : -1; } if (o2 != ow || q.ends || q.disturbed || q.eof || fails) continue;
                    bool ok = echo_ok(q), wf; { LS l; wf = S->wfail.count(q.tag) > 0; } if (!wf) VT_CHECK(ok, "slow-peer-starves", "a peer is not served while another one of its worker does not read"); count("served_beside_slow"); break; }
                if (r.chance(50)) { ni::reset_close(P.back().fd); P.pop_back(); }
            }
            else if (op < 96) { for (auto &q : P) if (r.chance(50) && !q.eof) drain(q, 0); sinks(); }
            else sleep_us(r.below(1000));
            if (r.chance(15)) sleep_us(r.below(500));
        }
    }
    cur_append(log + "\n");
    for (size_t i = 0; i < snd.size(); i++) pthread_join(snd[i], 0);
    bool abrupt = !flood && r.chance(25);
    if (!abrupt) {
        for (auto &p : P) { // every undisturbed peer gets exactly its answers
            bool wf; { LS l; wf = S->wfail.count(p.tag) > 0; }
            uint64_t end = now_us() + 30000000;
            bool half = !p.ends && r.chance(30);
            if (half && !p.eof) ni::AsHarness(), ::shutdown(p.fd, SHUT_WR); // answers still come?  (the service closes on the end of the stream: only what was sent before)
            while (!p.eof && p.got < p.expect.size() && now_us() < end) { sinks(); if (!drain(p, 20)) break; LS l; if (S->wfail.count(p.tag)) wf = true; }
            { LS l; wf = wf || S->wfail.count(p.tag) > 0; }
            if (p.ends) while (!p.eof && now_us() < end) if (!drain(p, 50)) break;
            { LS l; if (!p.disturbed && !fails && !half && !p.wild && S->bad.count(p.tag)) fail("refused", "a write to a working connection with room in its buffer was refused"); }
            if (!p.disturbed && !fails && !wf && !half) {
                size_t want = p.expect.size() - p.more; if (p.more) ni::wait_for([&]() { LS l; return S->more.count(p.tag) > 0; }); { LS l; if (S->more.count(p.tag)) want += S->more[p.tag]; }
                VT_CHECK(p.got == want || (p.wild && p.eof), p.eof ? "cut-off" : "unanswered", fmt("peer %d got %zu of %zu bytes, end of stream %d; %s", p.tag, p.got, want, p.eof, log.c_str()));
                VT_CHECK(p.eof == p.ends, p.ends ? "not-closed" : "closed", fmt("peer %d: connection closed %d, asked for %d", p.tag, p.eof, p.ends));
                count("peers_checked"); }
            if (r.chance(30)) ni::reset_close(p.fd); else ni::pclose(p.fd);
        }
        P.clear();
        ni::cfg().epoll_add_fail = 0; ni::cfg().accept_fail = 0;
        VT_CHECK(ni::wait_for([&]() { return accepted() >= dialed; }), "not-accepted", fmt("%llu connections made, %llu announced", (unsigned long long)dialed, (unsigned long long)accepted()));
        bool quiet = false; uint64_t end = now_us() + 30000000;
        while (!quiet && now_us() < end) {
            sinks(); for (auto &s : sinkbuf) if (s.first >= 0 && r.chance(20)) { ni::pclose(s.first); s.first = -1; }
            for (auto w : g_ws) on_worker(*w, [](W &x) { LS l; for (auto o : S->outs) if (o->w == &x && o->port == g_stuckport && !o->notified && o->fd >= 0 && !o->closed_early) { o->closed_early = true; StSession s; s.iFd = o->fd; s.iSvrId = x.cli; x.close(s); } });
            bool pend = false; { LS l; for (auto o : S->outs) if (o->fd >= 0 && !o->notified && !o->closed_early) pend = true; }
            quiet = !pend && n_live() == 0 && vt::open_fds() <= base_run;
            if (!quiet) sleep_us(500);
        }
        if (!quiet) { fail(n_live() ? "sessions-left" : "fd-or-connect-left", fmt("after all peers have gone: %zu sessions, %d descriptors more than before; %s", n_live(), vt::open_fds() - base_run, log.c_str())); die_now(); }
        VT_CHECK(accepted() == dialed, "accepted-twice", fmt("%llu connections made, %llu announced", (unsigned long long)dialed, (unsigned long long)accepted()));
        uint64_t posted = 0; for (auto s : snds) for (auto q : s->seq) posted += q;
        VT_CHECK(ni::wait_for([&]() { return S->n_msgs >= posted; }), "message-lost", fmt("%llu messages posted, %llu delivered", (unsigned long long)posted, (unsigned long long)S->n_msgs)); count("messages", posted);
        for (auto w : g_ws) { int t = w->timers; if (t < 2000) VT_CHECK(ni::wait_for([&]() { return w->timers > t; }), "timer", "the timer of a worker does not fire any more"); }
    } else count("abrupt_stops");
    if (abrupt && r.chance(50)) { W *w = g_ws[0]; Mgr *m = mgr; on_worker(*w, [m](W &) { m->stop(); }); count("stopped_by_handler"); } else mgr->stop();
    { std::atomic<int> joined(0); struct A { pthread_t t; std::atomic<int> *j; } a = {loop, &joined}; pthread_t jt; __real_pthread_create(&jt, 0, [](void *p) -> void * { A *a = (A *)p; pthread_join(a->t, 0); *a->j = 1; return 0; }, &a);
      if (!ni::wait_for([&]() { return joined.load() == 1; }, 15000)) { fail("stop", "the service does not end after stop"); die_now(); } pthread_join(jt, 0); }
    ni::calm(); g_stopped = 1;
    uint64_t ns = 0;
    for (auto w : g_ws) { if (!abrupt) { Mon &M = w->M; cl::Monitor::L l(&M);
        for (auto &cp : M.all) { cl::Conn &c = *cp; if (!c.ok) continue; int ends = c.closes + c.errors; ns++;
            VT_CHECK(c.app_closed ? ends == 0 : ends == 1, c.app_closed ? "notified-after-close" : "ends", fmt("session ended with %d close and %d error notifications (closed by the application: %d); %s", c.closes, c.errors, c.app_closed, log.c_str())); } }
        w->M.report("life:"); count("timers", w->timers); if (w->inits != 1) fail("init-once", "worker initialised more than once"); }
    count("sessions", ns);
    delete mgr; g_ws.clear();
    if (abrupt) for (auto &p : P) { std::string x; while (!p.eof) { uint64_t g = p.got; if (!drain(p, 5000)) break; if (!p.eof && p.got == g) { fail("open-after-stop", "a connection stays open after the service is gone"); break; } } ni::pclose(p.fd); }
    for (auto &s : sinkbuf) if (s.first >= 0) ni::pclose(s.first);
    while (ni::readable(g_sink, 0)) { ni::AsHarness ah; int s = ::accept(g_sink, 0, 0); if (s < 0) break; ::close(s); }
    VT_CHECK(vt::open_fds() == base, "fd-left", fmt("%d descriptors, %d before the server:%s", vt::open_fds(), base, fd_diff(base_list, fd_list()).c_str()));
    VT_CHECK(ni::cfg().n_bad_close == 0, "double-close", fmt("%d closes of descriptors that were not open", (int)ni::cfg().n_bad_close)); ni::cfg().n_bad_close = 0;
    VT_CHECK(ni::cfg().n_foreign_close == 0, "foreign-close", "the library closed a descriptor it does not own"); ni::cfg().n_foreign_close = 0;
    for (auto o : S->outs) { if (o->ok && !abrupt) count("dial_ok"); else count("dial_other"); delete o; }
    for (auto s : snds) delete s;
    std::set<int> owners; for (auto &t : S->tagw) owners.insert(t.second); count("workers_used", owners.size());
    delete S; S = 0; si::end();
    distinct("history", fnv(log)); if (r.chance(5)) sample(log); (void)h;
}
int main(int argc, char **argv) {
    init(argc, argv); ni::harness_thread() = 0;
    struct rlimit rl; getrlimit(RLIMIT_NOFILE, &rl); rl.rlim_cur = std::min<rlim_t>(rl.rlim_max, 8192); setrlimit(RLIMIT_NOFILE, &rl);
    Rng r = case_rng(7777);
    g_sinkport = ni::free_port(r.next()); g_sink = listener(g_sinkport, 4000);
    g_refused = ni::free_port(r.next()); { ni::AsHarness h; int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); sockaddr_in a = ni::addr(ni::my_ip(), g_refused); if (bind(fd, (sockaddr *)&a, sizeof a)) _exit(9); hi(fd); } // taken, but nobody listens
    g_stuckport = ni::free_port(r.next()); g_stuck = listener(g_stuckport, 0);
    for (int i = 0; i < 3; i++) { ni::AsHarness h; int fd = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0); sockaddr_in a = ni::addr(ni::my_ip(), g_stuckport); ::connect(fd, (sockaddr *)&a, sizeof a); hi(fd); }
    cases(one);
    ni::count_injected(); si::report();
    return done();
}
