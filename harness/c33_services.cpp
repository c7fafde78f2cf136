// C33: services come and go while the manager runs, and nothing of a removed one remains.
#include "commloop.h"
#include "memwatch.h"
#include <sys/resource.h>
#include <limits.h>
using namespace vt;
using namespace lce;

static int hi(int fd) { ni::AsHarness h; if (fd < 0) return fd; int n = fcntl(fd, F_DUPFD_CLOEXEC, 1500); ni::disown(fd); ::close(fd); ni::own(n); return n; }
static int listener(int port, int backlog) { ni::AsHarness h; int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); sockaddr_in a = ni::addr(ni::my_ip(), port); int on = 1; setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &on, sizeof on); if (bind(fd, (sockaddr *)&a, sizeof a) || listen(fd, backlog)) _exit(9); return hi(fd); }
static std::string frame(int kind, const std::string &s) { // kind: PKG_TYPE
    if (kind == PKG_H2ST3) { size_t t = s.size() + 4; std::string r(1, 2); r += (char)(t >> 8); r += (char)t; return r + s + (char)3; }
    if (kind == PKG_H2LT3) { uint32_t t = htonl((uint32_t)s.size() + 6); std::string r(1, 2); r.append((char *)&t, 4); return r + s + (char)3; }
    if (kind == PKG_EXT) return s + "\n";
    return s;
}
static std::string unframe(int kind, const char *p, int n) {
    if (kind == PKG_H2ST3) return n < 4 ? "" : std::string(p + 3, n - 4);
    if (kind == PKG_H2LT3) return n < 6 ? "" : std::string(p + 5, n - 6);
    if (kind == PKG_EXT) return n < 1 ? "" : std::string(p, n - 1);
    return std::string(p, n);
}
struct Lines : CPackageFilter { // a framing of the application
    int isWholePkg(const char *p, const int n, int &real, int &len) { const char *e = n > 0 ? (const char *)memchr(p, '\n', n) : 0; if (!e) return n > 3000 ? -2 : -1; len = (int)(e - p) + 1; real = len - 1; return 0; }
    const char *getRealPkgData(const char *p, const int) { return p; }
};

struct Svc;
static std::map<int, Svc *> by_id; static std::set<int> ever; static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
struct Lk { Lk() { pthread_mutex_lock(&mu); } ~Lk() { pthread_mutex_unlock(&mu); } };
static int g_sinkport, g_sink, g_stuckport; static std::atomic<uint64_t> g_max, g_removed_inside;
static void remove(Svc *s, const char *where); static Svc *create(uint64_t r, int port, int type);
struct Svc : CProcessor {
    int id, type, kind, port; bool alive, bare; Lines lines; std::map<int, StSession> live; std::set<int> ending; // by descriptor
    int arm_connect, arm_close, arm_error; // remove the service from inside the next such callback
    uint64_t packets, connects, ends; bool recreate; uint64_t rr; std::map<std::string, int> pending_dials; int dial_ok, dial_bad; std::vector<std::pair<std::string, sockaddr_in> > grams;
    Svc() : id(-1), type(0), kind(0), port(0), alive(true), bare(false), arm_connect(0), arm_close(0), arm_error(0), packets(0), connects(0), ends(0), recreate(false), rr(1), dial_ok(0), dial_bad(0) {}
    bool ok(const char *what, StSession &s) {
        Lk l;
        if (!alive) { fail("removed/notified", fmt("%s notification of service %d after it was removed", what, id)); return false; }
        if (s.iSvrId != id) { fail("foreign", fmt("%s notification for service %d went to the handler of service %d", what, s.iSvrId, id)); return false; }
        return true;
    }
    void onConnect(StSession &s, bool good, void *) {
        if (!ok("connect", s)) return;
        { Lk l; if (type == CONN_TCP) { if (good) dial_ok++; else dial_bad++; } if (good) { if (live.count(s.iFd)) fail("life/connect-on-live", "connect notification for a descriptor in use"); live[s.iFd] = s; ending.erase(s.iFd); connects++; } }
        if (arm_connect && --arm_connect == 0) { remove(this, "onConnect"); return; }
    }
    void onRead(StSession &s, const char *p, const int n) {
        if (!ok("read", s)) return;
        std::string b = unframe(kind, p, n);
        if (type == SRV_UDP) { cl::mgr().writeTo(id, inet_ntoa(s.stClientAddr.sin_addr), ntohs(s.stClientAddr.sin_port), p, n); }
        else { Lk l; if (!live.count(s.iFd)) { fail("life/read-on-dead", "data on a session that is not open"); return; } packets++; }
        { Lk l; if (ending.count(s.iFd)) return; }
        if (b.compare(0, 3, "RM ") == 0) { // remove a service (this one or another) in the middle of a packet
            int t = atoi(b.c_str() + 3); Svc *v = 0; { Lk l; std::map<int, Svc *>::iterator i = by_id.find(t); if (i != by_id.end()) v = i->second; }
            bool self = v == this; int k = kind, pt = port, ty = type; uint64_t r2 = rr; bool again = recreate;
            if (v) remove(v, self ? "onRead of its own" : "onRead of another");
            if (self && again && ty != CONN_TCP) { Svc *w = create(r2, pt, ty); (void)k; if (w) count("recreated_inside"); }
            if (self) return;
        }
        if (type != SRV_UDP) { bool cls = b.compare(0, 3, "BYE") == 0; if (b.compare(0, 3, "BIG") == 0) { std::string big(250000, 'b'); cl::mgr().write(s, big.data(), (int)big.size(), false); } else if (cl::mgr().write(s, p, n, cls) == 0 && cls) { Lk l; live.erase(s.iFd); ending.insert(s.iFd); } }
    }
    void onClose(StSession &s) {
        if (!ok("close", s)) return;
        { Lk l; if (!live.erase(s.iFd) && !ending.erase(s.iFd)) fail("life/close-on-dead", "close notification for a session that is not open"); ends++; }
        if (arm_close && --arm_close == 0) remove(this, "onClose");
    }
    void onError(StSession &s, const char *, int code) {
        if (!ok("error", s)) return;
        if (code == ERR_MAX_CLIENT) { g_max++; if (arm_error && --arm_error == 0) remove(this, "onError (limit)"); return; }
        if (s.iFd == 0 || code == ERR_NOT_READY || type == SRV_UDP) return;
        { Lk l; if (!live.erase(s.iFd) && !ending.erase(s.iFd)) fail("life/error-on-dead", fmt("error %d for a session that is not open", code)); ends++; }
        if (arm_error && --arm_error == 0) remove(this, "onError");
    }
    void onTimer(int t, void *p) { Svc *v = (Svc *)p; bool a; { Lk l; a = v->alive; } if (a) remove(v, "onTimer"); (void)t; }
};
static std::vector<Svc *> retired; static std::vector<StSession> stale;
// on the loop thread
static void remove(Svc *s, const char *where) {
    { Lk l; if (!s->alive) return; s->alive = false; by_id.erase(s->id); for (std::map<int, StSession>::iterator i = s->live.begin(); i != s->live.end(); ++i) if (stale.size() < 300) stale.push_back(i->second); retired.push_back(s); }
    cur_append(fmt("remove %d (%s)\n", s->id, where));
    int rc = cl::mgr().rmSrv(s->id);
    VT_CHECK(rc == 0, "remove/refused", fmt("service %d cannot be removed: %s", s->id, cl::mgr().getErrMsg()));
    VT_CHECK(cl::mgr().rmSrv(s->id) != 0, "remove/twice", "a service was removed twice");
    VT_CHECK(cl::mgr().setProcessor(s->id, s, PKG_RAW) != 0, "removed/used", "setProcessor accepted for a removed service");
    VT_CHECK(cl::mgr().setPkgFilter(s->id, &s->lines) != 0, "removed/used", "setPkgFilter accepted for a removed service");
    VT_CHECK(cl::mgr().writeTo(s->id, ni::my_ip(), 9, "x", 1) != 0, "removed/used", "writeTo accepted for a removed service");
    VT_CHECK(cl::mgr().connect(s->id, ni::my_ip(), g_sinkport) < 0, "removed/used", "connect accepted for a removed service");
    count("removed"); count(std::string("removed_") + where);
    if (strcmp(where, "message")) g_removed_inside++;
}
static Svc *create(uint64_t r, int port, int type) {
    Rng q(r); Svc *s = new Svc; s->type = type; s->rr = q.next();
    int id; static const int K[] = {PKG_H2ST3, PKG_H2LT3, PKG_RAW, PKG_EXT};
    s->kind = K[q.below(4)];
    if (type == SRV_UDP && s->kind == PKG_EXT) s->kind = PKG_RAW;
    if (type == CONN_TCP) id = cl::mgr().createClient(128, 4096, 1000, 300000);
    else { id = -1; for (int i = 0; i < 200 && id < 0; i++) { if (i || !port) port = 10000 + (int)((q.next()) % 22000); id = cl::mgr().createSrv(type, ni::my_ip(), port, 128, 4096, 1000, 300000); } }
    if (id < 0) { fail("create/failed", fmt("service cannot be created: %s", cl::mgr().getErrMsg())); delete s; return 0; }
    s->id = id; s->port = port;
    { Lk l; if (!ever.insert(id).second) fail("create/id-reused", fmt("id %d given twice", id)); by_id[id] = s; }
    int rc = 0;
    if (q.chance(10) && type == SRV_TCP) { s->bare = true; } // left without a processor: clients are dropped, nothing else
    else {
        int n = q.chance(20) ? 2 : 1; // configured again: the last one counts
        for (int i = 0; i < n; i++) rc |= cl::mgr().setProcessor(id, s, i == n - 1 ? s->kind : (int)q.below(7));
        if (s->kind == PKG_EXT) rc |= cl::mgr().setPkgFilter(id, &s->lines);
    }
    VT_CHECK(rc == 0, "configure", fmt("service %d cannot be configured: %s", id, cl::mgr().getErrMsg()));
    count("created");
    return s;
}
struct Peer { int fd; Svc *s; int lport; bool closing, gone; uint64_t id; };
static int baseline; static const uint32_t N = 100;
static Svc *pick(Rng &r, int type) { Lk l; std::vector<Svc *> v; for (std::map<int, Svc *>::iterator i = by_id.begin(); i != by_id.end(); ++i) if (type == 0 || i->second->type == type) v.push_back(i->second); return v.empty() ? 0 : v[r.below(v.size())]; }
static bool alive(Svc *s) { Lk l; return s->alive; }
static void one(Rng &r, uint64_t idx) {
    ni::cfg().seed = r.next(); ni::cfg().recv_max = r.chance(30) ? 5 : 0; ni::cfg().recv_again = r.chance(30) ? 20 : 0; ni::cfg().connect_now = r.chance(20) ? 60 : 0; ni::cfg().send_max = r.chance(20) ? 300 : 0;
    std::vector<Peer> P; std::vector<int> sink; std::string log; uint64_t h = 0; bool quick_dial = ni::cfg().connect_now;
    auto loop = [&](std::function<void()> f) { if (!cl::on_loop(f)) { fail("loop", "the event loop does not react"); die_now(); } };
    auto echo = [&](Peer &p) -> bool { std::string q = frame(p.s->kind, "echo" + r.alnum(1 + r.below(60))), x; if (!ni::send_all(p.fd, q)) return false; return ni::recv_n(p.fd, x, q.size(), 20000) == 1 && x == q; };
    auto udp_echo = [&](Svc *s) -> bool {
        ni::AsHarness ah; int fd = socket(AF_INET, SOCK_DGRAM | SOCK_CLOEXEC, 0); sockaddr_in a = ni::addr(ni::my_ip(), s->port); std::string q = frame(s->kind, "gram" + r.alnum(r.below(50))), x; bool good = false;
        if (::connect(fd, (sockaddr *)&a, sizeof a) == 0) for (int i = 0; i < 3 && !good; i++) { if (::send(fd, q.data(), q.size(), 0) < 0) break; if (ni::recv_some(fd, x, 65536, 6000) > 0) { good = x == q; break; } }
        ::close(fd); return good; };
    loop([&]() { create(r.next(), 0, SRV_TCP); create(r.next(), 0, SRV_TCP); create(r.next(), 0, SRV_UDP); create(r.next(), 0, CONN_TCP); });
    int n = 8 + (int)r.below(40);
    for (int i = 0; i < n; i++) {
        int op = (int)r.below(100); h = h * 13 + op / 3; char lb[40];
        snprintf(lb, sizeof lb, "op%d", op); cur_append(std::string(lb) + "\n"); log += std::string(" ") + lb;
        if (op < 12) { int t = (int)(1 + r.below(3)); size_t cnt; { Lk l; cnt = by_id.size(); } if (cnt < 8) loop([&]() { create(r.next(), 0, t); }); }
        else if (op < 34) { // a client comes
            Svc *s = pick(r, SRV_TCP); if (!s || P.size() > 25) continue;
            Peer p; p.s = s; p.closing = p.gone = false; p.fd = hi(ni::dial(s->port)); p.id = 0;
            if (p.fd < 0) { fail("service/refuses", fmt("cannot connect to service %d", s->id)); continue; }
            p.lport = cl::local_port(p.fd);
            if (s->bare) { ni::send_all(p.fd, "nobody listens"); std::string x; int st = ni::recv_eof(p.fd, x, 20000); VT_CHECK((st == 0 || st == -2) && x.empty(), "bare/served", "a service without processor does not drop its client"); ni::pclose(p.fd); count("bare_dropped"); continue; }
            P.push_back(p); count("joined");
        } else if (op < 50 && !P.empty()) { // a request
            Peer &p = P[r.below(P.size())]; if (p.gone || p.closing || !alive(p.s)) continue;
            if (r.chance(12)) { ni::send_all(p.fd, frame(p.s->kind, "BIG")); p.closing = true; count("unread_answers"); } // not read: bytes pending when the service goes
            else if (r.chance(12)) { ni::send_all(p.fd, frame(p.s->kind, "BYE")); p.closing = true; }
            else if (p.s->kind != PKG_RAW || !ni::cfg().recv_max) { bool g = echo(p); if (alive(p.s)) VT_CHECK(g, "service/answer", fmt("connection to service %d (framing %d) is not answered", p.s->id, p.s->kind)); count("answered"); }
        } else if (op < 58 && !P.empty()) { // a client goes, or misbehaves
            size_t k = r.below(P.size()); Peer &p = P[k]; if (p.gone) continue;
            if (r.chance(30) && (p.s->kind == PKG_H2ST3 || p.s->kind == PKG_H2LT3) && !p.closing) { ni::send_all(p.fd, "garbage...."); p.closing = true; }
            else if (r.chance(30) && !p.closing) { std::string t = frame(p.s->kind, "part"); ni::send_all(p.fd, t.substr(0, r.below(t.size()))); p.closing = true; }
            else { if (r.chance(35)) ni::reset_close(p.fd); else ni::pclose(p.fd); P.erase(P.begin() + k); }
        } else if (op < 66) { // outgoing connection
            Svc *s = pick(r, CONN_TCP); if (!s) continue; bool stuck = r.chance(35) && !quick_dial;
            loop([&]() { if (!s->alive) return; int fd = cl::mgr().connect(s->id, ni::my_ip(), stuck ? g_stuckport : g_sinkport); if (fd < 0 && !quick_dial) fail("dial", cl::mgr().getErrMsg()); count(stuck ? "dialed_silent" : "dialed"); });
            if (r.chance(50)) { ni::AsHarness ah; if (ni::readable(g_sink, 20)) { int k = ::accept(g_sink, 0, 0); if (k >= 0) { ni::own(k); sink.push_back(hi(k)); } } }
        } else if (op < 72) { // services that cannot be
            Svc *s = pick(r, SRV_TCP); int port = s ? s->port : 0; int before = vt::open_fds(); (void)before;
            loop([&]() {
                if (port && s->alive) VT_CHECK(cl::mgr().createSrv(SRV_TCP, ni::my_ip(), port) < 0, "create/occupied", "a second service was created on an occupied address");
                VT_CHECK(cl::mgr().createSrv(99, ni::my_ip(), 0) < 0, "create/type", "a service of no known type was created");
                VT_CHECK(cl::mgr().createSrv(r.chance(50) ? SRV_TCP : SRV_UDP, r.chance(50) ? "no.such.host" : "", 10000 + r.below(20000)) < 0, "create/address", "a service was created on a text that is no address");
                VT_CHECK(cl::mgr().createSrv(SRV_TCP, "8.8.8.8", 12345) < 0, "create/foreign-address", "a service was created on an address of another host");
                int bad = r.chance(50) ? -1 - (int)r.below(5) : r.chance(50) ? INT_MAX : (int)*ever.rbegin() + 1 + (int)r.below(3); Svc d;
                VT_CHECK(cl::mgr().setProcessor(bad, &d, PKG_RAW) != 0 && cl::mgr().setPkgFilter(bad, &d.lines) != 0 && cl::mgr().rmSrv(bad) != 0 && cl::mgr().connect(bad, ni::my_ip(), 9) < 0 && cl::mgr().writeTo(bad, ni::my_ip(), 9, "x", 1) != 0, "bad-id", fmt("id %d accepted", bad));
                if (s && s->alive) VT_CHECK(cl::mgr().setProcessor(s->id, NULL, PKG_RAW) != 0 && cl::mgr().setPkgFilter(s->id, NULL) != 0 && cl::mgr().connect(s->id, ni::my_ip(), 9) < 0, "bad-use", "missing handler or wrong kind of service accepted"); });
            count("impossible");
            if (r.chance(60)) { // a system call fails half way; the next service or connection uses the same descriptor
                int type = r.chance(60) ? SRV_TCP : SRV_UDP, how = r.chance(40) ? 4 : 1 + (int)r.below(type == SRV_TCP ? 3 : 2); Svc *o = pick(r, CONN_TCP), *w = 0; int f0 = vt::open_fds(), pt = 10000 + (int)r.below(22000);
                bool dial = o && r.chance(50); int made = -1;
                loop([&]() {
                    if (how == 4) ni::cfg().epoll_add_fail = 100; else ni::cfg().setup_fail = how;
                    if (dial) { if (how > 1) { ni::cfg().setup_fail = 0; ni::cfg().epoll_add_fail = 100; } VT_CHECK(!o->alive || cl::mgr().connect(o->id, ni::my_ip(), g_sinkport) < 0, "dial/failure-hidden", "connect() succeeds although the connection cannot be watched"); }
                    else VT_CHECK(cl::mgr().createSrv(type, ni::my_ip(), pt, 128, 4096, 1000, 300000) < 0, "create/failure-hidden", fmt("createSrv() succeeds although a call failed (%d)", how));
                    ni::cfg().epoll_add_fail = 0; ni::cfg().setup_fail = 0;
                    if (!dial && by_id.size() < 8) w = create(r.next(), pt, type);
                    else if (dial && o->alive) made = cl::mgr().connect(o->id, ni::my_ip(), g_sinkport);
                });
                count(dial ? "dial_broken" : "create_broken");
                (void)f0;
                if (w && !w->bare) {
                    if (w->type == SRV_UDP) { VT_CHECK(udp_echo(w), "create/after-failure", "a service made after one that failed does not answer datagrams"); count("served_after_failure"); }
                    else if (w->kind != PKG_RAW || !ni::cfg().recv_max) { Peer p; p.s = w; p.closing = p.gone = false; p.fd = hi(ni::dial(w->port)); p.id = 0; p.lport = 0; VT_CHECK(p.fd >= 0 && echo(p), "create/after-failure", "a service made after one that failed does not answer"); if (p.fd >= 0) ni::pclose(p.fd); count("served_after_failure"); }
                }
                if (dial && made >= 0 && !quick_dial) { int c0 = 0; VT_CHECK(ni::wait_for([&]() { Lk l; c0 = o->live.count(made); return c0 == 1 || !o->alive; }), "dial/after-failure", "a connection made after one that failed is never notified"); count("dialed_after_failure"); }
            }
        } else if (op < 90) { // a service goes
            Svc *s = pick(r, 0); if (!s) continue; int how = (int)r.below(9); bool again = r.chance(40); s->recreate = again;
            { size_t tcp = 0; Lk l; for (std::map<int, Svc *>::iterator k = by_id.begin(); k != by_id.end(); ++k) if (k->second->type == SRV_TCP) tcp++; if (tcp < 2 && s->type == SRV_TCP && r.chance(50)) continue; }
            Peer *via = 0; for (size_t k = 0; k < P.size(); k++) if (!P[k].gone && !P[k].closing && alive(P[k].s) && (how == 4 ? P[k].s != s : P[k].s == s)) { via = &P[k]; if (r.chance(50)) break; }
            bool done = false;
            if (how == 1 && s->type == SRV_TCP && !s->bare) { int m = 1 + (int)r.below(3); loop([&]() { if (s->alive) s->arm_connect = m; }); std::vector<int> f; std::atomic<int> go(0), in(0); // several connections in one turn of the loop
                cl::Call *c = new cl::Call; c->f = [&]() { in = 1; for (int j = 0; j < 20000 && !go; j++) sleep_us(20); }; cl::mgr().sendMessage(1, c); ni::wait_for([&]() { return in.load() == 1; });
                for (int k = 0; k < m + 2; k++) { int fd = hi(ni::dial(s->port)); if (fd >= 0) f.push_back(fd); }
                go = 1; ni::wait_for([&]() { return c->done.load() == 1; }); delete c;
                done = ni::wait_for([&]() { return !alive(s); }); VT_CHECK(done, "connect/lost", fmt("%d connections made, no %d connect notifications", m + 2, m));
                for (size_t k = 0; k < f.size(); k++) { std::string x; int st = ni::recv_eof(f[k], x, 20000); VT_CHECK(st == 0 || st == -2, "removed/connection-open", "a connection to a service removed while accepting stays open"); ni::pclose(f[k]); } }
            else if (how == 2 && via) { loop([&]() { s->arm_close = 1; }); ni::pclose(via->fd); via->gone = true; done = ni::wait_for([&]() { return !alive(s); }); VT_CHECK(done, "close/lost", "peer closed, no close notification"); }
            else if (how == 3 && via && s->type == SRV_TCP && (s->kind == PKG_H2ST3 || s->kind == PKG_H2LT3)) { loop([&]() { s->arm_error = 1; }); ni::send_all(via->fd, "garbage...."); via->closing = true; done = ni::wait_for([&]() { return !alive(s); }); VT_CHECK(done, "error/lost", "garbage sent, no error notification"); }
            else if ((how == 4 || how == 5) && via) { ni::send_all(via->fd, (how == 5 && r.chance(50) && via->s->kind != PKG_RAW ? frame(via->s->kind, "before") : std::string()) + frame(via->s->kind, fmt("RM %d", s->id)) + (via->s->kind != PKG_RAW ? frame(via->s->kind, "after") : ""));
                if (via->s->kind == PKG_RAW && (ni::cfg().recv_max)) { loop([&]() { remove(s, "message"); }); } via->closing = true; done = ni::wait_for([&]() { return !alive(s); }); VT_CHECK(done, "read/lost", "packet sent, not delivered"); }
            else if (how == 6) { int t = 500 + (int)r.below(1000); loop([&]() { if (s->alive) cl::mgr().addTimer(t, (uint32_t)r.below(3), s, s); }); done = ni::wait_for([&]() { return !alive(s); }); VT_CHECK(done, "timer/lost", "timer did not fire"); }
            else if (how == 7 && s->type == SRV_UDP) { ni::AsHarness ah; int fd = socket(AF_INET, SOCK_DGRAM | SOCK_CLOEXEC, 0); sockaddr_in a = ni::addr(ni::my_ip(), s->port); std::string q = frame(s->kind, fmt("RM %d", s->id)); for (int k = 0; k < 3; k++) ::sendto(fd, q.data(), q.size(), 0, (sockaddr *)&a, sizeof a); done = ni::wait_for([&]() { return !alive(s); }); ::close(fd); VT_CHECK(done, "udp/lost", "datagram not delivered"); }
            if (!done) loop([&]() { remove(s, "message"); if (again && s->type != CONN_TCP) create(s->rr, s->port, s->type); });
            loop([]() {}); // whatever the handler does after the removal is done
            // its connections end, its address is free
            int others = 0;
            for (size_t k = P.size(); k-- > 0;) if (P[k].s == s) { if (!P[k].gone) { std::string x; int st = ni::recv_eof(P[k].fd, x, 20000); VT_CHECK(st == 0 || st == -2, "removed/connection-open", fmt("service %d was removed, a connection of it stays open", s->id)); ni::pclose(P[k].fd); } P.erase(P.begin() + k); count("connections_ended"); }
            bool taken = false; { Lk l; for (std::map<int, Svc *>::iterator k = by_id.begin(); k != by_id.end(); ++k) if (k->second->port == s->port && k->second->type == s->type) taken = true; }
            if (s->type == SRV_TCP && !taken) { int fd = ni::dial(s->port); VT_CHECK(fd < 0, "removed/listens", fmt("service %d was removed, its port still accepts", s->id)); if (fd >= 0) ni::pclose(fd); count("refused_after"); }
            // the others serve on
            for (size_t k = 0; k < P.size() && others < 3; k++) if (!P[k].gone && !P[k].closing && alive(P[k].s) && !(P[k].s->kind == PKG_RAW && ni::cfg().recv_max)) { others++; VT_CHECK(echo(P[k]), "others/answer", fmt("after service %d was removed a connection to service %d is not answered", s->id, P[k].s->id)); count("others_served"); }
            if (r.chance(40)) { Svc *u = pick(r, SRV_UDP); if (u) { VT_CHECK(udp_echo(u), "others/datagram", fmt("service %d does not answer datagrams", u->id)); count("datagrams"); } }
        } else if (op < 95) { // sessions of removed services are dead
            StSession s; bool have; { Lk l; have = !stale.empty(); if (have) s = stale[r.below(stale.size())]; }
            if (have) { loop([&]() { if (r.chance(50)) VT_CHECK(cl::mgr().write(s, "stale", 5, r.chance(50)) != 0, "stale-write", "write accepted for a session of a removed service"); else cl::mgr().close(s); }); count("stale_uses"); }
        } else { Svc *u = pick(r, SRV_UDP); if (u) { VT_CHECK(udp_echo(u), "service/datagram", fmt("service %d does not answer datagrams", u->id)); count("datagrams"); } }
    }
    // all go, with their clients still there
    bool inside = r.chance(50);
    loop([&]() { std::vector<Svc *> v; { Lk l; for (std::map<int, Svc *>::iterator i = by_id.begin(); i != by_id.end(); ++i) v.push_back(i->second); } for (size_t i = 0; i < v.size(); i++) remove(v[inside ? v.size() - 1 - i : i], "message"); });
    ni::cfg().recv_again = 0;
    for (size_t k = 0; k < P.size(); k++) if (!P[k].gone) { std::string x; int st = ni::recv_eof(P[k].fd, x, 20000); VT_CHECK(st == 0 || st == -2, "removed/connection-open", "all services were removed, a connection stays open"); ni::pclose(P[k].fd); }
    for (size_t k = 0; k < sink.size(); k++) { std::string x; int st = ni::recv_eof(sink[k], x, 20000); VT_CHECK(st == 0 || st == -2, "removed/outgoing-open", "the service was removed, its outgoing connection stays open"); ni::pclose(sink[k]); count("outgoing_ended"); }
    while (ni::readable(g_sink, 0)) { ni::AsHarness ah; int s = ::accept(g_sink, 0, 0); if (s < 0) break; ::close(s); }
    if (!ni::wait_for([&]() { return vt::open_fds() <= baseline; })) fail("fd-leak", fmt("all services were removed: %d descriptors more than before", vt::open_fds() - baseline));
    VT_CHECK(vt::open_fds() >= baseline, "fd-lost", "descriptors disappeared");
    VT_CHECK(ni::cfg().n_bad_close == 0, "double-close", fmt("%d closes of descriptors that were not open", (int)ni::cfg().n_bad_close)); ni::cfg().n_bad_close = 0;
    VT_CHECK(ni::cfg().n_foreign_close == 0, "foreign-close", "the library closed a descriptor it does not own"); ni::cfg().n_foreign_close = 0;
    if (idx % 4 == 3) { // the full number of clients fits again
        Svc *s = 0; loop([&]() { do { if (s) remove(s, "message"); s = create(r.next(), 0, SRV_TCP); } while (s && s->bare); }); if (!s) return; uint64_t max0 = g_max; std::vector<int> f;
        for (uint32_t i = 0; i < N + 3; i++) { int fd = hi(ni::dial(s->port)); if (fd >= 0) f.push_back(fd); }
        bool all = ni::wait_for([&]() { Lk l; return s->connects + (g_max - max0) >= N + 3; });
        VT_CHECK(all && s->connects == N, "capacity", fmt("%llu clients accepted after services with clients were removed, limit %u", (unsigned long long)s->connects, N));
        if (r.chance(50)) { loop([&]() { s->arm_error = 1; }); for (int i = 0; i < 3; i++) { int fd = hi(ni::dial(s->port)); if (fd >= 0) f.push_back(fd); } VT_CHECK(ni::wait_for([&]() { return !alive(s); }), "limit/lost", "a client beyond the limit came, no notification"); }
        loop([&]() { remove(s, "message"); }); for (size_t i = 0; i < f.size(); i++) { std::string x; ni::recv_eof(f[i], x, 20000); ni::pclose(f[i]); } count("capacity_rounds");
        ni::wait_for([&]() { return vt::open_fds() <= baseline; });
    }
    { Lk l; for (size_t i = 0; i < retired.size(); i++) { retired[i]->live.clear(); } }
    loop([]() {}); { Lk l; for (size_t i = 0; i < retired.size(); i++) delete retired[i]; retired.clear(); stale.clear(); }
    distinct("history", fnv(log)); if (r.chance(3)) sample(log);
}
int main(int argc, char **argv) {
    init(argc, argv);
    struct rlimit rl; getrlimit(RLIMIT_NOFILE, &rl); rl.rlim_cur = std::min<rlim_t>(rl.rlim_max, 8192); setrlimit(RLIMIT_NOFILE, &rl);
    Rng r = case_rng(5555);
    mw::install();
    cl::mgr().init(N);
    g_sinkport = ni::free_port(r.next()); g_sink = listener(g_sinkport, 4000);
    g_stuckport = ni::free_port(r.next()); listener(g_stuckport, 0);
    for (int i = 0; i < 3; i++) { ni::AsHarness h; int fd = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0); sockaddr_in a = ni::addr(ni::my_ip(), g_stuckport); ::connect(fd, (sockaddr *)&a, sizeof a); hi(fd); }
    cl::Loop loop; loop.start(); cl::on_loop([]() {});
    baseline = vt::open_fds();
    int64_t blocks = 0; uint64_t made = 0;
    for (uint64_t i = 0; i < st().cases; i++) {
        if (st().only >= 0 && (uint64_t)st().only != i) continue;
        Rng q = case_rng(i); cur(fmt("seed=%llu shard=%d case=%llu\n", (unsigned long long)st().seed, st().shard, (unsigned long long)i));
        one(q, i); count("cases");
        { Lk l; int last = *ever.rbegin(); ever.clear(); ever.insert(last); }
        if (i == st().cases / 3) { blocks = mw::g_blocks; made = get_count("created"); }
    }
    if (st().cases >= 6 && st().only < 0) { int64_t grown = mw::g_blocks - blocks; uint64_t n = get_count("created") - made; if (getenv("VT_V")) fprintf(stderr, "grown %lld blocks in %llu services\n", (long long)grown, (unsigned long long)n); VT_CHECK(grown < 30 + (int64_t)n / 50, "leak", fmt("%lld blocks of memory more in use after %llu more services, none of which is left", (long long)grown, (unsigned long long)n)); count("leak_checks"); }
    ni::calm(); loop.stop(); ni::count_injected();
    return done();
}
