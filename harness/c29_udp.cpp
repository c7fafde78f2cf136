// C29: UDP services of the communication manager and the UDP connector.
#define NI_OWN_SOCKET
#include "commloop.h"
#include "CUdpConnector.h"
using namespace vt;
using namespace lce;
typedef std::string S;

static std::atomic<int> recvfrom_eintr(0), sendto_fail(0), socket_fail(0); static std::atomic<uint64_t> n_sendto_fail(0), n_recv_eintr(0), n_socket_fail(0), n_tcp_sendto(0);
extern "C" {
ssize_t recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *l) {
    static ssize_t (*f)(int, void *, size_t, int, struct sockaddr *, socklen_t *) = ni::real<ssize_t (*)(int, void *, size_t, int, struct sockaddr *, socklen_t *)>("recvfrom");
    if (!ni::harness_thread()) { ni::jit(); if (ni::pct(recvfrom_eintr)) { n_recv_eintr++; errno = EINTR; return -1; } }
    return f(fd, b, n, fl, a, l);
}
static __thread int t_sendto_failed;
ssize_t sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t l) {
    static ssize_t (*f)(int, const void *, size_t, int, const struct sockaddr *, socklen_t) = ni::real<ssize_t (*)(int, const void *, size_t, int, const struct sockaddr *, socklen_t)>("sendto");
    if (!ni::harness_thread()) { ni::jit(); if (ni::pct(sendto_fail)) { n_sendto_fail++; t_sendto_failed = 1; errno = ni::rnd(2) ? EAGAIN : ENOBUFS; return -1; } }
    return f(fd, b, n, fl, a, l);
}
int socket(int d, int t, int p) {
    static int (*f)(int, int, int) = ni::real<int (*)(int, int, int)>("socket");
    if (!ni::harness_thread() && ni::pct(socket_fail)) { n_socket_fail++; errno = EMFILE; return -1; }
    return f(d, t, p);
}
}
struct Addr { uint32_t ip; int port; bool operator==(const Addr &o) const { return ip == o.ip && port == o.port; } bool operator<(const Addr &o) const { return ip != o.ip ? ip < o.ip : port < o.port; } };
static S ipstr(uint32_t ip) { return fmt("%u.%u.%u.%u", ip >> 24, ip >> 16 & 255, ip >> 8 & 255, ip & 255); }
static S show_addr(const Addr &a) { return fmt("%s:%d", ipstr(a.ip).c_str(), a.port); }
// a peer under our control
struct Peer {
    int fd; Addr at;
    explicit Peer(uint32_t ip) { ni::AsHarness h; fd = ::socket(AF_INET, SOCK_DGRAM | SOCK_CLOEXEC, 0); ni::own(fd); int big = 1 << 21; setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &big, sizeof big); sockaddr_in a = ni::addr(ipstr(ip), 0); if (bind(fd, (sockaddr *)&a, sizeof a)) { perror("peer"); abort(); } socklen_t l = sizeof a; getsockname(fd, (sockaddr *)&a, &l); at.ip = ip; at.port = ntohs(a.sin_port); }
    ~Peer() { ni::pclose(fd); }
    bool send(const S &d, const Addr &to) { ni::AsHarness h; sockaddr_in a = ni::addr(ipstr(to.ip), to.port); Exact e(d); return ::sendto(fd, e.p, e.n, 0, (sockaddr *)&a, sizeof a) == (ssize_t)d.size(); }
    bool recv(S &d, Addr &from, int ms) { ni::AsHarness h; if (!ni::readable(fd, ms)) return false; d.resize(70000); sockaddr_in a; socklen_t l = sizeof a; ssize_t k = ::recvfrom(fd, &d[0], d.size(), MSG_DONTWAIT, (sockaddr *)&a, &l); if (k < 0) return false; d.resize(k); from.ip = ntohl(a.sin_addr.s_addr); from.port = ntohs(a.sin_port); return true; }
};
static uint32_t my_net() { return ntohl(inet_addr(ni::my_ip().c_str())); }
static const int WAIT = 20000;

// ---- service ---------------------------------------------------------------------------
enum Kind { K_RAW, K_SHORT, K_LONG, K_HTTP, K_NONE, K_N };
static const int PKG[] = {PKG_RAW, PKG_H2ST3, PKG_H2LT3, PKG_HTTP, PKG_EXT};
static S frame(int k, const S &pl) {
    S r; switch (k) {
    case K_SHORT: { size_t t = pl.size() + 4; r += (char)2; r += (char)(t >> 8); r += (char)t; return r + pl + (char)3; }
    case K_LONG: { size_t t = pl.size() + 6; r += (char)2; r += (char)(t >> 24); r += (char)(t >> 16); r += (char)(t >> 8); r += (char)t; return r + pl + (char)3; }
    case K_HTTP: return fmt("POST / HTTP/1.1\r\nContent-Length: %zu\r\n\r\n", pl.size()) + pl;
    default: return pl; }
}
struct Event { int srv; Addr from; S data; int err; bool vague; Event() : srv(0), err(0), vague(false) {} };
struct Sent { Addr to; S data; Addr from; };
static int g_tcp = -1, g_client = -1;
struct Service : CProcessor {
    int id, kind, port; uint32_t rmin, rmax; bool live;
    pthread_mutex_t mu; std::vector<Event> got; std::vector<Sent> sent; uint64_t salt; std::atomic<uint64_t> seen; std::vector<Addr> others; int mode; StSession last; bool throws;
    Service() : id(-1), live(false), salt(0), seen(0), mode(0), throws(false) { pthread_mutex_init(&mu, 0); }
    void put(StSession &s, const char *p, int n, int err) { Event e; e.srv = s.iSvrId; e.from.ip = s.getIp(); e.from.port = s.getPort(); e.err = err; if (p) e.data.assign(p, n); if (s.iSvrId != id) fail("service/wrong-service", fmt("event of server %d at the processor of %d", s.iSvrId, id)); if (p && (s.getStrIp() != ipstr(e.from.ip))) fail("service/address", "getStrIp differs from getIp"); pthread_mutex_lock(&mu); got.push_back(e); last = s; pthread_mutex_unlock(&mu); }
    static bool answer(int id, const Addr &to, const S &d) { Exact e(d); t_sendto_failed = 0; int r = cl::mgr().writeTo(id, ipstr(to.ip), to.port, e.p, (int)e.n); bool must_fail = t_sendto_failed || d.size() > 65507; VT_CHECK((r == 0) == !must_fail, r ? "write-failed" : "write-accepted", fmt("writeTo of %zu bytes to %s returned %d: %s", d.size(), show_addr(to).c_str(), r, cl::mgr().getErrMsg())); if (r) count("writes_refused"); return r == 0; }
    void say(const Addr &to, const S &d) { if (answer(id, to, d)) { Sent x; x.to = to; x.data = d; x.from.ip = my_net(); x.from.port = port; pthread_mutex_lock(&mu); sent.push_back(x); pthread_mutex_unlock(&mu); count("answers"); } }
    void onRead(StSession &s, const char *p, const int n) {
        S d(p, n); put(s, p, n, 0); Addr from; from.ip = s.getIp(); from.port = s.getPort(); uint64_t h = fnv(d) ^ salt; Rng r(h);
        if (r.chance(60)) say(from, d); // echo
        if (r.chance(20)) { int k = 1 + (int)r.below(4); for (int i = 0; i < k; i++) say(from, fmt("%d:", i) + r.bytes(r.edge(2000))); }
        if (r.chance(15) && !others.empty()) say(r.pick(others), "to a third " + r.bytes(r.below(300)));
        if (r.chance(3)) say(from, S(65507 + (r.chance(50) ? 0 : 1), 'x')); // the largest, and one that cannot be
        if (r.chance(4)) { // writing where it cannot go is refused
            VT_CHECK(cl::mgr().writeTo(g_tcp, ni::my_ip(), s.getPort(), "x", 1) != 0, "wrong-id", "a datagram through a TCP server was accepted"); VT_CHECK(cl::mgr().writeTo(g_client, ni::my_ip(), s.getPort(), "x", 1) != 0, "wrong-id", "a datagram through a TCP client was accepted"); VT_CHECK(cl::mgr().writeTo(-1 - (int)r.below(3), ni::my_ip(), s.getPort(), "x", 1) != 0 && cl::mgr().writeTo(1000000, ni::my_ip(), s.getPort(), "x", 1) != 0, "wrong-id", "a datagram through no server was accepted");
            VT_CHECK(cl::mgr().write(s, "x", 1, r.chance(50)) != 0, "udp-session-write", "a stream write on a datagram session was accepted"); cl::mgr().close(s); count("wrong_targets"); }
        seen++;
    }
    void onError(StSession &s, const char *m, int code) { VT_CHECK(m && *m, "no-message", "an error without a text"); put(s, 0, 0, code); seen++; }
    void onClose(StSession &s) { fail("service/close", "close notification for a datagram service"); }
};
static Service *g_s[K_N * 3]; static int g_ns = 0;
static void add_service(Service *s, uint64_t r) { s->port = ni::free_port(r, SOCK_DGRAM); s->id = cl::mgr().createSrv(SRV_UDP, ni::my_ip(), s->port, s->rmin, s->rmax, 1024, 4096); if (s->id < 0) { fail("service/create", S("cannot create a UDP server: ") + cl::mgr().getErrMsg()); return; } if (cl::mgr().setProcessor(s->id, s, PKG[s->kind]) != 0) fail("service/create", cl::mgr().getErrMsg()); s->live = true; }
static cl::Loop g_loop; static cl::Monitor g_tcp_mon;
static void setup(uint64_t seed) {
    Rng r(seed); cl::mgr().init(100); int tp; g_tcp = cl::make_srv(SRV_TCP, r.next(), tp, 100, 1000, 100, 1000); cl::mgr().setProcessor(g_tcp, &g_tcp_mon, PKG_RAW); g_client = cl::mgr().createClient();
    for (int k = 0; k < K_N; k++) for (int j = 0; j < 2; j++) { Service *s = new Service; s->kind = k; s->rmin = j ? 64 + (uint32_t)r.below(2000) : (uint32_t)r.below(40); s->rmax = j ? 70000 + (uint32_t)r.below(100000) : s->rmin + 300 + (uint32_t)r.below(3000); add_service(s, r.next()); g_s[g_ns++] = s; }
    g_loop.start();
}
static S hostile(Rng &r, int k) { // something that is no packet of this framing
    if (k == K_RAW || k == K_NONE) return r.bytes(1 + r.below(200));
    S p = frame(k, r.alnum(1 + r.below(200)));
    switch (r.below(3)) { case 0: p.resize(p.size() - 1 - r.below(p.size() - 1)); return p; case 1: if (k == K_HTTP) return "GET / HTTP/1.1\r\nContent-Length: x\r\n\r\n"; p[0] = 7; return p; default: if (k == K_HTTP) return r.alnum(1 + r.below(100)); p[p.size() - 1] = 9; return p; }
}
static void service(Rng &r, uint64_t) {
    ni::calm(); ni::cfg().seed = r.next(); if (r.chance(30)) ni::cfg().jitter = 10; sendto_fail = r.chance(25) ? 10 : 0;
    int np = 1 + (int)r.below(5); std::vector<Peer *> P; std::vector<CUdpConnector *> C; uint32_t net = my_net(); std::map<Addr, std::vector<Sent> > due; uint64_t h = 1; S log;
    for (int i = 0; i < np; i++) P.push_back(new Peer(r.chance(50) ? net : net ^ (uint32_t)(1 + r.below(200))));
    int rounds = 2 + (int)r.below(6);
    for (int round = 0; round < rounds; round++) {
        Service *s = g_s[r.below(g_ns)];
        if (r.chance(12)) { // the service goes away, with datagrams on their way, and comes back
            bool busy = r.chance(50); S last = frame(s->kind, "last words"); Addr old = {net, s->port}; bool ok = cl::on_loop([&]() { if (busy) P[0]->send(last, old); VT_CHECK(cl::mgr().rmSrv(s->id) == 0, "rmSrv", cl::mgr().getErrMsg()); VT_CHECK(cl::mgr().writeTo(s->id, "127.0.0.1", 9, "x", 1) != 0, "wrong-id", "a datagram through a removed server was accepted"); VT_CHECK(cl::mgr().rmSrv(s->id) != 0, "rmSrv", "removed twice"); add_service(s, r.next()); }); if (!ok) { fail("service/blocked", "the loop does not respond"); die_now(); }
            { pthread_mutex_lock(&s->mu); s->got.clear(); s->sent.clear(); pthread_mutex_unlock(&s->mu); } s->seen = 0; count("recreated"); log += " recreate"; if (!s->live) return;
        }
        s->salt = r.next(); s->others.clear(); for (size_t i = 0; i < P.size(); i++) s->others.push_back(P[i]->at); s->seen = 0; { pthread_mutex_lock(&s->mu); s->got.clear(); s->sent.clear(); pthread_mutex_unlock(&s->mu); }
        int n = 1 + (int)r.below(12); std::vector<Event> expect; size_t bytes = 0; Addr to = {net, s->port}; uint64_t need = 0; log += fmt(" k%d", s->kind);
        for (int i = 0; i < n; i++) {
            Event e; Peer *p = r.pick(P); e.from = p->at; S d; int what = (int)r.below(100);
            if (what < 70) { size_t room = (s->kind == K_SHORT ? 60000 : 65507) - 60, len = r.chance(8) ? room - r.below(300) : r.edge(r.chance(20) ? 9000 : 400); d = frame(s->kind, r.chance(50) ? r.bytes(len) : S(len, (char)r.next())); e.data = d; if (d.size() > s->rmax) e.err = ERR_NO_BUFFER; else if (s->kind == K_NONE) e.err = ERR_PKG_FILTER; if (d.empty()) e.err = -1; }
            else if (what < 78) { e.err = -1; count("empty"); }
            else if (what < 90) { d = hostile(r, s->kind); e.data = d; if (d.size() > s->rmax) e.err = ERR_NO_BUFFER; else if (s->kind == K_NONE) e.err = ERR_PKG_FILTER; else if (s->kind != K_RAW) e.err = ERR_INVALID_PACKAGE; count("hostile"); }
            else if (what < 96 && s->kind != K_NONE) { d = S(s->rmax + (uint32_t)r.range(-3, 5) > 65000 ? 65000 : s->rmax + (uint32_t)r.range(-3, 5), 'o'); if (s->kind != K_RAW) { S t = frame(s->kind, d); if (t.size() < 65000) d = t; else d = frame(s->kind, "o"); } e.data = d; if (d.size() > s->rmax) e.err = ERR_NO_BUFFER; }
            else if (s->kind != K_RAW && s->kind != K_NONE) { d = frame(s->kind, r.alnum(r.below(50))); e.data = d; d += r.chance(50) ? frame(s->kind, r.alnum(r.below(50))) : r.bytes(1 + r.below(20)); e.vague = true; if (d.size() > s->rmax) { e.vague = false; e.err = ERR_NO_BUFFER; } }
            else { d = frame(s->kind, "plain"); e.data = d; if (s->kind == K_NONE) e.err = ERR_PKG_FILTER; }
            if (bytes && bytes + d.size() > 90000) continue; // what the kernel holds for a service is limited
            bytes += d.size() + 1000; cur(log + fmt(" datagram %d of %zu bytes err %d service kind %d init %u max %u", i, d.size(), e.err, s->kind, s->rmin, s->rmax));
            if (!p->send(d, to)) continue; expect.push_back(e); need++; count("datagrams"); h = fnv(d) ^ h * 31; if (r.chance(10)) sleep_us(r.below(500));
        }
        bool ok = ni::wait_for([&]() { return s->seen.load() >= need; }, 5000); if (ok) { sleep_us(200); ok = cl::on_loop([]() {}); } // whatever is left over is done by now
        std::vector<Event> got; std::vector<Sent> sent; { pthread_mutex_lock(&s->mu); got = s->got; sent = s->sent; pthread_mutex_unlock(&s->mu); }
        if (!ok && got.size() >= expect.size()) { fail("service/blocked", "the loop does not respond"); die_now(); }
        size_t j = 0;
        for (size_t i = 0; i < expect.size(); i++) {
            const Event &e = expect[i];
            if (j >= got.size()) { fail("service/lost", fmt("datagram %zu of %zu (%zu bytes) was neither handed over nor reported", i, expect.size(), e.data.size())); break; }
            const Event &g = got[j++];
            if (e.err == 0) {
                VT_CHECK(g.err == 0, "refused", fmt("datagram of %zu bytes refused with %d (service kind %d, buffer %u..%u)", e.data.size(), g.err, s->kind, s->rmin, s->rmax)); if (g.err) continue;
                VT_CHECK(g.data == e.data, "content", fmt("datagram of %zu bytes handed over as %zu bytes: %s", e.data.size(), g.data.size(), hex(g.data, 40).c_str())); VT_CHECK(g.from == e.from, "sender", S("datagram of ") + show_addr(e.from) + " attributed to " + show_addr(g.from)); count("handed");
                if (e.vague) while (j < got.size() && expect.size() - i - 1 < got.size() - j) j++; // what follows the first packet may be handed over, refused or dropped
            } else { VT_CHECK(g.err != 0, "accepted", fmt("datagram of %zu bytes which is no packet was handed over as %zu bytes", e.data.size(), g.data.size())); VT_CHECK(e.err < 0 || g.err == 0 || g.err == e.err, "error-code", fmt("error %d instead of %d", g.err, e.err)); count("refused"); }
        }
        VT_CHECK(j >= got.size(), "surplus", fmt("%zu events for %zu datagrams", got.size(), expect.size()));
        // every accepted answer arrives once, whole, in order, from the service
        for (size_t i = 0; i < sent.size(); i++) due[sent[i].to].push_back(sent[i]);
        for (size_t i = 0; i < P.size(); i++) {
            std::vector<Sent> &q = due[P[i]->at];
            for (size_t k = 0; k < q.size(); k++) { S d; Addr from; if (!P[i]->recv(d, from, 5000)) { fail("service/answer-lost", fmt("answer of %zu bytes did not arrive", q[k].data.size())); break; } VT_CHECK(d == q[k].data, "answer", fmt("answer of %zu bytes arrived as %zu bytes", q[k].data.size(), d.size())); VT_CHECK(from == q[k].from, "answer-source", "answer from " + show_addr(from)); count("answers_checked"); }
            q.clear(); S d; Addr from; VT_CHECK(!P[i]->recv(d, from, 0), "answer-surplus", fmt("%zu bytes nobody answered", d.size()));
        }
        // the connector as a client of the service
        if (r.chance(40) && s->kind != K_NONE) {
            CUdpConnector c; int f0 = n_socket_fail; bool local = r.chance(70); bool cok = c.connect(ni::my_ip(), s->port, local ? ni::my_ip() : r.chance(50) ? S("127.0.0.1") : S("")); if (!cok) { VT_CHECK(n_socket_fail != (uint64_t)f0, "connect", c.getErrMsg()); continue; }
            int sf = sendto_fail; sendto_fail = 0; 
            for (int i = 0; i < 3; i++) {
                S d = frame(s->kind, r.bytes(r.below(200))); if (d.empty() || d.size() > s->rmax) continue; // find a salt that echoes only
                for (s->salt = r.next();; s->salt++) { Rng q(fnv(d) ^ s->salt); if (q.chance(60) && !q.chance(20) && !q.chance(15) && !q.chance(3)) break; }
                s->others.clear(); Exact e(d); S a = "junk"; int k = c.write(e.p, (int)e.n); VT_CHECK(k == (int)e.n, "connector-write", fmt("%d of %zu: %s", k, e.n, c.getErrMsg())); k = c.read(a, 5000); VT_CHECK(k == (int)d.size() && a == d, "connector-echo", fmt("%d bytes back of %zu: %s", k, d.size(), k < 0 ? c.getErrMsg() : hex(a, 30).c_str())); count("echoes");
            }
            sendto_fail = sf;
        }
    }
    distinct("history", h); if (r.chance(2)) sample(log);
    ni::calm(); sendto_fail = 0; cl::on_loop([]() {}); VT_CHECK(ni::cfg().n_foreign_close == 0, "foreign-close", "a descriptor of somebody else was closed");
    for (size_t i = 0; i < P.size(); i++) delete P[i];
}

// ---- connector -------------------------------------------------------------------------
static const int MARGIN_MS = 3000;
static void in_time(uint64_t t0, int limit, const char *what) { int ms = (int)((now_us() - t0) / 1000); VT_CHECK(ms <= limit + MARGIN_MS, S("late:") + what, fmt("%s took %d ms, limit %d", what, ms, limit)); }
static void connector(Rng &r, uint64_t) {
    ni::calm(); ni::cfg().seed = r.next(); if (r.chance(20)) ni::cfg().jitter = 10; bool faults = r.chance(30); sendto_fail = faults ? 10 : 0; recvfrom_eintr = faults ? 5 : 0; socket_fail = r.chance(15) ? 15 : 0;
    int before; { ni::AsHarness h; before = open_fds(); }
    { uint32_t net = my_net(); Peer a(net), b(net ^ 77); void *mem = malloc(sizeof(CUdpConnector)); memset(mem, 0xA5, sizeof(CUdpConnector)); CUdpConnector *c = new (mem) CUdpConnector(); VT_CHECK(c->getErrMsg()[0] == 0, "message-before", "an error text before any error");
    auto failed = [&](const char *op) { VT_CHECK(c->getErrMsg()[0] != 0, "no-message", S(op) + " failed without a text"); };
    bool conn = false; Peer *peer = 0; bool known = false; uint32_t my_addr = 0; int my_port = 0; Addr me = {0, 0}; std::deque<S> waiting; S log; uint64_t h = 1; int n = 10 + (int)r.below(50); bool nowhere = false;
    for (int i = 0; i < n; i++) {
        int op = (int)r.below(100); count("ops"); cur(log + fmt(" op%d", op));
        if (op < (conn ? 6 : 40)) {
            int kind = (int)r.below(10); peer = r.chance(70) ? &a : &b; nowhere = false; S ip = ipstr(peer->at.ip); int port = peer->at.port; S local; int lport = 0; bool bad = false; uint64_t f0 = n_socket_fail;
            if (kind < 5) local = ni::my_ip(); else if (kind < 7) { local = ipstr(net ^ 5); } else if (kind < 8) { local = "203.0.113.7"; bad = true; } else if (kind < 9) { lport = ni::free_port(r.next(), SOCK_DGRAM); if (r.chance(60)) local = ni::my_ip(); }
            if (r.chance(8)) { nowhere = true; ip = r.pick(std::vector<S>{"", "no address", "999.9.9.9"}); }
            log += fmt(" connect%d%s", kind, nowhere ? "?" : ""); int held = open_fds() - conn; bool ok = c->connect(ip, port, local, lport); if (!ok) VT_CHECK(open_fds() <= held, "connect-leaves", "a descriptor is held after a failed connect"); my_addr = local.empty() ? 0 : ntohl(inet_addr(local.c_str())); my_port = lport; waiting.clear(); known = false; conn = ok;
            if (n_socket_fail != f0) { VT_CHECK(!ok || local.empty(), "socket", "connected without a socket"); if (!ok) failed("connect"); continue; }
            VT_CHECK(nowhere || ok == !bad, ok ? "connect-accepted" : "connect-refused", fmt("connect from %s:%d: %s", local.c_str(), lport, c->getErrMsg())); if (!ok) { failed("connect"); count("connect_refused"); } else count("connects");
        } else if (op < 45) {
            size_t len = r.chance(6) ? 65507 - r.below(3) + (r.chance(30) ? 3 : 0) : r.edge(r.chance(20) ? 20000 : 600); S d = r.bytes(len); Exact e(d); t_sendto_failed = 0; uint64_t t0 = now_us(); log += fmt(" write%zu", len); int k = c->write(e.p, (int)e.n); in_time(t0, 0, "write"); bool good = conn && !nowhere && !t_sendto_failed && len <= 65507;
            VT_CHECK(good ? k == (int)len : k < 0, good ? "write-failed" : "write-accepted", fmt("write of %zu bytes returned %d (%s)", len, k, c->getErrMsg())); h = h * 31 + len;
            if (k < 0) { failed("write"); count("writes_refused"); continue; } if (!good) continue; count("writes");
            S x; Addr from; if (!peer->recv(x, from, 5000)) { fail("connector/lost", fmt("datagram of %zu bytes did not arrive", len)); continue; } VT_CHECK(x == d, "content", fmt("datagram of %zu bytes arrived as %zu", d.size(), x.size())); if (known) VT_CHECK(from == me, "source", "the sender changed from " + show_addr(me) + " to " + show_addr(from)); else { VT_CHECK(!my_addr || from.ip == my_addr, "local-address", "sent from " + show_addr(from)); VT_CHECK(!my_port || from.port == my_port, "local-port", "sent from " + show_addr(from) + fmt(" instead of port %d", my_port)); if (my_port) count("local_ports"); if (my_addr) count("local_addresses"); } me = from; known = true;
            S y; VT_CHECK(!a.recv(y, from, 0) && !b.recv(y, from, 0), "surplus", fmt("%zu more bytes arrived", y.size()));
        } else if (op < 70) {
            if (!known) continue; size_t total = 0; for (size_t k = 0; k < waiting.size(); k++) total += waiting[k].size() + 1000; size_t len = 1 + (r.chance(6) ? 65506 - r.below(3) : r.edge(r.chance(20) ? 20000 : 600)); if (waiting.size() && total + len > 80000) continue; if (len > 65507) len = 65507; S d = r.bytes(len); log += fmt(" peer%zu", len); if (peer->send(d, me)) waiting.push_back(d);
        } else if (op < 95) {
            int tmo = waiting.empty() ? (conn && r.below(200) == 0 ? 1020 + (int)r.below(100) : 5 + (int)r.below(20)) : 3000; if (tmo > 1000 && tmo < 3000) count("long_timeouts"); bool str = r.chance(50); int size = str ? 65535 : (int)r.pick(std::vector<int>{1, 10, 600, 20000, 65535}); char *buf = (char *)malloc(size); S got = "left over"; uint64_t e0 = n_recv_eintr, t0 = now_us(); log += fmt(" read%d", str ? 0 : size); int k = str ? c->read(got, tmo) : c->read(buf, size, tmo); int ms = (int)((now_us() - t0) / 1000); in_time(t0, tmo, "read"); bool dist = n_recv_eintr != e0; if (!str) got.assign(buf, k > 0 ? k : 0); free(buf);
            if (k < 0) { failed("read"); VT_CHECK(!str || got.empty(), "read-left", "text left in the buffer"); VT_CHECK(!conn || dist || waiting.empty(), "read-fails", fmt("%d with %zu datagrams waiting: %s", k, waiting.size(), c->getErrMsg())); if (conn && !dist && waiting.empty()) { VT_CHECK(ms >= tmo - 5, "early:read", fmt("time-out of %d ms after %d", tmo, ms)); count("timeouts"); } if (!conn) count("unconnected_reads"); continue; }
            if (waiting.empty() || !conn) { fail("connector/foreign", fmt("read %d bytes nobody sent", k)); continue; }
            S d = waiting.front(); waiting.pop_front(); VT_CHECK(k == (int)got.size() && got == d.substr(0, size), "read-content", fmt("datagram of %zu bytes read as %d", d.size(), k)); count("reads"); if ((int)d.size() > size) count("cut_reads");
        } else { log += " close"; c->close(); conn = false; known = false; waiting.clear(); }
    }
    distinct("history", h ^ fnv(log)); if (r.chance(2)) sample(log); c->~CUdpConnector(); free(mem); }
    ni::calm(); sendto_fail = 0; recvfrom_eintr = 0; socket_fail = 0; int after; { ni::AsHarness h; after = open_fds(); } VT_CHECK(after == before, "descriptors", fmt("%d descriptors open, %d before", after, before)); VT_CHECK(ni::cfg().n_foreign_close == 0, "foreign-close", "a descriptor of somebody else was closed");
}
// many connectors at once: every one gets its own answers
static void crowd(Rng &r, uint64_t) {
    ni::calm(); Peer a(my_net()); int n = 700; std::vector<CUdpConnector *> c; std::map<Addr, int> who; bool local = r.chance(80);
    for (int i = 0; i < n; i++) { c.push_back(new CUdpConnector()); if (!c[i]->connect(ipstr(a.at.ip), a.at.port, local ? ni::my_ip() : S(""))) { fail("connector/connect-refused", c[i]->getErrMsg()); break; } }
    std::vector<Addr> at(c.size());
    for (size_t i = 0; i < c.size(); i++) { S d = fmt("connector %zu", i), x; c[i]->write(d.data(), (int)d.size()); if (!a.recv(x, at[i], 5000) || x != d) { fail("connector/lost", "a datagram did not arrive"); break; } }
    for (size_t i = 0; i < c.size(); i++) { S d = fmt("answer %zu", i), x; a.send(d, at[i]); int k = c[i]->read(x, 1000); VT_CHECK(k == (int)d.size() && x == d, "crowd", fmt("connector %zu of %zu at %s did not get its answer but %s", i, c.size(), show_addr(at[i]).c_str(), k < 0 ? c[i]->getErrMsg() : x.c_str())); count("crowd"); if (k < 0) break; }
    for (size_t i = 0; i < c.size(); i++) delete c[i];
}
// clients and answering threads all at once
struct Worker { int n; uint64_t seed; int port; bool answers; Service *s; };
static void *worker(void *p) {
    Worker &w = *(Worker *)p; Rng r(w.seed);
    if (w.answers) { // a thread of the service answers on its own
        Peer a(my_net() ^ (uint32_t)(1 + w.n)); for (int i = 0; i < 40; i++) { S d = fmt("thread %d answer %d ", w.n, i) + r.bytes(r.edge(3000)), x; Exact e(d); Addr from; VT_CHECK(cl::mgr().writeTo(w.s->id, ipstr(a.at.ip), a.at.port, e.p, (int)e.n) == 0, "write-failed", cl::mgr().getErrMsg()); { if (!a.recv(x, from, 5000) || x != d) { fail("threads/answer-lost", "an answer did not arrive"); break; } } count("thread_answers"); }
        return 0; }
    for (int i = 0; i < 8; i++) {
        CUdpConnector c; if (!c.connect(ni::my_ip(), w.port, r.chance(70) ? S("") : ni::my_ip())) { fail("threads/connect-refused", c.getErrMsg()); break; }
        for (int j = 0; j < 6; j++) { S d = fmt("client %d %d %d ", w.n, i, j) + r.bytes(r.edge(5000)), x; Exact e(d); int k = c.write(e.p, (int)e.n); VT_CHECK(k == (int)e.n, "connector-write", c.getErrMsg()); k = c.read(x, 5000); VT_CHECK(k == (int)d.size() && x == d, "connector-echo", fmt("%d bytes back of %zu: %s", k, d.size(), k < 0 ? c.getErrMsg() : hex(x, 30).c_str())); count("thread_echoes"); if (x != d) return 0; }
    }
    return 0;
}
struct Echo : Service { void onRead(StSession &s, const char *p, const int n) { S d(p, n); int r = cl::mgr().writeTo(s.iSvrId, s.getStrIp(), s.getPort(), d.data(), n); VT_CHECK(r == 0, "write-failed", "an echo was not accepted"); } };
static Echo *g_echo;
static void threads(Rng &r, uint64_t) {
    ni::calm(); ni::cfg().seed = r.next(); if (r.chance(50)) ni::cfg().jitter = 20; int n = 2 + (int)r.below(5); std::vector<Worker> w(n); std::vector<pthread_t> t(n);
    for (int i = 0; i < n; i++) { w[i].n = i; w[i].seed = r.next(); w[i].port = g_echo->port; w[i].answers = i && r.chance(30); w[i].s = g_echo; pthread_create(&t[i], 0, worker, &w[i]); } for (int i = 0; i < n; i++) pthread_join(t[i], 0); count("crowds"); distinct("history", r.next());
}
int main(int argc, char **argv) {
    init(argc, argv);
    if (mode("service")) { setup(st().seed * 100 + st().shard); cases(service); ni::calm(); g_loop.stop(); }
    else if (mode("threads")) { cl::mgr().init(100); g_echo = new Echo; g_echo->kind = K_RAW; g_echo->rmin = 100; g_echo->rmax = 20000; add_service(g_echo, st().seed * 31 + st().shard); g_loop.start(); cases(threads); ni::calm(); g_loop.stop(); }
    else cases([](Rng &r, uint64_t i) { if (i % 100 == 0) crowd(r, i); else connector(r, i); });
    ni::count_injected(); count("inj_sendto_fail", n_sendto_fail); count("inj_socket_fail", n_socket_fail); return done();
}
