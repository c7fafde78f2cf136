// C28: the blocking TCP connector against peers that behave in every way, with faults injected below it.
#define NI_OWN_SOCKET
#include "netinj.h"
#include "CTcpConnector.h"
using namespace vt;
using lce::CTcpConnector;
typedef std::string S;

static std::atomic<int> socket_fail(0); static std::atomic<uint64_t> n_socket_fail(0);
extern "C" int socket(int d, int t, int p) {
    static int (*f)(int, int, int) = ni::real<int (*)(int, int, int)>("socket");
    if (!ni::harness_thread() && ni::pct(socket_fail)) { n_socket_fail++; errno = EMFILE; return -1; }
    return f(d, t, p);
}
// a connection attempt that fails only after a while: the kernel reports it through SO_ERROR
static std::atomic<int> so_error(0); static std::atomic<uint64_t> n_so_error(0);
extern "C" int getsockopt(int fd, int l, int o, void *v, socklen_t *n) {
    static int (*f)(int, int, int, void *, socklen_t *) = ni::real<int (*)(int, int, int, void *, socklen_t *)>("getsockopt");
    int rc = f(fd, l, o, v, n);
    if (!ni::harness_thread() && l == SOL_SOCKET && o == SO_ERROR && rc == 0 && *(int *)v == 0 && ni::pct(so_error)) { static const int E[] = {ETIMEDOUT, EHOSTUNREACH, ECONNRESET, ENETUNREACH, ECONNREFUSED}; *(int *)v = E[ni::rnd(5)]; n_so_error++; }
    return rc;
}
static int listener(int &port, uint64_t r, int backlog) {
    ni::AsHarness h; port = ni::free_port(r); int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0), on = 1; ni::own(fd);
    setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &on, sizeof on); sockaddr_in a = ni::addr(ni::my_ip(), port);
    if (bind(fd, (sockaddr *)&a, sizeof a) || (backlog >= 0 && listen(fd, backlog))) { perror("listener"); abort(); }
    return fd;
}
static int take(int lfd, int ms) { ni::AsHarness h; if (!ni::readable(lfd, ms)) return -1; int s = ::accept(lfd, 0, 0); if (s >= 0) { ni::own(s); int on = 1; setsockopt(s, IPPROTO_TCP, TCP_NODELAY, &on, sizeof on); } return s; }
static uint64_t stream_at = 0;
static S pattern(size_t n) { S s(n, 0); for (size_t i = 0; i < n; i++) { uint64_t p = stream_at + i; s[i] = (char)(p % 251 ^ (p / 251) * 7); } stream_at += n; return s; }
static const int MARGIN_MS = 3000;
static void in_time(uint64_t t0, int limit, const char *what) { int ms = (int)((now_us() - t0) / 1000); VT_CHECK(ms <= limit + MARGIN_MS, S("late:") + what, fmt("%s took %d ms, limit %d", what, ms, limit)); }

struct Case {
    Rng &r; CTcpConnector *c; void *mem; int lfd, port, dead, deadport; S log;
    bool conn, ever; int target; // 0 live listener, 1 nobody listens, 2 not an address
    int peer; S pend, up; bool fin, rst, vague; uint64_t h;
    Case(Rng &rr) : r(rr), conn(false), ever(false), target(0), peer(-1), fin(false), rst(false), vague(false), h(1) {
        lfd = listener(port, r.next(), 64); dead = listener(deadport, r.next(), -1);
        mem = malloc(sizeof(CTcpConnector)); memset(mem, 0xA5, sizeof(CTcpConnector)); c = new (mem) CTcpConnector();
        VT_CHECK(c->getErrMsg()[0] == 0, "message-before", "an error text before any error");
    }
    ~Case() { drop_peer(true); c->~CTcpConnector(); free(mem); ni::pclose(lfd); ni::pclose(dead); }
    void note(const S &s) { log += " " + s; cur(log); h = fnv(s) ^ h * 31; }
    void failed(const char *op) { VT_CHECK(c->getErrMsg()[0] != 0, "no-message", S(op) + " failed without a text"); count("failures_reported"); }
    void verify_up() { // the peer has received exactly what was accepted
        if (peer < 0 || up.empty()) return;
        if (fin || rst || vague) { up.clear(); return; }
        S got; int st = ni::recv_n(peer, got, up.size()); VT_CHECK(got == up, "written", fmt("peer received %zu bytes (%d) of %zu", got.size(), st, up.size())); count("bytes_written", got.size()); up.clear();
    }
    void drop_peer(bool anyway = false) { if (peer >= 0) { if (!anyway) verify_up(); ni::pclose(peer); } peer = -1; pend.clear(); up.clear(); fin = rst = vague = false; }
    // the connector closed or abandoned the connection: its peer sees the end
    void ended(const char *why) {
        conn = false; if (peer < 0) { drop_peer(true); return; }
        if (!fin && !rst) { S sent; if (vague) sent = up; verify_up(); S rest; int st = ni::recv_eof(peer, rest, 5000); VT_CHECK(st == 0 || st == -2, "not-closed", fmt("connection still open after %s", why)); VT_CHECK(rest == sent.substr(0, rest.size()), "foreign-bytes", fmt("%zu bytes nobody wrote", rest.size())); }
        drop_peer(true);
    }
    bool adopt(const char *why) { int s = take(lfd, 5000); if (s < 0) { fail("no-connection", fmt("%s reported success but nobody connected", why)); return false; } peer = s; pend.clear(); up.clear(); fin = rst = vague = false; conn = ever = true; count("connections");
        S x; if (ni::readable(lfd, 0)) { int e = take(lfd, 0); if (e >= 0) { fail("second-connection", "more than one connection was made"); ni::pclose(e); } } return true; }
    void connect() {
        int kind = r.chance(75) ? 0 : 1 + (int)r.below(2), tmo = (int)r.pick(std::vector<int>{200, 1000, 3000}); uint64_t f0 = n_socket_fail, g0 = n_so_error; bool was = conn; int held = open_fds() - was; uint64_t t0 = now_us();
        const S ip = kind < 2 ? ni::my_ip() : r.pick(std::vector<S>{"", "not an address", "999.1.1.1", "300.300.300.300"}); note(fmt("connect(%d)", kind)); if (!pend.empty()) verify_up(); // closing with unread data resets the connection
        bool ok = r.chance(20) && kind == 0 ? c->connect(ip, port) : c->connect(ip, kind == 1 ? deadport : port, tmo); in_time(t0, tmo, "connect"); int now_held = open_fds(); target = kind; ever = true;
        if (was) ended("connect"); else drop_peer(true);
        if (!ok) VT_CHECK(now_held <= held, "connect-leaves", fmt("%d descriptors held after a failed connect, %d before", now_held, held));
        if (n_so_error != g0) { VT_CHECK(!ok, "connect-accepted", "success reported for a connection the kernel says has failed"); failed("connect"); conn = false; drop_peer(true); int s = take(lfd, 0); if (s >= 0) ni::pclose(s); count("failed_later"); return; }
        if (n_socket_fail != f0) { VT_CHECK(!ok, "socket", "connected without a socket"); failed("connect"); conn = false; return; }
        VT_CHECK(ok == (kind == 0), ok ? "connect-accepted" : "connect-refused", fmt("connect to %s: %d (%s)", kind == 0 ? "a listener" : kind == 1 ? "a closed port" : "no address", ok, c->getErrMsg()));
        if (ok) adopt("connect"); else { failed("connect"); conn = false; count("refused"); }
    }
    void write() {
        int n = (int)r.pick(std::vector<int>{1, 10, 100, 1000, 5000, 60000}); if (r.chance(40)) n = 1 + (int)r.below(n); S d = pattern(n); Exact e(d); bool was = conn; uint64_t f0 = n_socket_fail, g0 = n_so_error, e0 = ni::cfg().n_eintr, t0 = now_us();
        note(fmt("write%d", n)); int k = r.chance(30) ? c->write(e.p, n) : c->write(e.p, n, 1000); in_time(t0, 3000 + 3000, "write"); bool disturbed = ni::cfg().n_eintr != e0 || n_socket_fail != f0 || n_so_error != g0;
        VT_CHECK(k <= n, "written-more", fmt("%d of %d", k, n));
        if (was) {
            if (k > 0) { up += d.substr(0, k); if (fin) rst = true; count("writes"); VT_CHECK(k == n || ni::cfg().send_max, "short-write", fmt("%d of %d although there is room", k, n)); }
            else { VT_CHECK(fin || rst || disturbed, "write-fails", fmt("%d on a good connection: %s", k, c->getErrMsg())); failed("write"); if (!pend.empty()) vague = true; /* closing with unread data resets the connection: the peer may lose the last bytes */ ended("a failed write"); count("broken_writes"); }
        } else {
            if (!ever) { VT_CHECK(k < 0, "write-unconnected", fmt("%d though never connected", k)); failed("write"); count("never_connected"); return; }
            if (k > 0) { VT_CHECK(target == 0 && n_so_error == g0, "write-to-nobody", "write succeeded though nobody listens"); if (adopt("write")) { up = d.substr(0, k); verify_up(); } count("reconnects"); }
            else { VT_CHECK(target != 0 || disturbed, "reconnect-fails", fmt("%d though the server listens: %s", k, c->getErrMsg())); failed("write"); count("reconnect_failures"); int s = take(lfd, 0); if (s >= 0) ni::pclose(s); }
        }
    }
    void read(int how) {
        bool idle = conn && pend.empty() && !fin && !rst; int tmo = idle || (how == 1) ? (idle && r.below(250) == 0 ? 1050 + (int)r.below(200) : 10 + (int)r.below(50)) : 1000; if (idle && tmo > 1000) count("long_timeouts"); int size = (int)r.pick(std::vector<int>{1, 2, 10, 100, 4096, 70000}); if (how == 1 && r.chance(50)) size = 1 + (int)r.below(pend.size() + 2);
        char *buf = (char *)malloc(size); S got; uint64_t e0 = ni::cfg().n_eintr, t0 = now_us(); int k; note(fmt(how == 0 ? "read%d" : how == 1 ? "readn%d" : "reads", size));
        if (how == 0) k = c->read(buf, size, tmo); else if (how == 1) k = c->readn(buf, size, tmo); else { got = "left over"; k = c->read(got, tmo); size = 65535; }
        int ms = (int)((now_us() - t0) / 1000); bool disturbed = ni::cfg().n_eintr != e0; if (how != 2) got.assign(buf, k > 0 ? k : 0); free(buf); in_time(t0, tmo, "read");
        if (!conn) { VT_CHECK(k < 0, "read-unconnected", fmt("%d though not connected", k)); failed("read"); count("unconnected_reads"); return; }
        if (k > 0) {
            VT_CHECK((int)got.size() == k && k <= size, "read-size", fmt("%d of %d, %zu bytes", k, size, got.size())); VT_CHECK(got == pend.substr(0, k), "read-bytes", fmt("%d bytes differ from the %zu sent", k, pend.size())); count("bytes_read", k);
            pend.erase(0, std::min((size_t)k, pend.size())); if (how == 1) { VT_CHECK(k == size || ((fin || rst) && pend.empty()), "readn-short", fmt("%d of %d with %zu waiting", k, size, pend.size())); if (k < size) { ended("a short readn"); count("ends_seen"); } }
            else count("reads");
        } else if (k == 0) { VT_CHECK((fin && pend.empty()) || rst, "end-reported", "end of the stream though the peer did not close"); VT_CHECK(got.empty(), "read-left", "text left in the buffer"); ended("the end"); count("ends_seen"); }
        else {
            VT_CHECK(disturbed || rst || !(fin && pend.empty()) , "end-not-reported", S("error instead of the end: ") + c->getErrMsg());
            VT_CHECK(disturbed || rst || fin || how == 1 || pend.empty(), "read-fails", fmt("%d with %zu bytes waiting: %s", k, pend.size(), c->getErrMsg())); VT_CHECK(how != 1 || disturbed || rst || (int)pend.size() < size, "readn-fails", fmt("%d with %zu of %d bytes waiting: %s", k, pend.size(), size, c->getErrMsg()));
            VT_CHECK(got.empty() || how == 1, "read-left", "text left in the buffer"); failed("read");
            if (idle && !disturbed) { VT_CHECK(ms >= tmo - 5, "early:read", fmt("time-out of %d ms after %d", tmo, ms)); count("timeouts"); }
            if (rst || how == 1) { note("close"); verify_up(); c->close(); ended("close"); } // what a failed readn has consumed is not known
        }
    }
    void peer_acts() {
        if (peer < 0 || fin || rst) return; ni::AsHarness hh; int op = (int)r.below(10);
        if (op < 7) { S d = pattern(r.pick(std::vector<size_t>{1, 5, 100, 3000, 40000, 100000})); if (pend.size() + d.size() > 150000) return; ni::send_all(peer, d); pend += d; note(fmt("peer sends %zu", d.size())); }
        else if (op < 9) { verify_up(); note("peer closes"); ni::pclose(peer); peer = -1; fin = true; count("peer_closes"); }
        else { verify_up(); note("peer resets"); ni::reset_close(peer); peer = -1; rst = true; count("peer_resets"); }
    }
    void run() {
        int n = 10 + (int)r.below(50);
        for (int i = 0; i < n; i++) {
            int op = (int)r.below(100); count("ops");
            if (op < (conn ? 5 : 40)) connect(); else if (op < 30) write(); else if (op < 55) peer_acts(); else if (op < 70) read(0); else if (op < 82) read(1); else if (op < 92) read(2); else if (op < 95) { note("close"); if (!pend.empty()) verify_up(); c->close(); if (conn) ended("close"); } else verify_up();
        }
        distinct("history", h); if (r.chance(2)) sample(log);
    }
};
// both directions at once, slow and fast
struct Duplex { int fd; S down, got; uint64_t seed; bool closes; };
static void *duplex(void *p) {
    ni::harness_thread() = 1; Duplex &d = *(Duplex *)p; Rng r(d.seed); size_t o = 0; uint64_t end = now_us() + 60000000ull; bool eof = false; std::vector<char> b(65536); bool shut = false;
    while (!eof && now_us() < end) {
        pollfd f = {d.fd, (short)(POLLIN | (o < d.down.size() ? POLLOUT : 0)), 0}; poll(&f, 1, 20); if (r.chance(5)) sleep_us(r.below(3000));
        if (f.revents & (POLLIN | POLLHUP | POLLERR)) { ssize_t k = ::recv(d.fd, &b[0], 1 + r.below(b.size()), MSG_DONTWAIT); if (k > 0) d.got.append(&b[0], k); else if (k == 0 || (errno != EAGAIN && errno != EINTR)) eof = true; }
        if (o < d.down.size() && (f.revents & POLLOUT)) { size_t n = 1 + r.below(r.chance(50) ? 100 : 50000); ssize_t k = ::send(d.fd, d.down.data() + o, std::min(n, d.down.size() - o), MSG_DONTWAIT | MSG_NOSIGNAL); if (k > 0) o += k; }
        if (o == d.down.size() && d.closes && !shut) { shutdown(d.fd, SHUT_WR); shut = true; }
    }
    return 0;
}
static void transfer(Rng &r) {
    int port, lfd = listener(port, r.next(), 8); CTcpConnector c; VT_CHECK(c.connect(ni::my_ip(), port), "connect-refused", c.getErrMsg()); Duplex d; d.fd = take(lfd, 5000); d.seed = r.next(); d.closes = r.chance(60); d.down = pattern(r.below(r.chance(20) ? 4000000 : 300000)); if (d.fd < 0) { fail("no-connection", "nobody connected"); ni::pclose(lfd); return; }
    pthread_t t; pthread_create(&t, 0, duplex, &d); S up, down; bool dead = false; cur(fmt("transfer down %zu closes %d", d.down.size(), d.closes)); int idle = 0;
    while (down.size() < d.down.size() && !dead) {
        if (r.chance(20)) { S w = pattern(1 + r.below(r.chance(30) ? 200000 : 2000)); Exact e(w); int k = c.write(e.p, (int)e.n, 5000); if (k > 0) up += w.substr(0, k); else { fail("write-fails", S("to a reading peer: ") + c.getErrMsg()); dead = true; } count("writes"); }
        int n = (int)std::min<size_t>(1 + r.below(r.chance(40) ? 200000 : 3000), d.down.size() - down.size()); S s; int k;
        if (r.chance(50)) { std::vector<char> b(n); k = c.readn(&b[0], n, 10000); if (k > 0) s.assign(&b[0], k); VT_CHECK(k == n, "readn-short", fmt("%d of %d: %s", k, n, k < 0 ? c.getErrMsg() : "")); }
        else if (r.chance(50)) { std::vector<char> b(n); k = c.read(&b[0], n, 10000); if (k > 0) s.assign(&b[0], k); } else k = c.read(s, 10000);
        if (k <= 0) { fail("read-fails", fmt("%d with %zu of %zu bytes: %s", k, down.size(), d.down.size(), c.getErrMsg())); dead = true; } down += s; count("reads"); if (++idle > 3000000) break;
    }
    VT_CHECK(dead || down == d.down, "read-bytes", fmt("%zu bytes received of %zu", down.size(), d.down.size())); count("bytes_read", down.size());
    if (d.closes && !dead) { S s; int k = c.read(s, 5000); VT_CHECK(k == 0 && s.empty(), "end-not-reported", fmt("%d", k)); }
    c.close(); pthread_join(t, 0); VT_CHECK(dead || d.got == up, "written", fmt("peer received %zu bytes of %zu", d.got.size(), up.size())); count("bytes_written", up.size()); count("transfers"); ni::pclose(d.fd); ni::pclose(lfd);
}
// a peer that does not read: writing ends in bounded time and the peer gets exactly what was accepted
static void stalled(Rng &r) {
    int port, lfd = listener(port, r.next(), 8), rb = 4096; { ni::AsHarness h; setsockopt(lfd, SOL_SOCKET, SO_RCVBUF, &rb, sizeof rb); } CTcpConnector c; VT_CHECK(c.connect(ni::my_ip(), port), "connect-refused", c.getErrMsg()); int fd = take(lfd, 5000); if (fd < 0) { fail("no-connection", "nobody connected"); ni::pclose(lfd); return; }
    S up; int tmo = r.chance(20) ? 1030 + (int)r.below(300) : 10 + (int)r.below(40); cur(fmt("stalled, time-out %d", tmo)); bool closed = false;
    for (int i = 0; i < 40; i++) { S w = pattern(100000 + r.below(2000000)); Exact e(w); uint64_t t0 = now_us(); int k = c.write(e.p, (int)e.n, tmo); in_time(t0, tmo * 2, "write"); int ms = (int)((now_us() - t0) / 1000); if (k < (int)e.n) { VT_CHECK(ms >= tmo - 12, "early:write", fmt("time-out of %d ms after %d", tmo, ms)); count("write_timeouts"); } VT_CHECK(k <= (int)e.n, "written-more", fmt("%d of %zu", k, e.n)); if (k > 0) up += w.substr(0, k); else { VT_CHECK(c.getErrMsg()[0] != 0, "no-message", "write failed without a text"); closed = true; break; } if (k < (int)e.n) { count("partial_writes"); if (r.chance(30)) break; } }
    count("stalled"); if (!closed) c.close(); S got; int st = ni::recv_eof(fd, got); VT_CHECK((st == 0 || st == -2) && got == up, "written", fmt("peer received %zu bytes of %zu accepted (%d)", got.size(), up.size(), st)); count("bytes_written", got.size()); ni::pclose(fd); ni::pclose(lfd);
}
// a server that does not answer
static void unanswered(Rng &r) {
    int port, lfd = listener(port, r.next(), 0); std::vector<int> fill; bool full = false; 
    { ni::AsHarness h; for (int i = 0; i < 6 && !full; i++) { int fd = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0); ni::own(fd); sockaddr_in a = ni::addr(ni::my_ip(), port); ::connect(fd, (sockaddr *)&a, sizeof a); pollfd p = {fd, POLLOUT, 0}; full = poll(&p, 1, 60) == 0; fill.push_back(fd); } }
    if (full) { CTcpConnector c; int held = open_fds(), tmo = r.chance(10) ? 1100 : 20 + (int)r.below(150); cur(fmt("unanswered, time-out %d", tmo)); uint64_t t0 = now_us(); bool ok = c.connect(ni::my_ip(), port, tmo); int ms = (int)((now_us() - t0) / 1000); VT_CHECK(!ok, "connect-accepted", "connected to a server that does not answer"); VT_CHECK(c.getErrMsg()[0] != 0, "no-message", "connect failed without a text"); VT_CHECK(ms >= tmo - 5, "early:connect", fmt("time-out of %d ms after %d", tmo, ms)); in_time(t0, tmo, "connect"); VT_CHECK(open_fds() == held, "connect-leaves", "a descriptor is held after a connect that timed out"); count("connect_timeouts");
        char b[4]; VT_CHECK(c.read(b, 4, 20) < 0, "read-unconnected", "read after a failed connect"); }
    for (size_t i = 0; i < fill.size(); i++) ni::pclose(fill[i]); ni::pclose(lfd);
}
static void one(Rng &r, uint64_t) {
    ni::calm(); ni::Cfg &g = ni::cfg(); g.seed = r.next(); socket_fail = 0; so_error = 0; stream_at = r.next() >> 20; int before; { ni::AsHarness h; before = open_fds(); }
    int k = (int)r.below(100);
    if (k >= 6) { if (r.chance(40)) g.recv_max = 1 + (int)r.below(5000); if (r.chance(20)) g.send_max = 1 + (int)r.below(3000); if (r.chance(25)) g.connect_now = 50; if (r.chance(20)) g.jitter = 10; if (k >= 20) { if (r.chance(15)) g.recv_eintr = g.send_eintr = 3; if (r.chance(15)) socket_fail = 15; if (r.chance(20)) so_error = 25; } }
    if (k < 3) unanswered(r); else if (k < 6) stalled(r); else if (k < 20) transfer(r); else { Case c(r); c.run(); }
    ni::calm(); socket_fail = 0; so_error = 0; int after; { ni::AsHarness h; after = open_fds(); } VT_CHECK(after == before, "descriptors", fmt("%d descriptors open, %d before", after, before)); VT_CHECK(g.n_foreign_close == 0, "foreign-close", "a descriptor of somebody else was closed");
}
int main(int argc, char **argv) {
    init(argc, argv);
    if (mode("high")) for (int i = 0; i < 20000; i++) { int fd = fcntl(2, F_DUPFD_CLOEXEC, 0); if (fd >= 1100 || fd < 0) { if (fd >= 0) close(fd); break; } }
    cases(one); ni::count_injected(); count("inj_socket_fail", n_socket_fail); return done();
}
