// C09: life cycle of connections: one connect, data, one end, clean reuse of descriptors, exact limits.
#include "commloop.h"
#include <sys/resource.h>
using namespace vt;
using namespace lce;

enum Op { ECHO = 1, ECHO_CLOSE, CLOSE_NOW, CLOSE_TWICE, CLOSE_DIAL, CLOSE_OTHER, BIG, KILL_AND_DIAL, BIG_CLOSE };
static std::string pkt(int op, int arg, const std::string &pl) { size_t t = pl.size() + 9; std::string r; r += (char)2; r += (char)(t >> 8); r += (char)t; r += (char)op; r.append((char *)&arg, 4); return r + pl + (char)3; }

static int g_cli, g_port, g_srv, g_sink, g_sinkport, g_stuck, g_stuckport, g_refused;
static int hi(int fd) { // harness descriptors are kept out of the manager's table
    ni::AsHarness h; if (fd < 0) return fd; int n = fcntl(fd, F_DUPFD_CLOEXEC, 1500); ni::disown(fd); ::close(fd); ni::own(n); return n;
}
struct Out { int id; int port; int fd; int notified; bool ok; bool closed_early; int greet; Out() : id(0), port(0), fd(-1), notified(0), ok(false), closed_early(false), greet(0) {} };
struct Mon : cl::Monitor {
    std::map<void *, Out *> outs; std::vector<Out *> all_outs; std::map<int, StSession> last; // by tag
    std::vector<StSession> stale; std::atomic<int> reads; int close_in_connect, redial, redial_stuck; std::string echoes;
    Mon() : reads(0), close_in_connect(0), redial(0), redial_stuck(0) {}
    void closing(StSession &s) { app_close(s); L l(this); if (stale.size() < 200) stale.push_back(s); }
    Out *dial(int port, bool early = false, int greet = 0) {
        Out *o = new Out; o->greet = greet; { L l(this); o->port = port; o->id = (int)all_outs.size(); all_outs.push_back(o); outs[o] = o; }
        int fd = cl::mgr().connect(g_cli, ni::my_ip(), port, o);
        { L l(this); o->fd = fd; }
        count("dialed");
        if (fd >= 0 && early) { StSession s; s.iFd = fd; s.iSvrId = g_cli; bool pending; { L l(this); pending = !o->notified; if (pending) o->closed_early = true; } if (pending) cl::mgr().close(s); count("closed_while_connecting"); }
        return o;
    }
    void act_connect(StSession &s, cl::ConnP c, bool ok, void *data) {
        if (data) { L l(this); Out *o = (Out *)data;
            if (!outs.count(o)) { wrong("foreign-data", "connect notification with a parameter never given"); return; }
            o->notified++; o->ok = ok;
            if (o->notified > 1) wrong("connect-twice", "second connect notification for one connect call");
            if (o->closed_early) wrong("connect-after-close", "connect notification for a connection that was closed before");
            if (ok && (o->port == g_refused || o->port == g_stuckport)) wrong("false-connect", fmt("connect reported as successful to a %s peer", o->port == g_refused ? "refusing" : "silent")); 
            if (s.getIp() != ntohl(inet_addr(ni::my_ip().c_str())) || s.getPort() != o->port) wrong("peer-address", fmt("session of a connection to port %d says %s:%d", o->port, s.getStrIp().c_str(), (int)s.getPort()));
            if (!ok && o->port == g_sinkport) wrong("false-refusal", "connect to a listening peer reported as failed"); }
        if (ok && data && ((Out *)data)->greet) { std::string g(1 + ((Out *)data)->greet, 'g'); if (cl::mgr().write(s, g.data(), (int)g.size(), false) != 0) { L l(this); if (find(s)) wrong("greet", "write on a connection just established refused"); } }
        if (!ok) again(s);
        if (ok && close_in_connect > 0) { close_in_connect--; closing(s); cl::mgr().close(s); count("closed_in_connect"); }
    }
    void again(StSession &s) {
        if (redial_stuck > 0) { redial_stuck--; int fd = s.iFd; cl::mgr().close(s); bool same = false; for (int i = 0; i < 4 && !same; i++) same = dial(g_stuckport)->fd == fd; if (same) count("replaced_in_end"); return; } // ... and the new one stays in the making
        // the handler of an end closes the session itself and connects again at once: the descriptor is used again
        if (redial <= 0) return;
        redial--; cl::mgr().close(s); dial(redial % 2 ? g_sinkport : g_refused, false, redial % 3 ? 7 : 0); count("redialed");
    }
    void act_close(StSession &s, cl::ConnP) { again(s); }
    void act_error(StSession &s, cl::ConnP, int) { again(s); }
    void act_read(StSession &s, cl::ConnP c, const char *d, int n) {
        reads++;
        if (n < 9) return;
        int op = (unsigned char)d[3], arg; memcpy(&arg, d + 4, 4);
        std::string pl(d + 8, n - 9);
        { L l(this); c->tag = arg; last[arg] = s; }
        switch (op) {
        case ECHO: cl::mgr().write(s, d, n, false); break;
        case ECHO_CLOSE: if (cl::mgr().write(s, d, n, true) == 0) closing(s); break;
        case CLOSE_NOW: closing(s); cl::mgr().close(s); break;
        case CLOSE_TWICE: closing(s); cl::mgr().close(s); cl::mgr().close(s); if (cl::mgr().write(s, "x", 1, false) == 0) { L l(this); wrong("write-on-closed", "write accepted by a closed session"); } break;
        case CLOSE_DIAL: closing(s); cl::mgr().close(s); dial(g_sinkport); break;
        case CLOSE_OTHER: case KILL_AND_DIAL: {
            int o = atoi(pl.c_str()); StSession t; bool have;
            { L l(this); have = last.count(o); if (have) { t = last[o]; cl::ConnP oc = find(t); have = oc && oc->tag == o; } }
            if (have) { closing(t); cl::mgr().close(t); }
            if (op == KILL_AND_DIAL) { // the descriptor is used again at once, by a connection that stays in the making
                bool again = false; for (int i = 0; i < 6 && !again; i++) again = dial(g_stuckport)->fd == t.iFd;
                if (have && again) count("replaced_in_batch"); }
            break; }
        case BIG_CLOSE: { std::string b(3000 + 1000 * (pl.size() % 900), 'b'); if (cl::mgr().write(s, b.data(), (int)b.size(), true) == 0) app_write_close(s); break; }
        case BIG: { std::string b(300000, 'b'); cl::mgr().write(s, b.data(), (int)b.size(), false); break; }
        }
    }
};
static Mon M;
static int baseline; static uint32_t N;
struct Peer { int fd, tag, lport; bool turned_away, sent_close; };
static int listener(int port, int backlog) { ni::AsHarness h; int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); sockaddr_in a = ni::addr(ni::my_ip(), port); int on = 1; setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &on, sizeof on); if (bind(fd, (sockaddr *)&a, sizeof a) || listen(fd, backlog)) _exit(9); return hi(fd); }

static bool echo_works(Peer &p, Rng &r) {
    std::string q = pkt(ECHO, p.tag, r.alnum(r.below(50))), x;
    if (!ni::send_all(p.fd, q)) return false;
    return ni::recv_n(p.fd, x, q.size(), 20000) == 1 && x == q;
}
static void one(Rng &r, uint64_t idx) {
    static int tag = 0;
    ni::cfg().seed = r.next();
    bool inject = r.chance(30);
    ni::cfg().accept_fail = inject ? 20 : 0; ni::cfg().recv_again = r.chance(30) ? 20 : 0; ni::cfg().recv_max = r.chance(30) ? 5 : 0;
    ni::cfg().connect_now = r.chance(25) ? 60 : 0; 
    bool flood = idx % 4 == 0; ni::cfg().epoll_add_fail = !flood && r.chance(20) ? 15 : 0; 
    bool fails = ni::cfg().epoll_add_fail > 0;
    std::vector<Peer> P; std::vector<int> sink; uint64_t h = 0; std::string log;
    auto join = [&]() -> bool {
        Peer p; p.fd = hi(ni::dial(g_port)); p.tag = ++tag; p.turned_away = p.sent_close = false;
        if (p.fd < 0) { fail("dial", "cannot connect to the server"); return false; }
        p.lport = cl::local_port(p.fd); P.push_back(p); return true;
    };
    if (flood) { // limits
        log = "flood";
        int rounds = 2, acc[2];
        for (int k = 0; k < rounds; k++) {
            uint64_t max0; { cl::Monitor::L l(&M); max0 = M.n_max; }
            int n = (int)N + 3 + (int)r.below(6), base = (int)P.size();
            for (int i = 0; i < n; i++) if (!join()) return;
            if (!ni::wait_for([&]() { cl::Monitor::L l(&M); return M.live.size() + (M.n_max - max0) >= (size_t)n; })) fail("accept-stuck", fmt("%d connections made, %zu sessions", n, M.n_live()));
            size_t live = M.n_live(); acc[k] = (int)live;
            VT_CHECK(live <= N, "over-limit", fmt("%zu clients at once, limit %u", live, N));
            if (N > 50) VT_CHECK(live == N, "under-limit", fmt("%zu clients accepted, limit %u", live, N));
            int away = 0;
            for (int i = base; i < base + n; i++) { cl::ConnP c = M.by_peer(P[i].lport); if (!c) { std::string x; int st = ni::recv_eof(P[i].fd, x, 20000); VT_CHECK(st == 0 || st == -2, "not-turned-away", "a client beyond the limit is left hanging"); P[i].turned_away = true; away++; } }
            for (int i = 0; i < 6; i++) { size_t q = base + r.below(n); if (!P[q].turned_away && !P[q].sent_close) VT_CHECK(echo_works(P[q], r), "starved", "an accepted client is not served while others are turned away"); }
            if (r.chance(40)) { // outgoing connections while everything is taken: those that do not fit are refused and cost nothing
                int o = 1 + (int)r.below(12); cl::on_loop([&]() { for (int i = 0; i < o; i++) M.dial(g_sinkport); }); count("dialed_when_full", o);
                bool gone = ni::wait_for([&]() {
                    while (ni::readable(g_sink, 0)) { ni::AsHarness ah; int s = ::accept(g_sink, 0, 0); if (s < 0) break; ::close(s); }
                    cl::Monitor::L l(&M); for (size_t i = 0; i < M.all_outs.size(); i++) { Out *q = M.all_outs[i]; if (q->fd >= 0 && !q->notified) return false; }
                    return M.live.size() == live; });
                VT_CHECK(gone, "outgoing-left", fmt("%zu sessions after %d outgoing connections came and went, %zu before", M.n_live(), o, live));
            }
            // some leave: exactly as many may come
            int leave = 1 + (int)r.below(4), left = 0;
            for (int i = base; i < base + n && left < leave; i++) if (!P[i].turned_away && !P[i].sent_close) { if (r.chance(30)) ni::reset_close(P[i].fd); else ni::pclose(P[i].fd); P[i].sent_close = true; P[i].fd = -1; left++; }
            if (!ni::wait_for([&]() { return M.n_live() == live - left; })) fail("leave", fmt("%d of %zu clients left, %zu sessions remain", left, live, M.n_live()));
            int b2 = (int)P.size(); { cl::Monitor::L l(&M); max0 = M.n_max; }
            for (int i = 0; i < left; i++) if (!join()) return;
            ni::wait_for([&]() { cl::Monitor::L l(&M); return M.live.size() + (M.n_max - max0) >= live; });
            if (N > 50) VT_CHECK(M.n_live() == live, "slot-lost", fmt("%d clients left, only %zu of %zu sessions after as many new ones came", left, M.n_live(), live));
            if (N > 50) for (size_t i = b2; i < P.size(); i++) VT_CHECK(echo_works(P[i], r), "replacement-starved", "client in a freed slot is not served");
            for (size_t i = 0; i < P.size(); i++) if (P[i].fd >= 0) { if (r.chance(20)) ni::reset_close(P[i].fd); else ni::pclose(P[i].fd); P[i].fd = -1; }
            if (!ni::wait_for([&]() { return M.n_live() == 0; })) fail("left-over", fmt("%zu sessions after all peers have gone", M.n_live()));
            count("limit_rounds"); count("turned_away", away);
        }
        if (N > 50) VT_CHECK(acc[0] == acc[1], "capacity-lost", fmt("%d clients accepted in the first round, %d in the second", acc[0], acc[1]));
    } else {
        int n = 10 + (int)r.below(50);
        for (int i = 0; i < n; i++) {
            int op = (int)r.below(100); h = h * 13 + op / 4;
            int cap = std::min<int>(N > 50 ? 25 : 6, 25);
            if (P.empty() || (op < 22 && (int)P.size() < cap)) { if (!join()) return; log += " join"; continue; }
            size_t k = r.below(P.size()); Peer &p = P[k];
            if (op < 40) { // requests, some of them closing, several in one segment
                std::string q; int m = 1 + (int)r.below(3);
                for (int j = 0; j < m; j++) { int o = r.chance(60) ? ECHO : 1 + (int)r.below(5); if (o == ECHO_CLOSE || o == CLOSE_NOW || o == CLOSE_TWICE || o == CLOSE_DIAL) p.sent_close = true; q += pkt(o, p.tag, r.alnum(r.below(40))); log += fmt(" op%d", o); }
                ni::send_all(p.fd, q); count("requests", m);
            } else if (op < 46 && P.size() > 1) { size_t o = r.below(P.size()); if (o != k) { ni::send_all(p.fd, pkt(CLOSE_OTHER, p.tag, fmt("%d", P[o].tag))); P[o].sent_close = true; log += " kill"; } }
            else if (op < 51) { // several events in one batch: one handler closes and replaces the descriptor of another
                if (P.size() < 2 || ni::cfg().connect_now) continue;
                size_t o = r.below(P.size()); if (o == k || P[o].sent_close || p.sent_close) continue;
                std::string q = pkt(ECHO, P[o].tag, ""), x;
                if (!ni::send_all(P[o].fd, q + pkt(BIG, P[o].tag, ""))) continue;
                if (ni::recv_n(P[o].fd, x, q.size() + 1000, fails ? 300 : 20000) != 1) continue;
                if (r.chance(70)) { // nothing can be sent for a while: the other one waits for room all the time, and comes behind this one in every batch
                    while (ni::recv_some(P[o].fd, x, 65536, 2) > 0) ;
                    std::atomic<int> hold(0), held(0);
                    cl::Call *c = new cl::Call; c->f = [&]() { held = 1; for (int j = 0; j < 20000 && !hold; j++) sleep_us(20); };
                    if (cl::mgr().sendMessage(1, c) != 0) { delete c; continue; }
                    ni::wait_for([&]() { return held.load() == 1; });
                    std::string m; for (int j = 0, z = 4 + (int)r.below(30); j < z; j++) m += pkt(0, p.tag, std::string(1000, 'n'));
                    ni::send_all(p.fd, m + pkt(KILL_AND_DIAL, p.tag, fmt("%d", P[o].tag)));
                    ni::send_all(P[o].fd, pkt(BIG, P[o].tag, ""));
                    ni::cfg().send_again = 100; hold = 1; ni::wait_for([&]() { return c->done.load() == 1; }); delete c;
                    uint64_t k0 = get_count("replaced_in_batch"); ni::wait_for([&]() { return get_count("replaced_in_batch") > k0; }, 60);
                    cl::on_loop([]() {}); ni::cfg().send_again = 0; P[o].sent_close = true; count("batched"); log += " batch2";
                    continue;
                }
                std::atomic<int> go(0), in(0);
                cl::Call *c = new cl::Call; c->f = [&]() { in = 1; for (int j = 0; j < 20000 && !go; j++) sleep_us(20); }; // stall the loop
                if (cl::mgr().sendMessage(1, c) == 0) {
                    ni::wait_for([&]() { return in.load() == 1; });
                    ni::send_all(p.fd, pkt(KILL_AND_DIAL, p.tag, fmt("%d", P[o].tag))); sleep_us(300);
                    while (ni::recv_some(P[o].fd, x, 65536, 2) > 0) ;
                    go = 1; ni::wait_for([&]() { return c->done.load() == 1; });
                    P[o].sent_close = true; count("batched");
                }
                delete c; log += " batch";
            } else if (op < 55) { // an answer with a pending close is cut off by its peer; the descriptor serves the next connection
                if (p.sent_close || fails) continue;
                size_t live0 = M.n_live(); bool dial = r.chance(60);
                if (!ni::send_all(p.fd, pkt(BIG_CLOSE, p.tag, std::string(800 + r.below(90), 'x')))) continue;
                int lp = p.lport; p.sent_close = true;
                ni::wait_for([&]() { cl::ConnP c = M.by_peer(lp); return !c || !c->live; }, 2000);
                ni::reset_close(p.fd); P.erase(P.begin() + k);
                ni::wait_for([&]() { cl::Monitor::L l(&M); return M.ending.empty(); }, 300); (void)live0;
                if (dial) cl::on_loop([&]() { M.dial(g_sinkport, false, 1 + (int)r.below(60)); }); else if (!join()) return;
                log += " bigclose"; count("pending_close_reset");
            } else if (op < 57 && !fails && !ni::cfg().connect_now && !p.sent_close && M.by_peer(p.lport) && r.chance(60)) { // a connection with output waiting is reset, its descriptor serves another one at once
                std::string x; cl::ConnP c = M.by_peer(p.lport); while (ni::recv_some(p.fd, x, 65536, 2) > 0) ;
                if (!echo_works(p, r)) { p.sent_close = true; continue; }
                ni::cfg().send_again = 100; ni::send_all(p.fd, pkt(BIG, p.tag, "")); int n0 = M.reads; (void)n0; sleep_us(500); cl::on_loop([&]() { M.redial_stuck = 1; });
                ni::reset_close(p.fd); P.erase(P.begin() + k);
                ni::wait_for([&]() { cl::Monitor::L l(&M); return !c->live; }); cl::on_loop([&]() { M.redial_stuck = 0; });
                ni::cfg().send_again = 0; log += " outreset"; count("output_resets");
            } else if (op < 57) { // an idle connection is reset: that is a close
                if (p.sent_close || fails || !M.by_peer(p.lport)) continue;
                cl::ConnP c = M.by_peer(p.lport); std::string x; ni::recv_some(p.fd, x, 65536, 0);
                if (!c->live || !x.empty() || !echo_works(p, r)) { p.sent_close = true; continue; }
                bool two = r.chance(50); if (two) cl::on_loop([&]() { M.redial = 1 + (int)r.below(3); });
                ni::reset_close(p.fd); P.erase(P.begin() + k);
                ni::wait_for([&]() { cl::Monitor::L l(&M); return !c->live; });
                cl::Monitor::L l(&M); VT_CHECK(c->closes == 1 && c->errors == 0, "reset-not-closed", fmt("a reset connection ended with %d close and %d error notifications (code %d)", c->closes, c->errors, c->errcode));
                log += " reset"; count("idle_resets");
            } else if (op < 59) { cl::on_loop([&]() { M.redial = 1 + (int)r.below(4); if (r.chance(50)) M.dial(g_refused); }); log += " redial"; 
            } else if (op < 66) { // peer goes
                if (r.chance(25)) { ni::send_all(p.fd, pkt(ECHO, p.tag, "bye")); }
                if (r.chance(15)) { std::string t = pkt(ECHO, p.tag, "partial"); ni::send_all(p.fd, t.substr(0, r.below(t.size()))); }
                if (r.chance(20)) { ::shutdown(p.fd, SHUT_WR); log += " half"; if (r.chance(50)) { std::string x; ni::recv_eof(p.fd, x, 20000); } }
                if (r.chance(35)) ni::reset_close(p.fd); else ni::pclose(p.fd);
                P.erase(P.begin() + k); log += " leave"; count("left");
            } else if (op < 78) { // outgoing connections
                int which = (int)r.below(4); bool early = r.chance(25); int greet = r.chance(40) ? (int)r.below(60) : 0; int port = which < 2 ? g_sinkport : which == 2 ? g_refused : g_stuckport;
                if (port == g_stuckport && ni::cfg().connect_now) port = g_sinkport;
                if (!cl::on_loop([&]() { Out *o = M.dial(port, early, greet); (void)o; })) fail("loop", "event loop does not react");
                log += fmt(" dial%d", which);
            } else if (op < 82) { if (ni::readable(g_sink, 0)) { ni::AsHarness ah; int s = ::accept(g_sink, 0, 0); if (s >= 0) { ni::own(s); sink.push_back(hi(s)); } } }
            else if (op < 84 && !sink.empty()) { size_t s = r.below(sink.size()); if (r.chance(30)) ni::reset_close(sink[s]); else ni::pclose(sink[s]); sink.erase(sink.begin() + s); log += " sinkclose"; }
            else if (op < 92) { // old sessions are dead for ever
                StSession s; bool have; { cl::Monitor::L l(&M); have = !M.stale.empty(); if (have) s = M.stale[r.below(M.stale.size())]; }
                if (have) cl::on_loop([&]() { if (r.chance(50)) { if (cl::mgr().write(s, "stale", 5, r.chance(50)) == 0) { cl::Monitor::L l(&M); M.wrong("stale-write", "write accepted for a session that was closed"); } } else cl::mgr().close(s); });
                if (have) { count("stale_uses"); log += " stale"; }
            } else if (op < 95) { cl::on_loop([&]() { M.close_in_connect = 1; }); log += " closeinconnect"; p.sent_close = true; for (size_t j = 0; j < P.size(); j++) P[j].sent_close = true; if (!join()) return; P.back().sent_close = true; }
            else sleep_us(r.below(1000));
            if (r.chance(15)) sleep_us(r.below(500));
        }
        // those that asked for nothing special are still served
        for (size_t i = 0; i < P.size(); i++) if (!P[i].sent_close && r.chance(50) && !fails) {
            std::string x; while (ni::recv_some(P[i].fd, x, 65536, 0) > 0) ;
            std::string q = pkt(ECHO, P[i].tag, "last" + r.alnum(10));
            bool ok = ni::send_all(P[i].fd, q) && ni::wait_for([&]() { ni::recv_some(P[i].fd, x, 65536, 5); return x.size() >= q.size() && x.compare(x.size() - q.size(), q.size(), q) == 0; });
            cl::ConnP c = M.by_peer(P[i].lport);
            if (c) VT_CHECK(ok, "innocent-hurt", fmt("connection %d no longer answered after operations on others (live %d, closes %d, errors %d/%d):%s", P[i].tag, c->live, c->closes, c->errors, c->errcode, log.c_str()));
            count("innocents");
        }
        for (size_t i = 0; i < P.size(); i++) { if (r.chance(25)) ni::reset_close(P[i].fd); else ni::pclose(P[i].fd); }
    }
    cur_append(log + "\n");
    // end: close the outgoing ones from both sides
    ni::cfg().epoll_add_fail = 0; ni::cfg().accept_fail = 0;
    cl::on_loop([&]() { M.close_in_connect = 0; M.redial = 0; });
    uint64_t end = now_us() + 30000000; bool quiet = false;
    while (now_us() < end && !quiet) {
        while (ni::readable(g_sink, 0)) { ni::AsHarness ah; int s = ::accept(g_sink, 0, 0); if (s < 0) break; ::close(s); }
        for (size_t i = 0; i < sink.size(); i++) ni::pclose(sink[i]);
        sink.clear();
        cl::on_loop([&]() { // connects that never finish
            std::vector<Out *> v; { cl::Monitor::L l(&M); for (size_t i = 0; i < M.all_outs.size(); i++) { Out *o = M.all_outs[i]; if (o->port == g_stuckport && !o->notified && o->fd >= 0 && !o->closed_early) { o->closed_early = true; v.push_back(o); } } }
            for (size_t i = 0; i < v.size(); i++) { StSession s; s.iFd = v[i]->fd; s.iSvrId = g_cli; cl::mgr().close(s); }
        });
        bool pend = false;
        { cl::Monitor::L l(&M); for (size_t i = 0; i < M.all_outs.size(); i++) { Out *o = M.all_outs[i]; if (o->fd >= 0 && !o->notified && !o->closed_early) pend = true; } }
        quiet = !pend && M.n_live() == 0 && vt::open_fds() <= baseline;
        if (!quiet) sleep_us(500);
    }
    bool alive = cl::on_loop([]() {});
    VT_CHECK(alive, "loop", "event loop does not react");
    if (!quiet) { cl::Monitor::L l(&M); int pend = 0; for (size_t i = 0; i < M.all_outs.size(); i++) { Out *o = M.all_outs[i]; if (o->fd >= 0 && !o->notified && !o->closed_early) pend++; }
        fail(!M.live.empty() ? "sessions-left" : pend ? "connect-unanswered" : "fd-leak", fmt("after all peers have gone: %zu sessions, %d connects without answer, %d descriptors more than before;%s", M.live.size(), pend, vt::open_fds() - baseline, log.c_str())); die_now(); }
    VT_CHECK(vt::open_fds() == baseline, "fd-lost", fmt("%d descriptors, %d before", vt::open_fds(), baseline));
    { cl::Monitor::L l(&M);
      for (size_t i = 0; i < M.all.size(); i++) { cl::Conn &c = *M.all[i]; if (!c.ok) continue; int ends = c.closes + c.errors;
          count("sessions");
          VT_CHECK(c.app_closed ? ends == 0 : ends == 1, c.app_closed ? "notified-after-close" : "ends", fmt("session ended with %d close and %d error notifications (closed by the application: %d)", c.closes, c.errors, c.app_closed)); }
      M.all.clear(); M.by_port.clear(); M.last.clear();
      for (size_t i = 0; i < M.all_outs.size(); i++) { Out *o = M.all_outs[i]; if (o->fd < 0 && o->notified && o->ok == false) {} count(o->notified ? (o->ok ? "dial_ok" : "dial_refused") : "dial_unnotified"); delete o; }
      M.all_outs.clear(); M.outs.clear(); M.stale.clear(); }
    M.report("life:");
    VT_CHECK(ni::cfg().n_bad_close == 0, "double-close", fmt("%d closes of descriptors that were not open", (int)ni::cfg().n_bad_close)); ni::cfg().n_bad_close = 0;
    VT_CHECK(ni::cfg().n_foreign_close == 0, "foreign-close", "the library closed a descriptor it does not own"); ni::cfg().n_foreign_close = 0;
    distinct("history", flood ? fnv(fmt("flood%u", N)) : fnv(log)); if (!flood && r.chance(5)) sample(log);
}
int main(int argc, char **argv) {
    init(argc, argv);
    struct rlimit rl; getrlimit(RLIMIT_NOFILE, &rl); rl.rlim_cur = std::min<rlim_t>(rl.rlim_max, 8192); setrlimit(RLIMIT_NOFILE, &rl);
    Rng r = case_rng(5555);
    N = st().shard % 2 ? 20 : 100; // 20: the table of descriptors (1.2 times as many) ends before the number of clients
    cl::mgr().init(N);
    M.keep_packets = false;
    g_srv = cl::make_srv(SRV_TCP, r.next(), g_port, 128, 4096, 1000, 1000000);
    if (g_srv < 0) _exit(9);
    cl::mgr().setProcessor(g_srv, &M, PKG_H2ST3);
    g_cli = cl::mgr().createClient(128, 4096, 1000, 100000);
    cl::mgr().setProcessor(g_cli, &M, PKG_H2ST3);
    g_sinkport = ni::free_port(r.next()); g_sink = listener(g_sinkport, 4000);
    g_refused = ni::free_port(r.next());
    g_stuckport = ni::free_port(r.next()); g_stuck = listener(g_stuckport, 0);
    for (int i = 0; i < 3; i++) { // fill its backlog: further connects stay unanswered
        ni::AsHarness h; int fd = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0); sockaddr_in a = ni::addr(ni::my_ip(), g_stuckport); ::connect(fd, (sockaddr *)&a, sizeof a); hi(fd); }
    cl::Loop loop; loop.start();
    cl::on_loop([]() {});
    { sockaddr_in a = ni::addr("127.0.0.1", 1); (void)a; }
    baseline = vt::open_fds();
    cases(one);
    ni::calm(); loop.stop(); ni::count_injected();
    return done();
}
