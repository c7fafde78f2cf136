// C08: every byte of the accepted writes reaches the peer, in order, then (only then) the requested close.
#include "commloop.h"
using namespace vt;
using namespace lce;

static inline unsigned char gen(uint64_t stream, uint64_t off) { uint64_t z = stream * 0x9E3779B97F4A7C15ULL + off * 0xBF58476D1CE4E5B9ULL; z ^= z >> 29; z *= 0x94D049BB133111EBULL; return (unsigned char)(z >> 40); }
static std::string gens(uint64_t stream, uint64_t off, size_t n) { std::string s(n, 0); for (size_t i = 0; i < n; i++) s[i] = (char)gen(stream, off + i); return s; }

struct Peer {
    uint32_t greet; // outgoing: bytes written inside of the connect notification
    int fd, lport; uint64_t stream; StSession s; bool open;      // as far as the driver knows
    uint64_t accepted; bool refused_cut; uint64_t cut_max; int writes, refused; bool want_close, ended; uint64_t sent0; // server side
    std::string got; uint64_t n_got; bool eof; bool wrong; std::string log; cl::ConnP c;
};
struct Mon : cl::Monitor {
    // a packet tells the server what to write back: count, size, close flag of the last
    std::map<cl::Conn *, Peer *> peer; // by connection
    std::map<int, Peer *> owner; // by descriptor
    void do_write(Peer *p, uint32_t size, bool close) {
        std::string d = gens(p->stream, p->accepted, size);
        uint64_t before = p->accepted - p->n_got; // at most this much is still waiting in the server
        Exact e(d);
        int rc = cl::mgr().write(p->s, e.p, (int)size, close);
        p->writes++;
        p->log += fmt(" w%u%s%s", size, close ? "C" : "", rc == 0 ? "" : "-");
        count("writes");
        if (rc == 0) {
            p->accepted += size;
            if (close) p->want_close = true;
        } else {
            p->refused++; count("refused_writes");
            if (!p->want_close && !p->refused_cut && before + size <= maxbuf) fail("refused", fmt("write of %u bytes refused with at most %llu bytes waiting and a buffer of %u: %s", size, (unsigned long long)before, maxbuf, cl::mgr().getErrMsg()));
            // if a part of it went out nothing may follow it
            L l(this); uint64_t out = owner[p->s.iFd] == p ? ni::sent()[p->s.iFd] - p->sent0 : 0; // else it was closed and its descriptor used again
            if (!p->refused_cut && out > p->accepted) { p->refused_cut = true; p->cut_max = out; if (out > p->accepted + size) fail("overrun", "more bytes sent than were written"); }
        }
    }
    uint32_t maxbuf;
    void act_read(StSession &s, cl::ConnP c, const char *d, int n) {
        Peer *p = 0; { L l(this); std::map<cl::Conn *, Peer *>::iterator i = peer.find(c.get()); if (i != peer.end()) p = i->second; }
        if (!p || n < 10) return;
        uint32_t cnt = (unsigned char)d[3], size; memcpy(&size, d + 4, 4); bool close = d[8] != 0;
        p->s = s;
        if (close) app_closing(c);
        for (uint32_t i = 0; i < cnt; i++) do_write(p, size, close && i + 1 == cnt);
        answered++;
    }
    void app_closing(cl::ConnP) {}
    void act_connect(StSession &s, cl::ConnP c, bool ok, void *data) { // an outgoing connection: its parameter is the peer
        Peer *p = (Peer *)data;
        if (!data) { L l(this); p = joining; joining = 0; }
        if (!p) return;
        if (!ok) { fail("dial-out", "connect to a listening peer reported as failed"); return; }
        { L l(this); p->s = s; p->sent0 = ni::sent()[s.iFd]; owner[s.iFd] = p; peer[c.get()] = p; p->c = c; }
        if (p->greet) do_write(p, p->greet, false); // inside of the notification
    }
    std::atomic<int> answered; Peer *joining; // the one that is connecting to the server
    Mon() : maxbuf(0), answered(0), joining(0) { keep_packets = false; }
};
struct Cfg { uint32_t init, max; int port, id, cli; Mon *mon; };
static std::vector<Cfg> S;
static std::string pkt(int cnt, uint32_t size, bool close) { std::string r; r += (char)2; r += (char)0; r += (char)10; r += (char)cnt; r.append((char *)&size, 4); r += (char)close; r += (char)3; return r; }

static void drain(Peer &p, size_t max, int ms) {
    std::string x; int st = ni::recv_some(p.fd, x, max, ms);
    for (size_t i = 0; i < x.size(); i++)
        if ((unsigned char)x[i] != gen(p.stream, p.n_got + i) && !p.wrong) {
            p.wrong = true;
            fail("bytes", fmt("byte %llu of the stream is wrong (%zu received in this read); accepted %llu, refused %d; history%s", (unsigned long long)(p.n_got + i), x.size(), (unsigned long long)p.accepted, p.refused, p.log.substr(0, 600).c_str()));
        }
    p.n_got += x.size(); count("bytes", x.size());
    if (st == 0) p.eof = true;
    if (st == -2) { p.eof = true; p.log += " reset"; }
}
static int g_sink, g_sinkport;
static Peer *join(Cfg &c, Rng &r, size_t sizes) {
    Mon &m = *c.mon; Peer *p = new Peer(); p->stream = r.next(); p->open = true; int rcv = r.chance(70) ? 2048 + (int)r.below(4000) : 0;
    if (r.chance(35)) { // the manager connects
        ni::AsHarness h; 
        p->greet = r.chance(50) ? (uint32_t)(1 + r.edge(std::min<size_t>(sizes, c.max / 3))) : 0;
        int fd = -1;
        if (!cl::on_loop([&]() { fd = cl::mgr().connect(c.cli, ni::my_ip(), g_sinkport, p); }) || fd < 0) { fail("dial-out", "connect failed"); return 0; }
        if (!ni::readable(g_sink, 20000)) { fail("dial-out", "connection does not arrive"); return 0; }
        p->fd = ::accept(g_sink, 0, 0); ni::own(p->fd);
        if (!ni::wait_for([&]() { cl::Monitor::L l(&m); return !!p->c; })) { fail("dial-out", "no connect notification"); return 0; }
        cl::on_loop([]() {}); // the notification is over
        count("outgoing");
    } else {
        p->greet = r.chance(30) ? (uint32_t)(1 + r.edge(std::min<size_t>(sizes, c.max / 3))) : 0;
        { cl::Monitor::L l(&m); m.joining = p; }
        p->fd = ni::dial(c.port, rcv);
        if (p->fd < 0) { fail("dial", "cannot connect"); return 0; }
        p->lport = cl::local_port(p->fd);
        if (!ni::wait_for([&]() { cl::Monitor::L l(&m); return !!p->c; })) { fail("accept", "no connect notification"); return 0; }
        cl::on_loop([]() {});
    }
    if (p->greet) count("greeted");
    return p;
}
static void settle(Peer &p, const char *when) { // nothing more is written: what was accepted arrives all the same
    if (p.want_close || p.refused_cut || p.eof) return;
    uint64_t end = now_us() + 20000000;
    while (p.n_got < p.accepted && !p.eof && !p.wrong && now_us() < end) drain(p, 100000, 20);
    VT_CHECK(p.n_got >= p.accepted || p.wrong, p.eof ? "ended" : "stuck", fmt("%s: %llu bytes accepted, %llu arrived, then %s; history%s", when, (unsigned long long)p.accepted, (unsigned long long)p.n_got, p.eof ? "the connection ended" : "nothing for 20 s", p.log.substr(0, 600).c_str()));
    if (p.n_got < p.accepted && !p.eof) die_now();
    count("settled");
}
static void one(Rng &r, uint64_t) {
    Cfg &c = S[r.below(S.size())]; Mon &m = *c.mon; m.maxbuf = c.max; m.answered = 0;
    ni::cfg().seed = r.next();
    ni::cfg().send_max = r.chance(50) ? (r.chance(30) ? 20 : 1 + (int)r.below(5000)) : 0;
    ni::cfg().send_again = r.chance(50) ? (int)r.below(70) : 0; ni::cfg().send_eintr = r.chance(30) ? 20 : 0;
    ni::cfg().recv_max = r.chance(30) ? 7 : 0;
    int k = 1 + (int)r.below(4);
    std::vector<Peer *> P;
    cur_append(fmt("buffers %u..%u, %d peers, send_max %d again %d%%\n", c.init, c.max, k, (int)ni::cfg().send_max, (int)ni::cfg().send_again));
    size_t sizes = r.chance(60) ? 300 : r.chance(60) ? c.max / 3 : 300000;
    std::vector<Peer *> gone;
    for (int i = 0; i < k; i++) { Peer *p = join(c, r, sizes); if (!p) return; P.push_back(p); if (p->greet && r.chance(50)) settle(*p, "after the greeting"); }
    int n = 10 + (int)r.below(40); uint64_t h = 0;
    for (int i = 0; i < n; i++) {
        Peer &p = *P[r.below(P.size())]; int op = (int)r.below(100); h = h * 7 + op / 20;
        if (op < 45) { // one or several writes on the loop thread
            int w = r.chance(30) ? 1 + (int)r.below(8) : 1; bool close = r.chance(4);
            std::vector<uint32_t> sz; for (int j = 0; j < w; j++) sz.push_back((uint32_t)(r.chance(3) ? 0 : r.edge(sizes)));
            Peer *q = r.chance(30) ? P[r.below(P.size())] : &p;
            if (!cl::on_loop([&]() { for (int j = 0; j < w; j++) m.do_write(j % 2 ? q : &p, sz[j], close && j == w - 1); })) { fail("loop", "event loop does not react"); return; }
            if (close) count("close_writes");
        } else if (op < 60) { // writes from inside onRead, several packets at once
            if (p.want_close || p.refused_cut) continue;
            int packets = 1 + (int)r.below(3), a = m.answered; std::string q; bool close = r.chance(8);
            for (int j = 0; j < packets; j++) q += pkt(1 + (int)r.below(3), (uint32_t)(1 + r.edge(std::min<size_t>(sizes, 5000))), close && j + 1 == packets);
            if (!ni::send_all(p.fd, q)) continue;
            ni::wait_for([&]() { return m.answered >= a + packets || p.refused_cut; }, 20000);
            count("callback_writes", packets); if (close) count("close_writes");
        } else if (op < 90) drain(p, r.chance(50) ? 1 + r.below(2000) : 100000, r.chance(50) ? 0 : 1);
        else if (op < 92) sleep_us(r.below(1500));
        else if (op < 93) settle(p, "between");
        else if (op < 96 && r.chance(50)) { // the peer vanishes, whatever is pending; the descriptor goes to another one
            if (r.chance(50) && !p.refused_cut) cl::on_loop([&]() { m.do_write(&p, (uint32_t)(1 + r.edge(sizes)), true); });
            { cl::Monitor::L l(&m); m.peer.erase(p.c.get()); }
            ni::reset_close(p.fd); p.fd = -1; gone.push_back(&p);
            if (r.chance(70)) ni::wait_for([&]() { cl::Monitor::L l(&m); return !p.c->live; }, 15);
            Peer *q = join(c, r, sizes); if (!q) return;
            for (size_t j = 0; j < P.size(); j++) if (P[j] == &p) { P[j] = q; break; }
            count("vanished");
        }
    }
    if (r.chance(50)) ni::cfg().send_again = 0; // else the loop stays slow
    for (size_t i = 0; i < P.size(); i++) { // a last write with close, accepted sooner or later
        Peer &p = *P[i]; uint64_t end = now_us() + 40000000;
        while (!p.want_close && !p.eof && now_us() < end) {
            uint32_t sz = (uint32_t)(r.chance(10) ? 0 : 1 + r.below(std::min<uint32_t>(c.max, 500)));
            if (p.refused_cut) { drain(p, 100000, 2); continue; }
            cl::on_loop([&]() { if (!p.want_close) m.do_write(&p, sz, true); });
            if (!p.want_close) drain(p, 100000, 1);
        }
        int big = 1 << 20; setsockopt(p.fd, SOL_SOCKET, SO_RCVBUF, &big, sizeof big); // tiny windows make the kernel wait
        while (!p.eof && now_us() < end) drain(p, r.chance(50) ? 3000 : 100000, 20);
        if (p.refused_cut) count("peers_with_refusal");
        if (!p.eof) fail("not-closed", fmt("connection not closed after the write that asked for it; %llu of %llu bytes arrived, history%s", (unsigned long long)p.n_got, (unsigned long long)p.accepted, p.log.substr(0, 600).c_str()));
        else if (p.want_close && !p.refused_cut) { VT_CHECK(p.n_got == p.accepted, p.n_got < p.accepted ? "lost" : "extra", fmt("%llu bytes arrived of %llu accepted, history%s", (unsigned long long)p.n_got, (unsigned long long)p.accepted, p.log.substr(0, 800).c_str())); count("closed_exact"); }
        else { // finished by a refused write of which a part was sent
            VT_CHECK(p.refused_cut && p.n_got == p.cut_max, p.refused_cut ? "truncated" : "dropped", fmt("connection ended at %llu bytes (sent %llu), %llu accepted, refused %d, history%s", (unsigned long long)p.n_got, (unsigned long long)p.cut_max, (unsigned long long)p.accepted, p.refused, p.log.substr(0, 800).c_str()));
            count("cut_connections");
        }
        count("connections"); distinct("history", h ^ fnv(p.log));
        ni::pclose(p.fd);
    }
    { cl::Monitor::L l(&m); m.peer.clear(); m.joining = 0; }
    cl::on_loop([]() {}); // a callback that still writes to one of them ends
    { cl::Monitor::L l(&m); m.peer.clear(); m.owner.clear(); m.live.clear(); m.all.clear(); m.by_port.clear(); }
    if (r.chance(2)) sample(P[0]->log);
    for (size_t i = 0; i < P.size(); i++) delete P[i];
    for (size_t i = 0; i < gone.size(); i++) delete gone[i];
}
int main(int argc, char **argv) {
    init(argc, argv);
    Rng r = case_rng(7777777);
    cl::mgr().init(300);
    static const uint32_t SZ[][2] = {{64, 3000}, {4096, 20000}, {102400, 1024000}, {1000, 1000}};
    for (int i = 0; i < 4; i++) {
        Cfg c; c.init = SZ[i][0]; c.max = SZ[i][1]; c.mon = new Mon;
        c.id = cl::make_srv(SRV_TCP, r.next(), c.port, 1024, 4096, c.init, c.max);
        if (c.id < 0) { fprintf(stderr, "listen\n"); _exit(9); }
        cl::mgr().setProcessor(c.id, c.mon, PKG_H2ST3);
        c.cli = cl::mgr().createClient(1024, 4096, c.init, c.max);
        if (c.cli < 0) { fprintf(stderr, "client\n"); _exit(9); }
        cl::mgr().setProcessor(c.cli, c.mon, PKG_H2ST3); S.push_back(c);
    }
    { ni::AsHarness h; g_sinkport = ni::free_port(r.next()); g_sink = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); sockaddr_in a = ni::addr(ni::my_ip(), g_sinkport); int on = 1; setsockopt(g_sink, SOL_SOCKET, SO_REUSEADDR, &on, sizeof on); if (bind(g_sink, (sockaddr *)&a, sizeof a) || listen(g_sink, 100)) _exit(9); ni::own(g_sink); }
    cl::Loop loop; loop.start();
    cases(one);
    ni::calm(); loop.stop(); ni::count_injected();
    return done();
}
