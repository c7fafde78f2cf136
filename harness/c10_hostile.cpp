// C10: hostile peers against a server with all framings, while well-behaved clients must be served.
#include "commloop.h"
#include <sys/resource.h>
using namespace vt;
using namespace lce;

enum Kind { K_SHORT, K_LONG, K_RAW, K_HTTP, K_N };
static const int PKG[] = {PKG_H2ST3, PKG_H2LT3, PKG_RAW, PKG_HTTP};
static const int RMAX = 8192;
static int g_port[K_N], g_srv[K_N];
static std::string frame(int k, const std::string &pl) {
    std::string r;
    switch (k) {
    case K_SHORT: { size_t t = pl.size() + 4; r += (char)2; r += (char)(t >> 8); r += (char)t; return r + pl + (char)3; }
    case K_LONG: { size_t t = pl.size() + 6; r += (char)2; r += (char)(t >> 24); r += (char)(t >> 16); r += (char)(t >> 8); r += (char)t; return r + pl + (char)3; }
    case K_RAW: return pl;
    default: return fmt("POST / HTTP/1.1\r\nHost: a\r\nContent-Length: %zu\r\n\r\n", pl.size()) + pl;
    }
}
// payloads starting with 'B' ask for a big answer, with 'C' for an answer and a close
struct Srv : cl::Monitor {
    int k; std::atomic<uint64_t> refused, read_bytes;
    Srv() : refused(0), read_bytes(0) { keep_packets = false; }
    void act_read(StSession &s, cl::ConnP, const char *d, int n) {
        read_bytes += n;
        const char *pl = d; int m = n;
        if (k == K_SHORT) { pl = d + 3; m = n - 4; } else if (k == K_LONG) { pl = d + 5; m = n - 6; }
        else if (k == K_HTTP) { const char *e = (const char *)memmem(d, n, "\r\n\r\n", 4); if (!e) { L l(this); wrong("http-packet", "HTTP packet without head end"); return; } pl = e + 4; m = n - (int)(pl - d); }
        if (m > 0 && pl[0] == 'B') {
            std::string b(400000, 'b');
            if (cl::mgr().write(s, b.data(), (int)b.size(), false) != 0) { refused++; if (m > 1 && pl[1] == 'C') { app_close(s); cl::mgr().close(s); } }
        } else if (m > 0 && pl[0] == 'C') { std::string a = frame(k, std::string(pl, m)); if (cl::mgr().write(s, a.data(), (int)a.size(), true) == 0) app_write_close(s); }
        else { std::string a = frame(k, std::string(pl, m)); cl::mgr().write(s, a.data(), (int)a.size(), false); }
    }
};
static Srv S[K_N];
static int hi(int fd) { ni::AsHarness h; if (fd < 0) return fd; int n = fcntl(fd, F_DUPFD_CLOEXEC, 2000); ni::disown(fd); ::close(fd); ni::own(n); return n; }

// ---- well-behaved clients -------------------------------------------------------------------
static std::atomic<int> g_quit(0), g_keep(0), g_goodfds(0); static std::atomic<uint64_t> g_answers(0), g_slow(0), g_new(0);
static void *good(void *a) {
    ni::harness_thread() = 1;
    Rng r((uint64_t)(size_t)a * 7777 + st().seed);
    int k = (int)(size_t)a % K_N, fd = -1; uint64_t n = 0; bool joining = true;
    while (!g_quit) {
        if (fd < 0) { fd = hi(ni::dial(g_port[k])); if (fd < 0) { fail("good-dial", "a well-behaved client cannot connect"); break; } }
        std::string pl = "g" + r.alnum(r.below(r.chance(90) ? 60 : 5000)); for (size_t i = 0; i < pl.size(); i++) if (pl[i] == 'B' || pl[i] == 'C') pl[i] = 'g'; std::string q = frame(k, pl), x;
        uint64_t t0 = now_us();
        bool sent = true;
        if (r.chance(30) && q.size() > 3) { size_t c = 1 + r.below(q.size() - 1); sent = ni::send_all(fd, q.substr(0, c)); if (k != K_RAW) sleep_us(r.below(500)); sent = sent && ni::send_all(fd, q.substr(c)); }
        else sent = ni::send_all(fd, q);
        int st = sent ? ni::recv_n(fd, x, q.size(), 30000) : -9;
        if (st != 1 || x != q) {
            if (joining && st != -1 && x.empty()) { ni::pclose(fd); fd = -1; sleep_us(1000); continue; } // the server was full
            fail("good-client", fmt("well-behaved client of framing %d got %s (status %d, %zu of %zu bytes) after %llu answers", k, x == q.substr(0, x.size()) ? "no complete answer" : "a wrong answer", st, x.size(), q.size(), (unsigned long long)n)); break;
        }
        joining = false; n++; g_answers++;
        if (now_us() - t0 > 2000000) g_slow++;
        if (g_keep == 0 && r.chance(3)) { ni::pclose(fd); fd = -1; joining = false; g_new++; } // comes back later
        sleep_us(r.below(1500));
        if (fd < 0) joining = true;
    }
    ni::pclose(fd);
    return 0;
}

static uint32_t N; static int baseline, g_bare; // g_bare: port of a service nobody gave a processor to
static bool dropped(int fd, int ms = 20000) { std::string x; int st = ni::recv_eof(fd, x, ms); return st == 0 || st == -2; }
static void one(Rng &r, uint64_t) {
    ni::cfg().seed = r.next(); ni::cfg().recv_max = r.chance(30) ? 40 : 0; ni::cfg().send_max = r.chance(20) ? 3000 : 0; ni::cfg().send_again = r.chance(20) ? 10 : 0; ni::cfg().recv_again = r.chance(20) ? 10 : 0;
    ni::cfg().accept_fail = r.chance(20) ? 20 : 0;
    std::vector<std::pair<int, int> > H; std::string log; uint64_t h = 0;
    auto join = [&](int k, int rcvbuf) { int fd = hi(ni::dial(g_port[k], rcvbuf)); if (fd < 0) { fail("dial", "cannot connect"); return; } H.push_back(std::make_pair(fd, k)); };
    auto leave = [&](size_t i) { if (r.chance(50)) ni::reset_close(H[i].first); else ni::pclose(H[i].first); H.erase(H.begin() + i); };
    std::vector<int> B; auto bare = [&]() { int f = hi(ni::dial(g_bare)); if (f >= 0) { B.push_back(f); count("bare"); } };
    bool flood = r.chance(12); g_keep = flood ? 1 : 0;
    if (flood) sleep_us(20000);
    int acts = 12 + (int)r.below(25);
    for (int i = 0; i < acts; i++) {
        int op = (int)r.below(14); h = h * 17 + op;
        if (H.empty() || H.size() < 4 || (op == 0 && H.size() < 30)) { join((int)r.below(K_N), r.chance(30) ? 2000 : 0); if (H.empty()) return; }
        size_t j = r.below(H.size()); int fd = H[j].first, k = H[j].second;
        log += fmt(" %d", op);
        switch (op) {
        case 1: { // part of a packet, then gone
            std::string p = frame(k, r.alnum(1 + r.below(300))); ni::send_all(fd, p.substr(0, r.below(p.size()))); leave(j); count("vanished"); break; }
        case 2: { // garbage: dropped
            std::string g;
            if (k == K_RAW) break;
            if (k == K_HTTP) { static const char *V[] = {"-1", "99999999999", "abc", "-2147483648", "4294967296"}; g = std::string("POST / HTTP/1.1\r\nContent-Length: ") + V[r.below(5)] + "\r\n\r\n"; }
            else { g = r.bytes(6 + r.below(200)); if (g[0] == 2) g[0] = 7; }
            if (!ni::send_all(fd, g)) { leave(j); break; }
            // earlier partial packets never stay on a connection, so this is the start of a packet
            VT_CHECK(dropped(fd), "garbage-kept", fmt("connection of framing %d still open after garbage", k)); leave(j); count("garbage"); break; }
        case 3: { // lengths that cannot be
            std::string g;
            if (k == K_SHORT) { g += (char)2; g += (char)0; g += (char)r.below(4); }
            else if (k == K_LONG) { g += (char)2; g += (char)(r.chance(50) ? 0xff : 0x80); g += r.bytes(3); g += r.bytes(1 + r.below(100)); }
            else if (k == K_HTTP) g = "POST / HTTP/1.1\r\nContent-Length: 2147483647\r\n\r\n";
            else break;
            if (k == K_SHORT) g += r.bytes(1 + r.below(30));
            if (!ni::send_all(fd, g)) { leave(j); break; }
            VT_CHECK(dropped(fd), "length-kept", fmt("connection of framing %d still open after an impossible length", k)); leave(j); count("bad_length"); break; }
        case 4: { // more than the buffer holds
            if (k == K_RAW) break;
            std::string g;
            if (k == K_SHORT) { g += (char)2; g += (char)0xff; g += (char)0xf0; } else if (k == K_LONG) { g += (char)2; g += (char)0; g += r.bytes(3); if (!g[2]) g[2] = 1; } 
            else g = r.chance(50) ? "POST / HTTP/1.1\r\nContent-Length: 900000\r\n\r\n" : "GET / HTTP/1.1\r\nX: ";
            g += r.alnum(RMAX + r.below(60000));
            ni::send_all(fd, g, 3000);
            VT_CHECK(dropped(fd), "oversize-kept", fmt("connection of framing %d still open after a packet larger than the receive buffer", k)); leave(j); count("oversize"); break; }
        case 5: { // asks for much and does not read
            int m = 1 + (int)r.below(8); std::string q; for (int x = 0; x < m; x++) { std::string pl = r.chance(40) ? "BC" : "B"; q += frame(k, k == K_RAW ? pl : pl + r.alnum(r.below(20))); }
            ni::send_all(fd, q); count("non_reader"); if (r.chance(40)) leave(j); break; }
        case 6: { // gone before the answer
            std::string q; int m = 1 + (int)r.below(5); for (int x = 0; x < m; x++) q += frame(k, r.chance(30) ? "C" + r.alnum(20) : "x" + r.alnum(200));
            ni::send_all(fd, q); if (r.chance(50)) sleep_us(r.below(300)); leave(j); count("early_leaver"); break; }
        case 7: { // half close
            if (r.chance(60)) ni::send_all(fd, frame(k, "h" + r.alnum(30)));
            ::shutdown(fd, SHUT_WR);
            VT_CHECK(dropped(fd), "half-close-kept", "connection still open after the peer ended its stream"); leave(j); count("half_close"); break; }
        case 8: { int m = 1 + (int)r.below(15); for (int x = 0; x < m; x++) { int f = ni::dial(g_port[r.below(K_N)]); if (f >= 0) { if (r.chance(50)) ni::reset_close(f); else ni::pclose(f); } } count("connect_and_vanish", m); break; }
        case 9: { // one byte at a time
            std::string p = frame(k, "s" + r.alnum(8)); for (size_t x = 0; x < p.size(); x++) if (!ni::send_all(fd, p.substr(x, 1))) break; count("slow"); break; }
        case 10: { std::string x; while (ni::recv_some(fd, x, 65536, 0) > 0 && x.size() < 300000) ; break; }
        case 11: { // urgent data and a reset with unread data
            ni::AsHarness ah; ::send(fd, "!", 1, MSG_OOB | MSG_NOSIGNAL | MSG_DONTWAIT); leave(j); count("urgent"); break; }
        case 12: sleep_us(r.below(3000)); break;
        case 13: { // a service without a processor can make nothing of data
            bare(); if (B.empty()) break; int f = B.back(); if (r.chance(50)) { ni::send_all(f, r.alnum(1 + r.below(50))); VT_CHECK(dropped(f), "bare-kept", "connection still open after data to a service without a filter"); ni::pclose(f); B.pop_back(); } else if (r.chance(50)) { ni::reset_close(f); B.pop_back(); } break; }
        }
        if (op == 9 && k != K_RAW) { }
    }
    if (flood) { // more than allowed
        size_t had = H.size();
        for (uint32_t i = 0; i < N + 20; i++) join((int)r.below(K_N), 0);
        for (int i = 0; i < 20; i++) { size_t j = r.below(H.size()); ni::send_all(H[j].first, frame(H[j].second, "f" + r.alnum(10))); }
        for (int i = 0; i < 8; i++) bare();
        sleep_us(5000); count("floods"); (void)had;
    }
    cur_append(log + "\n"); distinct("history", h); if (r.chance(4)) sample(log);
    for (size_t i = 0; i < H.size(); i++) { if (r.chance(40)) ni::reset_close(H[i].first); else ni::pclose(H[i].first); }
    for (size_t i = 0; i < B.size(); i++) { if (r.chance(40)) ni::reset_close(B[i]); else ni::pclose(B[i]); }
    ni::cfg().accept_fail = 0;
    g_keep = 1; // the good ones stay for a moment
    uint64_t a0 = g_answers;
    bool quiet = ni::wait_for([&]() { size_t n = 0; for (int k = 0; k < K_N; k++) n += S[k].n_live(); return n <= K_N && vt::open_fds() <= baseline + 2 * K_N; }, 30000);
    size_t n = 0; for (int k = 0; k < K_N; k++) n += S[k].n_live();
    VT_CHECK(quiet, n > K_N ? "sessions-left" : "fd-leak", fmt("after the hostile peers have gone: %zu sessions for %d clients, %d descriptors more than before", n, K_N, vt::open_fds() - baseline));
    VT_CHECK(ni::wait_for([&]() { return g_answers >= a0 + 4 || g_quit; }, 30000), "stalled", "no well-behaved client is answered any more");
    VT_CHECK(cl::on_loop([]() {}), "loop", "event loop does not react");
    for (int k = 0; k < K_N; k++) { S[k].report("life:"); S[k].forget(); }
    VT_CHECK(ni::cfg().n_bad_close == 0 && ni::cfg().n_foreign_close == 0, "double-close", "a descriptor was closed twice or was not the manager's"); ni::cfg().n_bad_close = 0; ni::cfg().n_foreign_close = 0;
    if (st().violations) die_now();
}
int main(int argc, char **argv) {
    init(argc, argv);
    struct rlimit rl; getrlimit(RLIMIT_NOFILE, &rl); rl.rlim_cur = std::min<rlim_t>(rl.rlim_max, 8192); setrlimit(RLIMIT_NOFILE, &rl);
    Rng r = case_rng(4444);
    N = 80; cl::mgr().init(N);
    for (int k = 0; k < K_N; k++) {
        S[k].k = k; g_srv[k] = cl::make_srv(SRV_TCP, r.next(), g_port[k], 256, RMAX, 1000, 1500000); if (g_srv[k] < 0) _exit(9);
        cl::mgr().setProcessor(g_srv[k], &S[k], PKG[k]);
    }
    if (cl::make_srv(SRV_TCP, r.next(), g_bare, 256, RMAX, 1000, 1500000) < 0) _exit(9);
    cl::Loop loop; loop.start(); cl::on_loop([]() {});
    baseline = vt::open_fds();
    pthread_t t[K_N]; for (size_t i = 0; i < K_N; i++) pthread_create(&t[i], 0, good, (void *)(i + st().shard * K_N));
    cases(one);
    g_quit = 1; for (int i = 0; i < K_N; i++) pthread_join(t[i], 0);
    VT_CHECK(ni::wait_for([&]() { return vt::open_fds() == baseline; }), "fd-leak", fmt("%d descriptors more than before at the end", vt::open_fds() - baseline));
    ni::calm(); loop.stop(); ni::count_injected();
    count("good_answers", g_answers); count("good_reconnects", g_new); for (int k = 0; k < K_N; k++) count("refused_writes", S[k].refused);
    return done();
}
