// C07: packet framing, on the filters themselves and through the manager's receive loop.
#include "commloop.h"
using namespace vt;
using namespace lce;

enum Kind { K_SHORT, K_LONG, K_RAW, K_HTTP, K_LINES, K_N };
static const char *KN[] = {"h2st3", "h2lt3", "raw", "http", "custom"};

// a filter of the application: packets end with a newline
struct LineFilter : CPackageFilter {
    int isWholePkg(const char *p, const int n, int &real, int &len) {
        const char *e = (const char *)memchr(p, '\n', n);
        if (!e) return -1;
        if (e == p) return -2;
        len = (int)(e - p) + 1; real = len - 1; return 0;
    }
    const char *getRealPkgData(const char *p, const int) { return p; }
};

static std::string mk_short(const std::string &pl) { size_t t = pl.size() + 4; std::string r; r += (char)2; r += (char)(t >> 8); r += (char)t; return r + pl + (char)3; }
static std::string mk_long(const std::string &pl) { size_t t = pl.size() + 6; std::string r; r += (char)2; r += (char)(t >> 24); r += (char)(t >> 16); r += (char)(t >> 8); r += (char)t; return r + pl + (char)3; }
static std::string mk_http(Rng &r, size_t body, bool with_body) {
    static const char *CL[] = {"Content-Length: ", "content-length: ", "Content-Length:", "CONTENT-LENGTH: ", "Content-length:  ", "Content-Length:\t", "Content-Length: \t "};
    bool resp = r.chance(30);
    std::string h = resp ? fmt("HTTP/1.1 %d OK\r\n", (int)r.range(200, 505)) : (with_body ? "POST /" : "GET /") + r.alnum(r.below(20)) + " HTTP/1.1\r\n";
    std::vector<std::string> hs;
    int n = (int)r.below(5);
    for (int i = 0; i < n; i++) hs.push_back(std::string("X-") + r.alnum(1 + r.below(8)) + ": " + r.alnum(r.below(30)) + "\r\n");
    if (r.chance(15)) hs.push_back(fmt("X-Content-Length: %d\r\n", (int)r.below(100)));
    if (r.chance(15)) hs.push_back(fmt("X-Note: see Content-Length: %d\r\n", (int)r.below(100)));
    if (with_body || r.chance(30)) hs.insert(hs.begin() + r.below(hs.size() + 1), std::string(r.chance(70) ? CL[0] : CL[r.below(7)]) + fmt("%zu", with_body ? body : 0) + (r.chance(85) ? "" : r.chance(50) ? " " : "\t ") + "\r\n");
    for (size_t i = 0; i < hs.size(); i++) h += hs[i];
    h += "\r\n";
    if (!with_body) return h;
    std::string b = r.bytes(body);
    if (r.chance(20)) { std::string t = "\r\n\r\nContent-Length: 7\r\n\r\nHTTP"; for (size_t i = 0; i < t.size() && i < b.size(); i++) b[i] = t[i]; }
    return h + b;
}
static std::string packet(Rng &r, int k, size_t max, std::string *payload = 0) {
    std::string pl;
    switch (k) {
    case K_SHORT: pl = r.bytes(r.edge(std::min<size_t>(max - 4, 65535 - 4))); if (payload) *payload = pl; return mk_short(pl);
    case K_LONG: pl = r.bytes(r.edge(max - 6)); if (payload) *payload = pl; return mk_long(pl);
    case K_RAW: pl = r.bytes(1 + r.edge(max - 1)); if (payload) *payload = pl; return pl;
    case K_HTTP: {
        bool wb = r.chance(60); std::string p;
        for (int i = 0; ; i++) { p = mk_http(r, r.edge(max > 600 ? max - 400 : max / 4), wb && i < 20); if (p.size() <= max) break; }
        if (payload) *payload = p; return p; }
    default: pl = r.alnum(1 + r.edge(max - 2)); if (payload) *payload = pl; return pl + "\n";
    }
}
static CPackageFilter *filter(int k) {
    switch (k) { case K_SHORT: return new CH2ShortT3PackageFilter; case K_LONG: return new CH2T3PackageFilter; case K_RAW: return new CRawPackageFilter; case K_HTTP: return new CHttpPackageFilter; default: return new LineFilter; }
}
// a byte string no sequence of packets can start with; min: bytes after which the filter must have noticed
static std::string garbage(Rng &r, int k, size_t &need) {
    std::string s;
    switch (k) {
    case K_SHORT:
        if (r.chance(40)) { s = r.bytes(4 + r.below(60)); while (s[0] == 2) s[0] = (char)r.next(); need = 4; return s; }
        if (r.chance(50)) { s = mk_short(""); s[1] = 0; s[2] = (char)r.below(4); s += r.bytes(r.below(40)); need = 4; return s; }
        s = mk_short(r.bytes(r.below(200))); s[s.size() - 1] = (char)(4 + r.below(250)); need = s.size(); return s;
    case K_LONG:
        if (r.chance(40)) { s = r.bytes(6 + r.below(60)); while (s[0] == 2) s[0] = (char)r.next(); need = 6; return s; }
        if (r.chance(30)) { s = mk_long(""); s[1] = s[2] = s[3] = 0; s[4] = (char)r.below(6); s += r.bytes(r.below(40)); need = 6; return s; }
        if (r.chance(50)) { s = mk_long(""); s[1] = (char)(0x80 | r.next()); s[2] = (char)r.next(); if (r.chance(30)) s.replace(1, 4, 4, (char)0xff); s += r.bytes(r.below(40)); need = 6; return s; }
        s = mk_long(r.bytes(r.below(200))); s[s.size() - 1] = (char)(4 + r.below(250)); need = s.size(); return s;
    case K_HTTP: {
        static const char *V[] = {"-1", "-5", "99999999999", "4294967296", "18446744073709551617", "abc", "2147483648", "-2147483648", "5x", "", "0x10", "1 2", "2147483647", "2147483640", "9223372036854775808"};
        s = std::string("POST / HTTP/1.1\r\nContent-Length: ") + V[r.below(15)] + "\r\n\r\n"; need = s.size(); s += r.bytes(r.below(50)); return s; }
    default: s = "\n" + r.alnum(r.below(30)); need = 1; return s;
    }
}

// ---- the filters themselves --------------------------------------------------------------
static void run_filters(Rng &r, uint64_t) {
    for (int k = 0; k < K_N; k++) {
        std::auto_ptr<CPackageFilter> f(filter(k));
        for (int i = 0; i < 4; i++) {
            std::string pl, p = packet(r, k, r.chance(80) ? 700 : 70000, &pl), after = r.chance(50) ? packet(r, k, 300) : "";
            if (r.chance(20)) after += r.bytes(r.below(20));
            std::string s = p + after;
            distinct("packets", fnv(s));
            // prefixes: all of a short stream, interesting ones of a long one
            std::vector<size_t> cuts;
            if (s.size() <= 400) for (size_t n = 0; n <= s.size(); n++) cuts.push_back(n);
            else { for (size_t n = 0; n < 12; n++) cuts.push_back(n); for (int n = 0; n < 40; n++) cuts.push_back(r.below(s.size() + 1)); for (int d = -4; d < 5; d++) if (p.size() + d <= s.size()) cuts.push_back(p.size() + d); cuts.push_back(s.size()); }
            for (size_t c = 0; c < cuts.size(); c++) {
                size_t n = cuts[c]; Exact e(s.substr(0, n));
                int real = -77, len = -77, rc = f->isWholePkg(e.p, (int)n, real, len);
                count("decisions");
                if (k == K_RAW) {
                    VT_CHECK(n == 0 ? rc != 0 : (rc == 0 && len == (int)n && real == (int)n), "raw", fmt("%zu bytes: %d len %d", n, rc, len));
                    continue;
                }
                if (n < p.size()) { VT_CHECK(rc == -1, fmt("incomplete:%s", KN[k]), fmt("%zu of %zu bytes of a valid packet: verdict %d, must wait; %s", n, p.size(), rc, show(p).c_str())); }
                else {
                    bool ok = rc == 0 && len == (int)p.size() && real == (int)pl.size();
                    VT_CHECK(ok, fmt("whole:%s", KN[k]), fmt("%zu bytes with a valid packet of %zu (content %zu): verdict %d len %d real %d; %s", n, p.size(), pl.size(), rc, len, real, show(p).c_str()));
                    if (ok) VT_CHECK(std::string(f->getRealPkgData(e.p, (int)n), real) == pl, fmt("content:%s", KN[k]), "content of the packet differs");
                }
            }
        }
        if (k == K_RAW) continue;
        for (int i = 0; i < 6; i++) {
            size_t need; std::string g = garbage(r, k, need);
            for (size_t n = 0; n <= g.size(); n++) {
                Exact e(g.substr(0, n)); int real = -77, len = -77, rc = f->isWholePkg(e.p, (int)n, real, len);
                count("hostile_decisions");
                VT_CHECK(rc != 0, fmt("accepted:%s", KN[k]), fmt("invalid stream accepted as packet of %d at %zu bytes: %s", len, n, hex(g).c_str()));
                if (n >= need) VT_CHECK(rc == -2, fmt("not-rejected:%s", KN[k]), fmt("invalid stream not rejected at %zu bytes: %s", n, show(g).c_str()));
            }
        }
        for (int i = 0; i < 30; i++) { // anything: no access outside, sane lengths
            std::string g = r.chance(50) ? r.bytes(r.edge(80)) : packet(r, k, 200);
            for (int m = 0; m < 3 && !g.empty(); m++) g[r.below(g.size())] = (char)(r.chance(50) ? r.next() : "\r\n\0:-"[r.below(5)]);
            Exact e(g); int real = -77, len = -77, rc = f->isWholePkg(e.p, (int)g.size(), real, len);
            count("hostile_decisions");
            VT_CHECK(rc == 0 || rc == -1 || rc == -2, "verdict", fmt("verdict %d", rc));
            if (rc == 0) VT_CHECK(len > 0 && len <= (int)g.size() && real >= 0 && real <= len, fmt("lengths:%s", KN[k]), fmt("%zu bytes, packet %d, content %d: %s", g.size(), len, real, hex(g).c_str()));
        }
    }
}

// ---- through the manager -----------------------------------------------------------------
struct Srv { int kind, port, id; uint32_t init, max; cl::Monitor *mon; LineFilter *lf; };
static std::vector<Srv> S;
static void setup() {
    static const uint32_t SZ[][2] = {{16, 2000}, {1024, 1024}, {64, 100000}, {10240, 102400}};
    Rng r = case_rng(999999);
    cl::mgr().init(200);
    for (int k = 0; k < K_N; k++)
        for (int z = 0; z < 4; z++) {
            Srv s; s.kind = k; s.init = SZ[z][0]; s.max = SZ[z][1]; s.mon = new cl::Monitor; s.lf = new LineFilter;
            s.id = cl::make_srv(SRV_TCP, r.next(), s.port, s.init, s.max, 4096, 100000);
            if (s.id < 0) { fprintf(stderr, "cannot listen: %s\n", cl::mgr().getErrMsg()); _exit(9); }
            static const int PT[] = {PKG_H2ST3, PKG_H2LT3, PKG_RAW, PKG_HTTP, PKG_EXT};
            cl::mgr().setProcessor(s.id, s.mon, PT[k]);
            if (k == K_LINES) cl::mgr().setPkgFilter(s.id, s.lf);
            S.push_back(s);
        }
}
static void run_loop(Rng &r, uint64_t) {
    Srv &s = S[r.below(S.size())];
    std::vector<std::string> pk; std::string stream;
    size_t budget = r.chance(80) ? 3000 : 60000; int n = 1 + (int)r.below(r.chance(70) ? 6 : 40);
    for (int i = 0; i < n && (i == 0 || stream.size() < budget); i++) {
        std::string p = packet(r, s.kind, r.chance(15) ? s.max : std::min<size_t>(s.max, 300));
        if (s.kind != K_RAW && r.chance(10) && s.kind <= K_LONG && s.max < 65536) { // exactly the largest packet
            p = s.kind == K_SHORT ? mk_short(r.bytes(s.max - 4)) : mk_long(r.bytes(s.max - 6)); count("max_packets");
        }
        pk.push_back(p); stream += p;
    }
    int bad = s.kind == K_RAW ? 0 : (int)r.below(5); // 1: garbage after the packets, 2: a packet that can never fit
    std::string tail; bool must_reject = false;
    if (bad == 1) { size_t need; tail = garbage(r, s.kind, need); must_reject = true; }
    if (bad == 2) {
        if (s.kind == K_SHORT && s.max < 60000) { tail = mk_short(r.bytes(s.max - 4 + 1 + r.below(1000))); must_reject = true; }
        if (s.kind == K_LONG) { tail = mk_long(r.bytes(s.max - 6 + 1 + r.below(1000))); must_reject = true; }
        if (s.kind == K_HTTP) { tail = "GET /" + r.alnum(s.max + 10) + " HTTP/1.1\r\n\r\n"; must_reject = true; }
        if (s.kind == K_LINES) { tail = r.alnum(s.max + 1 + r.below(100)) + "\n"; must_reject = true; }
        if (must_reject) count("oversized");
    }
    if (bad == 3) { std::string p = packet(r, s.kind, std::min<size_t>(s.max, 300)); tail = p.substr(0, r.below(p.size())); } // incomplete at the end
    ni::cfg().seed = r.next();
    ni::cfg().recv_max = r.chance(60) ? (r.chance(40) ? 1 : 1 + (int)r.below(100)) : 0;
    ni::cfg().recv_again = r.chance(20) ? 10 : 0; ni::cfg().recv_eintr = r.chance(20) ? 10 : 0;
    if (stream.size() + tail.size() > 20000 && ni::cfg().recv_max && ni::cfg().recv_max < 50) ni::cfg().recv_max = 500;
    cur_append(fmt("server %s buffers %u..%u, %zu packets, %zu bytes, tail %d of %zu, recv_max %d\n", KN[s.kind], s.init, s.max, pk.size(), stream.size(), bad, tail.size(), (int)ni::cfg().recv_max));
    int fd = ni::dial(s.port);
    if (fd < 0) { fail("dial", "cannot connect"); return; }
    int lp = cl::local_port(fd);
    std::string all = stream + tail; size_t o = 0;
    while (o < all.size()) {
        size_t k = r.chance(50) ? 1 + r.below(40) : 1 + r.below(all.size() - o);
        k = std::min(k, all.size() - o);
        if (all.size() > 5000) k = std::min(all.size() - o, k + 1500);
        if (!ni::send_all(fd, all.substr(o, k))) break; // the server may have rejected already
        o += k;
        if (r.chance(30)) sleep_us(r.below(200));
    }
    // wait for the packets
    cl::ConnP c; size_t want = stream.size();
    ni::wait_for([&]() { c = s.mon->by_peer(lp); if (!c) return false; cl::Monitor::L l(s.mon); return c->nbytes >= want || !c->live; }, 30000);
    if (must_reject) {
        std::string x; int st = ni::recv_eof(fd, x, 30000);
        VT_CHECK(st == 0 || st == -2, fmt("stream-kept:%s", KN[s.kind]), "a stream that is no packet sequence was not rejected");
        if (!s.mon->get(c ? c->id : 0)) {}
    }
    ni::pclose(fd);
    bool ended = c && ni::wait_for([&]() { cl::Monitor::L l(s.mon); return !c->live; }, 30000);
    VT_CHECK(ended, "not-closed", "connection not finished after the peer closed it");
    if (!c) { fail("not-accepted", "no connect notification"); return; }
    cl::Monitor::L l(s.mon);
    size_t np = pk.size();
    if (s.kind == K_RAW) {
        std::string got; for (size_t i = 0; i < c->packets.size(); i++) got += c->packets[i];
        VT_CHECK(got == stream, "stream:raw", fmt("received %zu bytes, sent %zu; differ at %zu", got.size(), stream.size(), (size_t)(std::mismatch(got.begin(), got.begin() + std::min(got.size(), stream.size()), stream.begin()).first - got.begin())));
    } else {
        size_t i = 0; for (; i < np && i < c->packets.size() && c->packets[i] == pk[i]; i++) ;
        VT_CHECK(i == np && c->packets.size() == np, fmt("packets:%s", KN[s.kind]), fmt("%zu packets sent, %zu received, first difference at %zu (sent %zu bytes, received %zu); error %d", np, c->packets.size(), i, i < np ? pk[i].size() : 0, i < c->packets.size() ? c->packets[i].size() : 0, c->errcode));
        if (must_reject) VT_CHECK(c->errors == 1, fmt("no-error:%s", KN[s.kind]), "rejection was not reported");
        else VT_CHECK(c->errors == 0, fmt("error:%s", KN[s.kind]), fmt("valid stream reported as error %d", c->errcode));
    }
    count("connections"); count("packets", np); if (must_reject) count("rejected"); if (bad == 3) count("left_incomplete");
    distinct("streams", fnv(all));
    s.mon->all.clear(); s.mon->by_port.clear();
}

int main(int argc, char **argv) {
    init(argc, argv);
    if (mode("filters")) cases(run_filters);
    else {
        setup(); cl::Loop loop; loop.start();
        cases(run_loop);
        ni::calm(); loop.stop();
        for (size_t i = 0; i < S.size(); i++) S[i].mon->report("life:");
        ni::count_injected();
    }
    return done();
}
