// C14: worker pools behind the manager: every request once to one worker, every answer once to its own connection.
#include "commloop.h"
#include "schedinj.h"
#ifndef __SANITIZE_THREAD__
#include "memwatch.h"
#endif
#include <sys/resource.h>
#include "CAnyWorkerPool.h"
#include "CHttpWorkerPool.h"
#include "CRawWorkerPool.h"
using namespace vt;
using namespace lce;

enum Kind { RAW, ANY, HTTP, KINDS };
static const int SRV = 6; // two of each kind: a roomy one and one with a tiny queue
static int g_port[SRV], g_id[SRV]; static int g_workers[SRV], g_queue[SRV];
static std::atomic<uint64_t> g_refused[SRV], g_thrown[SRV], g_seen[SRV], g_done[SRV], g_running[SRV], g_odd;

struct Req { uint64_t cli; uint32_t seq; uint32_t delay, size, flags; std::string pad; };
enum { F_CLOSE = 1, F_THROW = 2 };
static std::string answer_body(uint64_t cli, uint32_t seq, uint32_t size, uint64_t h) { // text: http and raw
    std::string s = fmt("A %llu %u %u %llx ", (unsigned long long)cli, seq, size, (unsigned long long)h); Rng r(cli * 1000003 + seq); s += r.alnum(size); return s;
}
// what the monitor knows about clients: the port a client id speaks from, and which requests workers have had
static pthread_mutex_t g_mu = PTHREAD_MUTEX_INITIALIZER; static std::map<uint64_t, int> g_cliport, g_clisrv; static std::set<std::pair<uint64_t, uint32_t> > g_had; static std::map<std::pair<uint64_t, uint32_t>, uint64_t> g_pads;
struct ML { ML() { in_runtime()++; __real_pthread_mutex_lock(&g_mu); } ~ML() { __real_pthread_mutex_unlock(&g_mu); in_runtime()--; } };

static std::atomic<int> g_alive; // worker objects
struct Busy { std::atomic<int> in; Busy() : in(0) { g_alive++; } ~Busy() { g_alive--; } };
struct Boom : std::exception { const char *what() const noexcept { return "boom"; } };
static void boom(uint32_t seq) { switch (seq % 4) { case 0: throw std::runtime_error("boom"); case 1: throw std::logic_error("boom"); case 2: throw Boom(); default: throw std::out_of_range("boom"); } }
static void serve(int srv, Busy &b, StSession &s, const Req &q, std::string &out) {
    if (b.in++ != 0) fail("worker-shared", "one worker object serves two requests at once");
    uint64_t run = ++g_running[srv]; if ((int)run > g_workers[srv]) fail("too-many", fmt("%llu requests at once in a pool of %d", (unsigned long long)run, g_workers[srv]));
    g_seen[srv]++;
    { ML l;
      std::map<uint64_t, int>::iterator p = g_cliport.find(q.cli);
      if (p == g_cliport.end()) fail("invented", "a worker got a request nobody sent");
      else if (p->second != s.getPort()) fail("session", fmt("request of the client at port %d came with the session of port %d", p->second, s.getPort()));
      if (!g_had.insert(std::make_pair(q.cli, q.seq)).second) fail("request-twice", fmt("request %u of client %llu reached the workers twice", q.seq, (unsigned long long)q.cli));
      std::map<std::pair<uint64_t, uint32_t>, uint64_t>::iterator h = g_pads.find(std::make_pair(q.cli, q.seq));
      if (h == g_pads.end() || h->second != fnv(q.pad)) fail("request-bytes", fmt("request %u of client %llu reached the worker changed", q.seq, (unsigned long long)q.cli)); }
    if (q.delay) sleep_us(q.delay);
    out = answer_body(q.cli, q.seq, q.size, fnv(q.pad));
    b.in--; g_running[srv]--;
}
static uint64_t num(const char *&p) { char *e; uint64_t v = strtoull(p, &e, 10); p = *e ? e + 1 : e; return v; }
static bool parse(const std::string &s, Req &q, int &srv) { const char *p = s.c_str(); srv = (int)num(p); q.cli = num(p); q.seq = (uint32_t)num(p); q.delay = (uint32_t)num(p); q.size = (uint32_t)num(p); q.flags = (uint32_t)num(p); size_t o = p - s.c_str(); if (o > s.size()) return false; q.pad = s.substr(o); return true; }

template <int S> struct RawW : CRawWorker { Busy b; void onRequest(CRawRequest &a, CRawResponse &o) {
    std::string &d = a.getReader(); Req q; int srv; if (d.size() < 6 || !parse(d.substr(5, d.size() - 6), q, srv) || srv != S) { fail("request-bytes", "worker got a malformed request"); return; }
    std::string x; serve(S, b, a.getSession(), q, x); if (q.flags & F_CLOSE) o.setCloseFlag(true); g_done[S]++;
    if (q.flags & F_THROW) boom(q.seq);
    size_t t = x.size() + 6; std::string h; h += (char)2; h += (char)(t >> 24); h += (char)(t >> 16); h += (char)(t >> 8); h += (char)t; o.getWriter() = h + x + (char)3; } };
template <int S> struct AnyW : CAnyWorker { Busy b; void onRequest(CAnyRequest &a, CAnyResponse &o) {
    CAnyPackage &p = a.getReader(); Req q; int srv; if (!p.hasKey("q") || !parse((std::string)p["q"], q, srv) || srv != S || p.head().getCmd() != q.seq || p.head().getSeq() != (uint32_t)q.cli) { fail("request-bytes", "worker got a malformed request"); return; }
    std::string x; serve(S, b, a.getSession(), q, x); if (q.flags & F_CLOSE) o.setCloseFlag(true); g_done[S]++;
    if (q.flags & F_THROW) boom(q.seq);
    if (q.seq & 1) o.getWriter().setHead(p.head()); // either the head of the request or a fresh one
    o.getWriter().head().setCmd(q.seq + 1); o.getWriter()["a"] = x; o.getWriter()["n"] = q.seq; } };
template <int S> struct HttpW : CHttpWorker { Busy b; void onRequest(CHttpRequest &a, CHttpResponse &o) {
    CHttpReader &h = a.getReader(); std::string qs; if (h.getCommand() == GET) h.getValue("q", qs); else qs = h.getBody();
    Req q; int srv; if (!parse(qs, q, srv) || srv != S) { fail("request-bytes", "worker got a malformed request"); return; }
    std::string x; serve(S, b, a.getSession(), q, x); if (q.flags & F_CLOSE) o.setCloseFlag(true); g_done[S]++;
    if (q.flags & F_THROW) boom(q.seq);
    o.getWriter().begin(); o.getWriter().setStatusCode(200); o.getWriter() << x; o.getWriter().end(); } };
template <int S> void on_err(const char *m) { if (strcmp(m, "boom") == 0) g_thrown[S]++; else { g_refused[S]++; if (getenv("VT_V")) fprintf(stderr, "%d: %s\n", S, m); } }
#ifndef __SANITIZE_THREAD__
// blocks of the sizes of requests and answers
static const int KEPT = 6; static const size_t kept_size[KEPT] = {sizeof(CRawRequest), sizeof(CRawResponse), sizeof(CAnyRequest), sizeof(CAnyResponse), sizeof(CHttpRequest), sizeof(CHttpResponse)}; static const char *const kept_name[KEPT] = {"raw request", "raw answer", "any request", "any answer", "HTTP request", "HTTP answer"};
static volatile int64_t g_kept[KEPT];
static void kept_malloc(const volatile void *p, size_t n) { mw::on_malloc(p, n); if (vt::in_runtime()) return; for (int i = 0; i < KEPT; i++) if (n == kept_size[i]) __atomic_add_fetch(&g_kept[i], 1, __ATOMIC_RELAXED); }
static void kept_free(const volatile void *p) { mw::on_free(p); if (!p || vt::in_runtime()) return; size_t n = __sanitizer_get_allocated_size(p); for (int i = 0; i < KEPT; i++) if (n == kept_size[i]) __atomic_sub_fetch(&g_kept[i], 1, __ATOMIC_RELAXED); }
#endif
static int g_quiet_err; // some pools run without an error handler
template <class P, int S> CProcessor *make_pool(CTask *&t, bool handler) { P *p = new P; if (handler) p->setErrHandler(on_err<S>); if (p->init(g_workers[S], g_queue[S]) != 0 || p->run() != 0) fail("init", "pool does not start"); t = p; return p; }

// ---- clients ----------------------------------------------------------------------------------
struct Cli { int srv, kind, fd; uint64_t id; uint32_t seq; std::map<uint32_t, Req> open; std::string in; bool closing, ended; uint64_t answered; };
static int hi(int fd) { ni::AsHarness h; if (fd < 0) return fd; int n = fcntl(fd, F_DUPFD_CLOEXEC, 2000); ni::disown(fd); ::close(fd); ni::own(n); return n; }
static uint64_t g_next = 1;
static Cli *join(int srv) {
    Cli *c = new Cli; c->srv = srv; c->kind = srv % KINDS; c->fd = hi(ni::dial(g_port[srv])); c->id = (g_next++) * 100 + st().shard; c->seq = 0; c->closing = c->ended = false; c->answered = 0;
    if (c->fd < 0) { fail("dial", "cannot connect"); delete c; return 0; }
    ML l; g_cliport[c->id] = cl::local_port(c->fd); g_clisrv[c->id] = srv; return c;
}
static std::string make(Cli *c, Rng &r, uint32_t delay, uint32_t flags) {
    Req q; q.cli = c->id; q.seq = ++c->seq; q.delay = delay; q.size = (uint32_t)(r.chance(90) ? r.below(300) : r.below(30000)); q.flags = flags; q.pad = r.alnum(r.chance(85) ? r.below(200) : r.below(2500)); c->open[q.seq] = q;
    { ML l; g_pads[std::make_pair(q.cli, q.seq)] = fnv(q.pad); }
    std::string b = fmt("%d,%llu,%u,%u,%u,%u,", c->srv, (unsigned long long)q.cli, q.seq, q.delay, q.size, q.flags) + q.pad, o;
    switch (c->kind) {
    case RAW: { size_t t = b.size() + 6; o += (char)2; o += (char)(t >> 24); o += (char)(t >> 16); o += (char)(t >> 8); o += (char)t; return o + b + (char)3; }
    case ANY: { CAnyPackage p; AnyHeader h; h.setCmd(q.seq); h.setSeq((uint32_t)q.cli); p.setHead(h); p["q"] = b; p["more"]["x"] = 1; p.encode(); p.setEtx(); p.head().setLen(p.size()); return std::string(p.data(), p.size()); }
    default: if (r.chance(40)) return "GET /x?q=" + b + " HTTP/1.1\r\nHost: h\r\n\r\n"; return fmt("POST /x HTTP/1.1\r\nHost: h\r\nContent-Type: text/plain\r\nContent-Length: %zu\r\n\r\n", b.size()) + b;
    }
}
static void take(Cli *c, const std::string &body) {
    unsigned long long cli, h; unsigned seq, size; int off = 0;
    if (sscanf(body.c_str(), "A %llu %u %u %llx %n", &cli, &seq, &size, &h, &off) != 4 || !off) { fail("answer-bytes", "client got a malformed answer " + show(body)); return; }
    if (cli != c->id) { fail("foreign-answer", fmt("client %llu got the answer to request %u of client %llu", (unsigned long long)c->id, seq, cli)); return; }
    std::map<uint32_t, Req>::iterator i = c->open.find(seq);
    if (i == c->open.end()) { fail("answer-twice", fmt("client got a second or invented answer to its request %u", seq)); return; }
    if (body != answer_body(c->id, seq, i->second.size, fnv(i->second.pad))) fail("answer-bytes", fmt("answer to request %u arrived changed", seq));
    if (i->second.flags & F_THROW) fail("answer-thrown", "answer of a handler that failed");
    c->open.erase(i); c->answered++;
}
static void parse_in(Cli *c) {
    for (;;) {
        std::string &s = c->in;
        if (c->kind == HTTP) {
            size_t e = s.find("\r\n\r\n"); if (e == std::string::npos) return;
            if (s.compare(0, 13, "HTTP/1.1 200 ") != 0) { fail("answer-bytes", "not an HTTP answer: " + show(s)); c->ended = true; return; }
            size_t p = s.find("Content-Length: "); if (p == std::string::npos || p > e) { fail("answer-bytes", "HTTP answer without length"); c->ended = true; return; }
            size_t n = strtoul(s.c_str() + p + 16, 0, 10); if (s.size() < e + 4 + n) return;
            take(c, s.substr(e + 4, n)); s.erase(0, e + 4 + n);
        } else {
            if (s.size() < 5) return; size_t n = ((uint8_t)s[1] << 24) | ((uint8_t)s[2] << 16) | ((uint8_t)s[3] << 8) | (uint8_t)s[4];
            if (s[0] != 2 || n < 6 || n > 200000) { fail("answer-frame", fmt("client of a %s pool got bytes that are no package: ", c->kind == ANY ? "any" : "raw") + hex(s, 60)); c->ended = true; return; }
            if (s.size() < n) return;
            if (s[n - 1] != 3) { fail("answer-frame", "package without end mark"); c->ended = true; return; }
            if (c->kind == RAW) take(c, s.substr(5, n - 6));
            else { try { CAnyPackage p; p.decode(s.data(), n - 1); if (!p.hasKey("a")) fail("answer-bytes", "answer without content"); else take(c, (std::string)p["a"]); if ((uint32_t)p["n"] + 1 != p.head().getCmd()) fail("answer-head", "head of the answer is not the one the handler set"); } catch (std::exception &e) { fail("answer-bytes", std::string("answer cannot be decoded: ") + e.what()); c->ended = true; return; } }
            s.erase(0, n);
        }
    }
}
static void pump(std::vector<Cli *> &v, int ms) { // read what is there
    ni::AsHarness h; std::vector<pollfd> p; for (size_t i = 0; i < v.size(); i++) if (!v[i]->ended) { pollfd f = {v[i]->fd, POLLIN, 0}; p.push_back(f); } else { pollfd f = {-1, 0, 0}; p.push_back(f); }
    if (poll(p.data(), p.size(), ms) <= 0) return;
    for (size_t i = 0; i < v.size(); i++) if (p[i].revents) { char b[65536]; ssize_t k = ::recv(v[i]->fd, b, sizeof b, MSG_DONTWAIT); if (k > 0) { v[i]->in.append(b, k); parse_in(v[i]); } else if (k == 0 || (errno != EAGAIN && errno != EINTR)) { v[i]->ended = true; if (!v[i]->closing) fail("closed", "a connection was closed that nobody asked to close"); } }
}
static void leave(Cli *c, Rng &r) { if (r.chance(50)) ni::reset_close(c->fd); else ni::pclose(c->fd); delete c; }
static bool idle() { for (int i = 0; i < SRV; i++) if (g_running[i] != 0) return false; return true; }
static int baseline;
static uint64_t total_answers = 0;

static void one(Rng &r, uint64_t) {
    si::begin(r); ni::cfg().seed = r.next(); ni::cfg().recv_max = r.chance(30) ? 200 : 0; ni::cfg().send_max = r.chance(20) ? 3000 : 0; ni::cfg().send_again = r.chance(20) ? 10 : 0; /* no injected EAGAIN on receive: the pool reports it like a refusal */
    std::vector<Cli *> v; int only = r.chance(40) ? (int)r.below(SRV) : -1; bool leavers = r.chance(60), closers = r.chance(30), throwers = r.chance(45);
    uint64_t sent[SRV] = {0}, first_id = g_next, ref0[SRV], thrown0[SRV], answered = 0, want_throw[SRV] = {0}; bool sure[SRV]; for (int i = 0; i < SRV; i++) { ref0[i] = g_refused[i]; thrown0[i] = g_thrown[i]; sure[i] = true; }
    auto had = [&](int srv) { uint64_t n = 0; ML l; for (std::set<std::pair<uint64_t, uint32_t> >::iterator i = g_had.lower_bound(std::make_pair(first_id * 100, 0u)); i != g_had.end(); ++i) n += g_clisrv[i->first] == srv; return n; }; // requests of this case that reached a worker
    auto add = [&]() { Cli *c = join(only >= 0 ? only : (int)r.below(SRV)); if (c) v.push_back(c); };
    int n0 = 1 + (int)r.below(12); for (int i = 0; i < n0; i++) add();
    int acts = 20 + (int)r.below(60); uint64_t hist = 0; std::vector<Cli *> none;
    for (int a = 0; a < acts && !v.empty(); a++) {
        size_t j = r.below(v.size()); Cli *c = v[j]; int op = (int)r.below(10); hist = hist * 31 + op * 8 + c->srv;
        if (op < 6 && !c->closing) {
            int m = 1 + (int)r.below(r.chance(30) ? 12 : 3); std::string o;
            for (int k = 0; k < m; k++) { uint32_t fl = 0; if (throwers && r.chance(10)) { fl |= F_THROW; } o += make(c, r, r.chance(40) ? (uint32_t)r.below(1500) : 0, fl); sent[c->srv]++; if (fl & F_THROW) want_throw[c->srv]++; }
            if (!ni::send_all(c->fd, o)) fail("send", "cannot send to the server");
            count("requests", m);
            if (leavers && r.chance(25)) { // gone with requests under way; the next connection takes the descriptor
                for (auto &q : c->open) (void)q; sure[c->srv] = false; int s = c->srv; leave(c, r); v.erase(v.begin() + j); count("left_early");
                Cli *d = join(s); if (d) { v.push_back(d); std::string x = make(d, r, 0, 0); sent[s]++; ni::send_all(d->fd, x); count("requests"); }
            }
        } else if (op == 6 && closers && !c->closing) { // an answer that ends the connection
            std::string x = make(c, r, 0, F_CLOSE); c->closing = true; sent[c->srv]++; if (!ni::send_all(c->fd, x)) fail("send", "cannot send to the server"); count("closing_answers"); count("requests");
        } else if (op == 7) { if (v.size() < 30) add(); }
        else if (op == 8) pump(v, 0);
        else sleep_us(r.below(800));
    }
    // everything accepted is answered
    auto settled = [&]() { pump(v, 1); for (int i = 0; i < SRV; i++) if (sure[i] && had(i) + (g_refused[i] - ref0[i]) < sent[i] && !(g_queue[i] < 100 && i == g_quiet_err)) return false;
        if (!idle()) return false;
        for (size_t i = 0; i < v.size(); i++) { Cli *c = v[i]; if (c->closing && !c->ended && g_queue[c->srv] > 100) return false; if (c->closing || c->ended) continue; for (auto &q : c->open) { if (q.second.flags & F_THROW) continue; ML l; if (g_queue[c->srv] > 100 || g_had.count(std::make_pair(c->id, q.first))) return false; } }
        return true; };
    uint64_t end = now_us() + 30000000; bool ok = false; while (!(ok = settled()) && now_us() < end) ;
    if (!ok) { std::string w; for (int i = 0; i < SRV; i++) w += fmt(" [sent %llu seen %llu refused %llu running %llu]", (unsigned long long)sent[i], (unsigned long long)had(i), (unsigned long long)(g_refused[i] - ref0[i]), (unsigned long long)g_running[i]);
        size_t open = 0; for (size_t i = 0; i < v.size(); i++) if (!v[i]->closing) open += v[i]->open.size(); fail("unanswered", fmt("requests without answer 30 s later: %zu open;", open) + w); die_now(); }
    sleep_us(500); pump(v, 0); // nothing more comes
    for (int i = 0; i < SRV; i++) {
        if (sure[i] && i != g_quiet_err) { uint64_t got = had(i) + (g_refused[i] - ref0[i]); if (got != sent[i]) fail("conservation", fmt("%llu requests sent, %llu reached a worker or were reported as refused", (unsigned long long)sent[i], (unsigned long long)got)); count("conserved"); }
        if (g_queue[i] > 100 && sure[i]) VT_CHECK(g_refused[i] == ref0[i], "refused", "a request was refused though the queue was not full");
        count("refused", g_refused[i] - ref0[i]); count("handler_failures", g_thrown[i] - thrown0[i]);
    }
    for (size_t i = 0; i < v.size(); i++) { answered += v[i]->answered; Cli *c = v[i]; if (!c->closing && g_queue[c->srv] > 100) for (auto &q : c->open) if (!(q.second.flags & F_THROW)) fail("unanswered", fmt("request %u has no answer", q.first)); }
    count("answers", answered); distinct("history", hist); total_answers += answered;
    for (size_t i = 0; i < v.size(); i++) leave(v[i], r);
    si::end();
    VT_CHECK(ni::wait_for([&]() { return vt::open_fds() == baseline && idle(); }, 20000), "fd-leak", fmt("%d descriptors more than before", vt::open_fds() - baseline));
    cl::on_loop([]() {});
    VT_CHECK(ni::cfg().n_bad_close == 0 && ni::cfg().n_foreign_close == 0, "double-close", "a descriptor was closed twice or was not the manager's"); ni::cfg().n_bad_close = 0; ni::cfg().n_foreign_close = 0;
    if (st().violations) die_now();
}
int main(int argc, char **argv) {
    init(argc, argv);
    struct rlimit rl; getrlimit(RLIMIT_NOFILE, &rl); rl.rlim_cur = std::min<rlim_t>(rl.rlim_max, 8192); setrlimit(RLIMIT_NOFILE, &rl);
#ifndef __SANITIZE_THREAD__
    __sanitizer_install_malloc_and_free_hooks(kept_malloc, kept_free);
#endif
    Rng r = case_rng(5555); cl::mgr().init(200); CTask *t[SRV]; CProcessor *p[SRV];
    for (int i = 0; i < SRV; i++) { g_workers[i] = 1 + (int)r.below(i < 3 ? 8 : 3); g_queue[i] = i < 3 ? 100000 : 1 + (int)r.below(4); }
    g_quiet_err = 3 + (int)r.below(3); // this one has no error handler
    // memory that held something else before
    for (int i = 0; i < 20; i++) { std::vector<char *> m; for (int k = 0; k < 50; k++) { char *x = (char *)malloc(200 + k * 16); memset(x, 0xbe, 200 + k * 16); m.push_back(x); } for (size_t k = 0; k < m.size(); k++) free(m[k]); }
    p[0] = make_pool<CRawWorkerPool<RawW<0> >, 0>(t[0], true); p[1] = make_pool<CAnyWorkerPool<AnyW<1> >, 1>(t[1], true); p[2] = make_pool<CHttpWorkerPool<HttpW<2> >, 2>(t[2], true);
    p[3] = make_pool<CRawWorkerPool<RawW<3> >, 3>(t[3], g_quiet_err != 3); p[4] = make_pool<CAnyWorkerPool<AnyW<4> >, 4>(t[4], g_quiet_err != 4); p[5] = make_pool<CHttpWorkerPool<HttpW<5> >, 5>(t[5], g_quiet_err != 5);
    for (int i = 0; i < SRV; i++) { g_id[i] = cl::make_srv(SRV_TCP, r.next(), g_port[i], 256, 100000, 1000, 4000000); if (g_id[i] < 0) _exit(9); cl::mgr().setProcessor(g_id[i], p[i], i % KINDS == HTTP ? PKG_HTTP : PKG_H2LT3); }
    cl::Loop loop; loop.start(); cl::on_loop([]() {}); baseline = vt::open_fds();
#ifndef __SANITIZE_THREAD__
    int64_t kept0[KEPT] = {0};
#endif
    int64_t base = 0; uint64_t base_case = 0; (void)base; (void)base_case;
    cases([&](Rng &q, uint64_t i) { one(q, i);
#ifndef __SANITIZE_THREAD__
        if (i + 1 == st().cases / 2) { base = mw::g_live; base_case = total_answers; for (int k = 0; k < KEPT; k++) kept0[k] = g_kept[k]; }
#endif
    });
#ifndef __SANITIZE_THREAD__
    if (st().cases >= 20 && st().only < 0) { int64_t grown = mw::g_live - base; VT_CHECK(grown < 60000, "leak", fmt("%lld bytes more in use after %llu more answers, with no client left", (long long)grown, (unsigned long long)(total_answers - base_case))); for (int k = 0; k < KEPT; k++) { if (getenv("VT_V")) fprintf(stderr, "%s %zu: %lld\n", kept_name[k], kept_size[k], (long long)(g_kept[k] - kept0[k])); if (g_kept[k] - kept0[k] > 12) fail("kept", fmt("%lld blocks of the size of a %s more than before, with nothing under way", (long long)(g_kept[k] - kept0[k]), kept_name[k])); }
        count("leak_checks"); if (getenv("VT_V")) fprintf(stderr, "grown %lld\n", (long long)grown); }
#endif
    ni::calm();
    // pools go while their workers are busy
    { std::vector<Cli *> v; for (int i = 0; i < SRV; i++) { Cli *c = join(i); if (!c) continue; v.push_back(c); c->closing = true; std::string o; for (int k = 0; k < 20; k++) o += make(c, r, 2000, 0); ni::send_all(c->fd, o); }
      sleep_us(2000); loop.stop(); for (int i = 0; i < SRV; i++) delete t[i]; count("pools_stopped_busy", SRV); VT_CHECK(g_alive == 0, "workers-kept", fmt("%d worker objects are left when the pools are gone", (int)g_alive)); for (size_t i = 0; i < v.size(); i++) leave(v[i], r); }
    ni::count_injected(); si::report();
    return done();
}
