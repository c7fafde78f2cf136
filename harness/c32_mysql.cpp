// C32: the database client, through the real client library, against a server under our control.
#include "vt.h"
#include <dlfcn.h>
#include <poll.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <atomic>
#include "CMysql.h"
using namespace vt;
using namespace lce;
typedef std::string S;

// ---- what the client does with the library -------------------------------------------------
static std::map<void *, int> g_open; static std::set<void *> g_results; static std::set<void *> g_freed; static uint64_t n_stored, n_freed;
template <class F> static F real(const char *n) { void *p = dlsym(RTLD_NEXT, n); if (!p) { fprintf(stderr, "no %s\n", n); abort(); } return (F)p; }
static void need_open(MYSQL *m, const char *what) { if (!g_open.count(m)) fail("stale-handle", S(what) + " through a connection that is closed or never was opened"); }
extern "C" {
MYSQL *STDCALL mysql_real_connect(MYSQL *m, const char *h, const char *u, const char *p, const char *db, unsigned int port, const char *us, unsigned long fl) {
    static auto f = real<MYSQL *(*)(MYSQL *, const char *, const char *, const char *, const char *, unsigned int, const char *, unsigned long)>("mysql_real_connect");
    static __thread int depth = 0; if (depth) return f(m, h, u, p, db, port, us, fl); // the library's own reconnect
    if (g_open.count(m) && g_open[m] == 1) fail("reopened", "connected again without closing the connection"); depth++; MYSQL *r = f(m, h, u, p, db, port, us, fl); depth--; g_open[m] = r ? 1 : 2; return r; }
void STDCALL mysql_close(MYSQL *m) { static auto f = real<void (*)(MYSQL *)>("mysql_close"); if (m && g_open.count(m)) g_open.erase(m); f(m); }
int STDCALL mysql_real_query(MYSQL *m, const char *q, unsigned long n) { static auto f = real<int (*)(MYSQL *, const char *, unsigned long)>("mysql_real_query"); need_open(m, "a query"); return f(m, q, n); }
int STDCALL mysql_select_db(MYSQL *m, const char *d) { static auto f = real<int (*)(MYSQL *, const char *)>("mysql_select_db"); need_open(m, "selecting a database"); return f(m, d); }
MYSQL_RES *STDCALL mysql_store_result(MYSQL *m) { static auto f = real<MYSQL_RES *(*)(MYSQL *)>("mysql_store_result"); need_open(m, "fetching a result"); MYSQL_RES *r = f(m); if (r) { n_stored++; g_results.insert(r); g_freed.erase(r); } return r; }
void STDCALL mysql_free_result(MYSQL_RES *r) { static auto f = real<void (*)(MYSQL_RES *)>("mysql_free_result"); if (r) { n_freed++; if (!g_results.erase(r)) { fail("result-freed-twice", "a result was released which is not held"); return; } } f(r); }
MYSQL_ROW STDCALL mysql_fetch_row(MYSQL_RES *r) { static auto f = real<MYSQL_ROW (*)(MYSQL_RES *)>("mysql_fetch_row"); if (!g_results.count(r)) { fail("stale-result", "a row of a released result was fetched"); return 0; } return f(r); }
}

// what a result is kept in, counted by its size
extern "C" { int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *)); size_t __sanitizer_get_allocated_size(const volatile void *); }
static volatile int64_t g_kept = 0, g_handles = 0;
static void on_malloc(const volatile void *, size_t n) { if (n == sizeof(MySqlBasicData)) __atomic_add_fetch(&g_kept, 1, __ATOMIC_RELAXED); if (n == sizeof(MYSQL)) __atomic_add_fetch(&g_handles, 1, __ATOMIC_RELAXED); }
static void on_free(const volatile void *p) { size_t n = p ? __sanitizer_get_allocated_size(p) : 0; if (n == sizeof(MySqlBasicData)) __atomic_sub_fetch(&g_kept, 1, __ATOMIC_RELAXED); if (n == sizeof(MYSQL)) __atomic_sub_fetch(&g_handles, 1, __ATOMIC_RELAXED); }
// ---- a server ---------------------------------------------------------------------------------
enum What { OK, ERR, ROWS, SEVERAL, STALL };
struct Field { bool null; S v; Field() : null(false) {} };
struct Result { int kind; uint64_t affected; S err; int code; std::vector<S> cols; std::vector<std::vector<Field> > rows; Result() : kind(OK), affected(0), code(0) {} };
struct Script { std::vector<Result> parts; int drops, cut; // drop the connection so many times before answering; cut: end in the middle of the answer, once
    int stall_ms; Script() : drops(0), cut(0), stall_ms(0) {} };
struct Log { int conn; S db, sql; int charset; };
static struct Server {
    pthread_mutex_t mu; int lfd, port; std::map<S, Script> scripts; std::vector<Log> log; std::set<int> conns; std::atomic<int> n_open, reject, drop_hello; std::atomic<uint64_t> n_conn; uint64_t packet; int next;
    Server() : lfd(-1), port(0), n_open(0), reject(0), drop_hello(0), n_conn(0), packet(0), next(1) { pthread_mutex_init(&mu, 0); }
    void lock() { pthread_mutex_lock(&mu); } void unlock() { pthread_mutex_unlock(&mu); }
} g;
static bool rd(int fd, S &out, size_t n) { out.resize(n); size_t o = 0; while (o < n) { ssize_t k = ::recv(fd, &out[o], n - o, 0); if (k > 0) o += k; else if (k < 0 && errno == EINTR) continue; else return false; } return true; }
static bool get_packet(int fd, S &p, int &seq) { S h; p.clear(); for (;;) { if (!rd(fd, h, 4)) return false; size_t n = (uint8_t)h[0] | (uint8_t)h[1] << 8 | (uint8_t)h[2] << 16; seq = (uint8_t)h[3] + 1; S b; if (!rd(fd, b, n)) return false; p += b; if (n < 0xffffff) return true; } }
static S pk(const S &b, int &seq) { S h; h += (char)b.size(); h += (char)(b.size() >> 8); h += (char)(b.size() >> 16); h += (char)seq++; return h + b; }
static S lenenc(uint64_t v) { S r; if (v < 251) r += (char)v; else if (v < 65536) { r += (char)0xfc; r += (char)v; r += (char)(v >> 8); } else if (v < (1u << 24)) { r += (char)0xfd; for (int i = 0; i < 3; i++) r += (char)(v >> 8 * i); } else { r += (char)0xfe; for (int i = 0; i < 8; i++) r += (char)(v >> 8 * i); } return r; }
static S ls(const S &s) { return lenenc(s.size()) + s; }
static S u16(int v) { S r; r += (char)v; r += (char)(v >> 8); return r; }
static S ok(uint64_t aff, int status) { return S(1, 0) + lenenc(aff) + lenenc(0) + u16(2 | status) + u16(0); }
static S err(int code, const S &m) { return S(1, (char)0xff) + u16(code) + "#42000" + m; }
static S eof(int status) { return S(1, (char)0xfe) + u16(0) + u16(2 | status); }
static S render(const Result &r, int &seq, bool more) {
    int st = more ? 8 : 0; if (r.kind == OK) return pk(ok(r.affected, st), seq); if (r.kind == ERR) return pk(err(r.code, r.err), seq);
    S o = pk(lenenc(r.cols.size()), seq); for (size_t i = 0; i < r.cols.size(); i++) o += pk(ls("def") + ls("db") + ls("t") + ls("t") + ls(r.cols[i]) + ls("o" + r.cols[i]) + S(1, 0x0c) + u16(33) + S("\0\0\1\0", 4) + S(1, (char)253) + u16(0) + S(1, 0) + u16(0), seq);
    o += pk(eof(st), seq); for (size_t i = 0; i < r.rows.size(); i++) { S b; for (size_t j = 0; j < r.rows[i].size(); j++) b += r.rows[i][j].null ? S(1, (char)0xfb) : ls(r.rows[i][j].v); o += pk(b, seq); } return o + pk(eof(st), seq); }
static bool put(int fd, const S &d) { size_t o = 0; while (o < d.size()) { ssize_t k = ::send(fd, d.data() + o, d.size() - o, MSG_NOSIGNAL); if (k > 0) o += k; else if (k < 0 && errno == EINTR) continue; else return false; } return true; }
static void *session(void *p) {
    int fd = (int)(size_t)p; int seq = 0, charset = 0; S db, in; int id; { g.lock(); id = g.next++; g.conns.insert(fd); g.unlock(); } bool good = false;
    if (g.drop_hello > 0) g.drop_hello--; else {
        uint32_t caps = 1 | 4 | 8 | 512 | 8192 | 32768 | 1 << 16 | 1 << 17 | 1 << 19; S hello = S(1, 10) + "5.7.99" + S(1, 0) + S("\1\0\0\0", 4) + "12345678" + S(1, 0) + u16(caps & 0xffff) + S(1, 33) + u16(2) + u16(caps >> 16) + S(1, 21) + S(10, 0) + "901234567890" + S(1, 0) + "mysql_native_password" + S(1, 0);
        if (put(fd, pk(hello, seq)) && get_packet(fd, in, seq)) { if (g.reject > 0) { g.reject--; put(fd, pk(err(1045, "Access denied by the monitor"), seq)); } else good = put(fd, pk(ok(0, 0), seq));
            size_t o = 32; if (in.size() > o) charset = (uint8_t)in[8]; if (in.size() > o && ((uint8_t)in[0] & 8)) { o = in.find('\0', o); if (o != S::npos && o + 1 < in.size()) { o += 2 + (uint8_t)in[o + 1]; if (o < in.size()) db = in.c_str() + o; } } } }
    while (good && get_packet(fd, in, seq) && !in.empty()) {
        int cmd = (uint8_t)in[0]; S arg = in.substr(1);
        if (cmd == 1) break;
        if (cmd == 2) { bool known = arg == "test" || arg == "other"; if (known) db = arg; put(fd, pk(known ? ok(0, 0) : err(1049, "Unknown database " + arg), seq)); continue; }
        if (cmd == 14) { put(fd, pk(ok(0, 0), seq)); continue; }
        if (cmd != 3) { put(fd, pk(err(1047, "Unknown command"), seq)); continue; }
        if (arg.compare(0, 9, "SET NAMES") == 0) { put(fd, pk(ok(0, 0), seq)); continue; } // of the library itself when it reconnects
        Script s; { g.lock(); Log l = {id, db, arg, charset}; g.log.push_back(l); Script &x = g.scripts[arg]; s = x; if (x.drops > 0) x.drops--; else { x.cut = 0; x.stall_ms = 0; } g.unlock(); }
        if (s.drops > 0) break; if (s.stall_ms) sleep_us((uint64_t)s.stall_ms * 1000);
        S o; for (size_t i = 0; i < s.parts.size(); i++) { o += render(s.parts[i], seq, i + 1 < s.parts.size()); if (s.parts[i].kind == ERR) break; } if (s.parts.empty()) o = render(Result(), seq, false);
        if (s.cut) { o.resize(o.size() > 1 ? 1 + (size_t)s.cut % (o.size() - 1) : 0); put(fd, o); break; }
        if (!put(fd, o)) break;
    }
    g.lock(); g.conns.erase(fd); shutdown(fd, SHUT_RDWR); close(fd); g.unlock(); g.n_open--; return 0;
}
static void *acceptor(void *) { for (;;) { int fd = accept(g.lfd, 0, 0); if (fd < 0) continue; int on = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &on, sizeof on); g.n_open++; g.n_conn++; pthread_t t; pthread_create(&t, 0, session, (void *)(size_t)fd); pthread_detach(t); } return 0; }
static void start_server() { g.lfd = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); if (bind(g.lfd, (sockaddr *)&a, sizeof a) || listen(g.lfd, 64)) { perror("server"); abort(); } socklen_t l = sizeof a; getsockname(g.lfd, (sockaddr *)&a, &l); g.port = ntohs(a.sin_port); pthread_t t; pthread_create(&t, 0, acceptor, 0); }
static void kill_all() { g.lock(); for (std::set<int>::iterator i = g.conns.begin(); i != g.conns.end(); ++i) shutdown(*i, SHUT_RDWR); g.unlock(); for (int i = 0; i < 5000 && g.n_open > 0; i++) sleep_us(i < 100 ? 100 : 1000); }

// ---- model -------------------------------------------------------------------------------------
static int cs_number(const S &cs) { return cs == "utf8" ? 33 : cs == "latin1" ? 8 : cs == "utf8mb4" ? 45 : 0; }
struct Held { MySqlData *d; Result m; };
static void compare(const MySqlData &d, const Result &m, Rng &r) {
    if (m.kind == OK) { VT_CHECK(d.affected_rows() == m.affected, "affected", fmt("%llu affected rows reported as %llu", (unsigned long long)m.affected, (unsigned long long)d.affected_rows())); VT_CHECK(d.num_rows() == 0 && d.num_fields() == 0 && d.Fields().empty(), "rows-of-nothing", "rows although there are none"); count("affected"); return; }
    VT_CHECK(d.Fields() == m.cols && d.num_fields() == m.cols.size(), "columns", fmt("%zu columns instead of %zu", d.num_fields(), m.cols.size())); VT_CHECK(d.num_rows() == m.rows.size(), "row-count", fmt("%zu rows instead of %zu", d.num_rows(), m.rows.size())); if (d.num_rows() != m.rows.size()) return;
    for (size_t i = 0; i < m.rows.size(); i++) { if (m.rows.size() > 50 && r.chance(60)) continue; const MySqlRowData &row = d[i]; MySqlRowData copy(row); copy = row;
        for (size_t j = 0; j < m.cols.size(); j++) { const S &v = r.chance(50) ? row[m.cols[j]] : copy[m.cols[j]]; VT_CHECK(v == m.rows[i][j].v, "value", fmt("row %zu column %zu: %s instead of %s", i, j, show(v, 60).c_str(), show(m.rows[i][j].v, 60).c_str())); count("values"); if (m.rows[i][j].null) count("nulls"); } }
    S miss = "no such column"; bool threw = false; if (!m.rows.empty()) { try { d[0][miss]; } catch (const mysql_exception &) { threw = true; } VT_CHECK(threw, "missing-column", "a column that does not exist was returned"); }
    threw = false; try { d[m.rows.size() + r.below(3)]; } catch (const mysql_exception &) { threw = true; } VT_CHECK(threw, "missing-row", "a row that does not exist was returned"); VT_CHECK(d.Fields() == m.cols && d.num_rows() == m.rows.size(), "changed", "looking changed the result"); count("results_compared"); }
static Result random_rows(Rng &r) {
    Result x; x.kind = ROWS; int nc = 1 + (int)r.below(r.chance(1) ? 300 : r.chance(10) ? 40 : 6), nr = (int)r.below(r.chance(10) ? 300 : 8); std::set<S> names;
    for (int i = 0; i < nc; i++) { S n = r.chance(70) ? r.alnum(1 + r.below(10)) : r.chance(50) ? "a b`c'" + r.alnum(2) : r.alnum(60); if (r.chance(3)) n = ""; if (!names.insert(n).second) { i--; continue; } x.cols.push_back(n); }
    for (int i = 0; i < nr; i++) { std::vector<Field> row; for (int j = 0; j < nc; j++) { Field f; if (r.chance(15)) f.null = true; else if (r.chance(50)) f.v = r.alnum(r.below(20)); else f.v = r.bytes(r.chance(3) ? 60000 + r.below(10000) : r.edge(600)); row.push_back(f); } x.rows.push_back(row); }
    return x; }
static S unescape(const S &s, bool &raw) { S o; for (size_t i = 0; i < s.size(); i++) { char c = s[i]; if (c == '\'' || c == '"' || c == 0) raw = true; if (c == '\\' && i + 1 < s.size()) { c = s[++i]; o += c == '0' ? '\0' : c == 'n' ? '\n' : c == 'r' ? '\r' : c == 'Z' ? '\x1a' : c; } else { if (c == '\\') raw = true; o += c; } } return o; }
static uint64_t g_sql = 0;
static void one(Rng &r, uint64_t) {
    g.lock(); g.scripts.clear(); g.log.clear(); g.unlock(); g.reject = g.drop_hello = 0; g_open.clear(); uint64_t st0 = n_stored, fr0 = n_freed; S log; uint64_t h = 1;
    CMySql *c = new CMySql(); bool inited = false, reach = false; S db, charset; bool dbvague = false, dbfree = false, csbad = false; std::vector<Held> H; int steps = 5 + (int)r.below(40), stalls = r.chance(2) ? 1 : 0, patient = (int)r.below(2); c->setConnectTime(stalls && !patient ? 20 : 2); c->setReadTime(stalls && !patient ? 1 : 20); c->setWriteTime(5);
    for (int step = 0; step < steps; step++) {
        int op = (int)r.below(100); count("ops"); S what; bool threw = false; log += fmt(" %d", op); cur(log); h = h * 31 + op;
        try {
            if (op < (inited ? 4 : 40)) { // connect
                int kind = r.chance(75) ? 0 : 1 + (int)r.below(3); inited = true; reach = kind != 1; if (kind == 2) g.reject = 1; if (kind == 3) g.drop_hello = 1; S cs = r.chance(70) ? "" : r.pick(std::vector<S>{"utf8", "latin1", "utf8mb4"}); csbad = false; charset = cs; log += fmt("(init %d)", kind);
                try { c->Init("127.0.0.1", "user", "pass", kind == 1 ? 1 : g.port, cs); } catch (const mysql_exception &e) { threw = true; what = e.what(); } g.reject = g.drop_hello = 0; if (!db.empty()) dbfree = true; // which database a new connection starts with is not said
                VT_CHECK(threw == (kind != 0), threw ? "connect-refused" : "connect-accepted", fmt("connect of kind %d: %s", kind, what.c_str())); if (kind == 2) VT_CHECK(what.find("Access denied") != S::npos, "reason", "the reason of the server is not in: " + what); count(threw ? "connect_failures" : "connects");
            } else if (op < 12) { S n = r.chance(70) ? "test" : r.chance(60) ? "other" : r.chance(70) ? "nowhere" : ""; log += "(use " + n + ")"; try { c->use(n); } catch (const mysql_exception &e) { threw = true; what = e.what(); }
                bool good = inited && reach && n != "nowhere"; if (!csbad) { VT_CHECK(threw == !good, threw ? "use-failed" : "use-accepted", fmt("use of %s: %s", n.c_str(), what.c_str())); if (n == "nowhere" && inited && reach) VT_CHECK(what.find("Unknown database nowhere") != S::npos, "reason", "the reason of the server is not in: " + what); } dbvague = n == "nowhere" || (n.empty() && (dbvague || !db.empty())) ; db = n; dbfree = n.empty() && dbfree; count("uses");
            } else if (op < 15) { S cs = r.pick(std::vector<S>{"utf8", "latin1", "utf8mb4", "no_charset"}); log += "(charset " + cs + ")"; try { c->setCharSet(cs); } catch (const mysql_exception &e) { threw = true; what = e.what(); } csbad = cs == "no_charset"; charset = csbad ? "" : cs; VT_CHECK(csbad || !threw || !inited || !reach || dbvague, "charset", what); count("charsets");
            } else if (op < 22) { S s = r.chance(50) ? r.bytes(r.edge(300)) : S(r.below(50), r.pick(std::vector<char>{'\'', '\\', 0, '\n', 'a', (char)0xc3})); Exact e(s); S o; bool good = inited && reach && !csbad; log += "(escape)"; try { o = r.chance(50) ? c->escape_string(e.p, e.n) : s.find('\0') == S::npos && r.chance(50) ? c->escape_string(s.c_str()) : c->escape_string(s); } catch (const mysql_exception &x) { threw = true; what = x.what(); }
                if (!threw) { bool raw = false; S u = unescape(o, raw); VT_CHECK(u == s && !raw, "escape", show(s) + " became " + show(o)); count("escapes"); } VT_CHECK(!threw || !good || dbvague, "escape-failed", what); VT_CHECK(threw || (inited && reach) || csbad, "escape-unconnected", "escaped without a connection");
            } else if (op < 26) { kill_all(); log += "(kill)"; count("killed"); }
            else if (op < 75) { // query
                Script s; int k = (int)r.below(100); Result x; bool expect_err = false, vague = false, stalled = false, lost = false; S errtext;
                if (k < 25) { x.affected = r.chance(20) ? r.next() >> (1 + r.below(50)) : r.below(5); s.parts.push_back(x); }
                else if (k < 40) { x.kind = ERR; x.code = 1064 + (int)r.below(100); x.err = "Syntax " + r.alnum(8); s.parts.push_back(x); expect_err = true; errtext = x.err; }
                else if (k < 45) { x = random_rows(r); if (x.cols.size() > 1) { x.cols[x.cols.size() - 1] = x.cols[0]; expect_err = true; } s.parts.push_back(x); if (r.chance(40)) { int n = 1 + (int)r.below(2); for (int i = 0; i < n; i++) s.parts.push_back(r.chance(50) ? random_rows(r) : Result()); } } // two columns of one name cannot be told apart: refused
                else if (k < 55) { x = r.chance(50) ? random_rows(r) : Result(); s.parts.push_back(x); int n = 1 + (int)r.below(3); for (int i = 0; i < n; i++) { Result y = r.chance(50) ? random_rows(r) : Result(); if (r.chance(10)) { y.kind = ERR; y.code = 1062; y.err = "later"; s.parts.push_back(y); expect_err = true; errtext = y.err; count("later_errors"); break; } s.parts.push_back(y); } count("several"); }
                else { x = random_rows(r); s.parts.push_back(x); }
                if (r.chance(8)) s.drops = 1; else if (r.chance(2)) { s.drops = 2; expect_err = true; errtext = ""; } else if (r.chance(4)) { s.cut = 1 + (int)r.below(1 << 30); vague = true; } else if (stalls && r.chance(20)) { s.stall_ms = 3500; stalls--; stalled = !expect_err; vague = true; count("stalled"); }
                S sql = fmt("select %llu", (unsigned long long)++g_sql); if (r.chance(10)) sql += S("\0binary\xff", 8) + r.bytes(r.below(50)); if (r.chance(2)) sql += S(r.below(100000), 'q'); g.lock(); g.scripts[sql] = s; g.log.clear(); g.unlock(); log += fmt("(q%d%s%s)", k, s.drops ? "d" : "", s.cut ? "c" : "");
                MySqlData *d = 0; try { d = new MySqlData(c->query(sql)); } catch (const mysql_exception &e) { threw = true; what = e.what(); } count("queries"); if (!inited) { VT_CHECK(threw, "query-uninitialised", "queried without a connection"); delete d; continue; } if (!reach || csbad) { VT_CHECK(threw || csbad, "query-unconnected", "queried without a connection"); delete d; continue; }
                if (dbvague) { vague = true; stalled = false; }
                if (s.cut && s.parts.size() > 1 && !expect_err) { size_t first = 0, all = 0; int sq = 1; for (size_t i = 0; i < s.parts.size(); i++) { all += render(s.parts[i], sq, i + 1 < s.parts.size()).size(); if (i == 0) first = all; } lost = 1 + (size_t)s.cut % (all - 1) >= first; }
                if (lost) { VT_CHECK(threw, "loss-unnoticed", "the connection was lost in the middle of the answer and nothing was reported"); count("lost_later"); }
                if (s.drops) count("drops"); if (s.cut) count("cuts");
                if (expect_err) { VT_CHECK(threw, "error-lost", fmt("a failed query returned a result (%zu results, cut %d, drops %d, %s)", s.parts.size(), s.cut, s.drops, errtext.c_str())); VT_CHECK(!threw || vague || what.find(errtext) != S::npos, "reason", "the reason of the server is not in: " + show(what)); count("errors"); }
                else if (!vague) VT_CHECK(!threw, "query-failed", "a good query failed: " + show(what, 300));
                if (!threw && d) { if (!vague || !s.stall_ms) compare(*d, x, r); }
                g.lock(); size_t seen = 0; for (size_t i = 0; i < g.log.size(); i++) { seen++; if (g.log[i].sql != sql) fail("query-text", "the server received another text"); if (!dbvague && !dbfree && g.log[i].db != db) fail("database", "executed in database '" + g.log[i].db + "' instead of '" + db + "'"); if (!charset.empty()) { if (g.log[i].charset != cs_number(charset)) fail("charset", fmt("a query over a connection of character set %d instead of ", g.log[i].charset) + charset); count("charset_seen"); } } g.unlock();
                if (stalled && !dbfree) { if (patient) VT_CHECK(!threw && seen == 1, "impatient", fmt("a query that takes 3.5 s of 20 was given up: sent %zu times, %s", seen, what.c_str())); else VT_CHECK(threw || seen > 1, "patient", "a query that takes 3.5 s was not given up after the read time of 1 s"); count(patient ? "waited_for" : "given_up"); }
                if (!vague) VT_CHECK(seen >= 1 && (int)seen <= 1 + s.drops, "executions", fmt("sent %zu times", seen)); if (seen) count("executed");
                if (d) { if (!vague && !expect_err && H.size() < 12) { Held e; e.d = d; e.m = x; H.push_back(e); } else delete d; }
            } else if (!H.empty()) { // results
                size_t a = r.below(H.size()), b = r.below(H.size()); log += "(res)";
                switch (r.below(5)) { case 0: if (H.size() < 12) { Held e; e.d = new MySqlData(*H[a].d); e.m = H[a].m; H.push_back(e); } count("copies"); break; case 1: *H[a].d = *H[b].d; H[a].m = H[b].m; if (a == b) count("self_assigned"); count("assigned"); break; case 2: delete H[a].d; H.erase(H.begin() + a); break; case 3: *H[a].d = *H[a].d; count("self_assigned"); break; }
                for (size_t i = 0; i < H.size(); i++) if (i == a || i == b || r.chance(20)) compare(*H[i].d, H[i].m, r);
            }
        } catch (const mysql_exception &e) { fail("exception", e.what()); }
        VT_CHECK(g_results.empty(), "result-held", "a result of the library was not released"); g_results.clear();
    }
    delete c; for (std::map<void *, int>::iterator i = g_open.begin(); i != g_open.end(); ++i) fail(i->second == 1 ? "not-closed" : "not-released", i->second == 1 ? "a connection was not closed" : "what a failed connect holds was not released");
    for (size_t i = 0; i < H.size(); i++) { compare(*H[i].d, H[i].m, r); delete H[i].d; } VT_CHECK(n_stored - st0 == n_freed - fr0, "result-leak", "results not released once each"); count("stored", n_stored - st0);
    for (int i = 0; i < 3000 && g.n_open > 0; i++) sleep_us(i < 100 ? 50 : 1000); VT_CHECK(g.n_open == 0, "still-connected", fmt("%d connections are still open at the server", (int)g.n_open)); if (g.n_open) kill_all();
    distinct("history", h ^ fnv(log)); if (r.chance(2)) sample(log);
}
int main(int argc, char **argv) { init(argc, argv); signal(SIGPIPE, SIG_IGN); start_server(); __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); int64_t k0 = g_kept, h0 = g_handles; cases(one); if (n_stored > 500) VT_CHECK(g_handles - h0 < 10, "handles-kept", fmt("%lld handles of the library are still in memory", (long long)(g_handles - h0))); if (n_stored > 500) VT_CHECK(g_kept - k0 < 10, "results-kept", fmt("%lld results are still kept in memory, %llu were made and all of them released", (long long)(g_kept - k0), (unsigned long long)n_stored)); count("kept_checked", n_stored > 500); count("connections", g.n_conn); return done(); }
