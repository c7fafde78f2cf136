// C25: HTTP responses produced by the writer, read by an independent parser.
#include "vt.h"
#include "CHttpWriter.h"
using namespace vt;
using lce::CHttpWriter;
typedef std::string S;

static S lower(S s) { for (size_t i = 0; i < s.size(); i++) s[i] = tolower(s[i]); return s; }
static S trim(S s) { s.erase(0, s.find_first_not_of(" \t")); s.erase(s.find_last_not_of(" \t") + 1); return s; }
static S token(Rng &r) { static const char *T = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.!#$&'*+^`|~"; S s; size_t n = 1 + r.below(14); for (size_t i = 0; i < n; i++) s += T[r.below(strlen(T))]; return s; }
static S value(Rng &r, bool nonempty = true) {
    if (!nonempty && r.chance(5)) return "";
    size_t n = r.chance(70) ? 1 + r.below(40) : r.chance(50) ? 900 + r.below(300) : 1 + r.below(5000);
    S s = r.ascii(n); if (r.chance(10)) for (int k = 0; k < 4; k++) s[r.below(s.size())] = (char)(0x80 + r.below(128));
    if (r.chance(5)) s = r.pick(std::vector<S>{"%s%n%d", "%", "100%", "a:b", "\"x\"", "a=b; c", "%99999d"});
    s = trim(s); return s.empty() ? "v" : s;
}
static S cookie_value(Rng &r) { static const char *T = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!#$%&'()*+-./:<=>?@[]^_`{|}~"; S s; size_t n = r.chance(90) ? r.below(30) : r.below(4000); for (size_t i = 0; i < n; i++) s += T[r.below(strlen(T))]; return s; }
static S gmt(time_t t) { struct tm m; gmtime_r(&t, &m); static const char *D[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"}, *M[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
    return fmt("%s, %02d %s %04d %02d:%02d:%02d GMT", D[m.tm_wday], m.tm_mday, M[m.tm_mon], m.tm_year + 1900, m.tm_hour, m.tm_min, m.tm_sec); }
// phrases of RFC 2616 / 7231, either spelling
static bool phrase_ok(int c, const S &p) {
    static std::map<int, S> T; if (T.empty()) {
        T[100] = "Continue"; T[101] = "Switching Protocols"; T[200] = "OK"; T[201] = "Created"; T[202] = "Accepted"; T[203] = "Non-Authoritative Information"; T[204] = "No Content"; T[205] = "Reset Content"; T[206] = "Partial Content";
        T[300] = "Multiple Choices"; T[301] = "Moved Permanently"; T[302] = "Found"; T[303] = "See Other"; T[304] = "Not Modified"; T[305] = "Use Proxy"; T[307] = "Temporary Redirect"; T[400] = "Bad Request"; T[401] = "Unauthorized";
        T[402] = "Payment Required"; T[403] = "Forbidden"; T[404] = "Not Found"; T[405] = "Method Not Allowed"; T[406] = "Not Acceptable"; T[407] = "Proxy Authentication Required"; T[408] = "Request Time-out|Request Timeout"; T[409] = "Conflict";
        T[410] = "Gone"; T[411] = "Length Required"; T[412] = "Precondition Failed"; T[413] = "Request Entity Too Large|Payload Too Large"; T[414] = "Request-URI Too Large|Request-URI Too Long|URI Too Long"; T[415] = "Unsupported Media Type";
        T[416] = "Requested range not satisfiable|Range Not Satisfiable"; T[417] = "Expectation Failed"; T[500] = "Internal Server Error"; T[501] = "Not Implemented"; T[502] = "Bad Gateway"; T[503] = "Service Unavailable"; T[504] = "Gateway Time-out|Gateway Timeout";
        T[505] = "HTTP Version not supported|HTTP Version Not Supported";
    }
    if (!T.count(c)) return true;
    std::istringstream is(T[c]); S w; while (std::getline(is, w, '|')) if (lower(w) == lower(p)) return true;
    return false;
}
struct Cookie { S v, domain, path; long t; };
struct Model {
    int status; std::map<S, S> heads; std::map<S, Cookie> cookies; S body; unsigned long len; bool type_set;
    void begin() { status = 200; heads.clear(); cookies.clear(); body.clear(); len = 0; heads["connection"] = "Close"; heads["content-type"] = "text/html"; }
};
static void parse(const S &w, const Model &m, time_t t0, time_t t1, const char *when) {
    S W = when; size_t e = w.find("\r\n\r\n"), p = w.find("\r\n");
    if (e == S::npos) { fail("no-head-end:" + W, "no blank line: " + show(w, 3000)); return; }
    S line = w.substr(0, p);
    VT_CHECK(line.size() >= 13 && line.compare(0, 7, "HTTP/1.") == 0 && line[8] == ' ' && line[12] == ' ' && line.substr(9, 3) == fmt("%d", m.status), "status", "status line " + show(line) + fmt(" for %d", m.status));
    if (line.size() >= 13) VT_CHECK(phrase_ok(m.status, line.substr(13)), "phrase", "status line " + show(line));
    std::map<S, S> want = m.heads; std::set<S> seen, seenc; bool havelen = false;
    p += 2;
    while (p < e + 2) {
        size_t q = w.find("\r\n", p); S l = w.substr(p, q - p); p = q + 2; size_t c = l.find(':');
        if (c == S::npos || c == 0 || l.find_first_of(" \t") < c || l.find('\r') != S::npos || l.find('\n') != S::npos) { fail("head-line", "not a head line: " + show(l)); continue; }
        S k = lower(l.substr(0, c)), v = trim(l.substr(c + 1)); count("heads");
        if (k == "set-cookie") {
            size_t s = v.find(';'); S nv = v.substr(0, s), n, val; size_t q2 = nv.find('='); if (q2 == S::npos) { fail("cookie-line", show(l)); continue; } n = nv.substr(0, q2); val = nv.substr(q2 + 1);
            if (!seenc.insert(n).second) { fail("cookie-twice", "cookie " + show(n) + " twice"); continue; }
            std::map<S, Cookie>::const_iterator ci = m.cookies.find(n); if (ci == m.cookies.end()) { fail("cookie-extra", "cookie not set: " + show(l)); continue; }
            const Cookie &ck = ci->second; count("cookies");
            VT_CHECK(val == ck.v, "cookie-value", "cookie " + show(n) + " is " + show(val) + " should be " + show(ck.v));
            S dom, path, exp; bool bad = false;
            while (s != S::npos) { size_t b = s + 1; s = v.find(';', b); S a = trim(v.substr(b, s == S::npos ? S::npos : s - b)); size_t eq = a.find('='); S an = lower(a.substr(0, eq)), av = eq == S::npos ? "" : a.substr(eq + 1);
                if (an == "domain") dom = av; else if (an == "path") path = av; else if (an == "expires") exp = av; else bad = true; }
            VT_CHECK(!bad && dom == ck.domain && path == ck.path, "cookie-attributes", show(l));
            if (!ck.t) VT_CHECK(exp.empty(), "cookie-expires", show(l)); else { bool ok = false; for (time_t t = t0; t <= t1; t++) ok |= exp == gmt(t + ck.t); VT_CHECK(ok, "cookie-expires", show(l) + fmt(" for %ld s", ck.t)); }
            continue;
        }
        if (!seen.insert(k).second) { fail("head-twice", "head " + show(k) + " twice in " + show(w, 2000)); continue; }
        if (k == "date" && !want.count(k)) { bool ok = false; for (time_t t = t0; t <= t1; t++) ok |= v == gmt(t); VT_CHECK(ok, "date", show(l)); continue; }
        if (k == "content-length" && !want.count(k)) {
            havelen = true; unsigned long n = m.len ? m.len : m.body.size();
            VT_CHECK(v == fmt("%lu", n), "content-length", "content length " + show(v) + fmt(" for %lu", n)); continue;
        }
        std::map<S, S>::iterator i = want.find(k);
        if (i == want.end()) { fail("head-extra:" + W, "head not set: " + show(l)); continue; }
        VT_CHECK(v == trim(i->second), "head-value", "head " + show(k) + " is " + show(v, 3000) + " should be " + show(i->second, 3000)); want.erase(i);
        if (k == "content-length") havelen = true;
    }
    for (std::map<S, S>::iterator i = want.begin(); i != want.end(); ++i) fail("head-missing", "head " + show(i->first) + ": " + show(i->second, 3000) + " is missing");
    VT_CHECK(seenc.size() == m.cookies.size(), "cookie-missing", fmt("%zu cookies of %zu", seenc.size(), m.cookies.size()));
    bool want_len = m.heads.count("content-length") > 0, bodyless = m.status < 200 || m.status == 204 || m.status == 304;
    if (!bodyless || !m.body.empty() || m.len) VT_CHECK(havelen, "no-length", fmt("no length for a body of %zu bytes, status %d", m.body.size(), m.status));
    else if (!want_len) { VT_CHECK(!havelen, "length-without-body", fmt("a length in a response of status %d, which has no body", m.status)); count("bodyless"); }
    VT_CHECK(w.compare(e + 4, S::npos, m.body) == 0, "body:" + W, fmt("body of %zu bytes should be %zu ", w.size() - e - 4, m.body.size()) + show(w.substr(e + 4), 200) + " / " + show(m.body, 200));
    if (m.body.empty()) count("empty_bodies");
}
static void one(Rng &r, uint64_t) {
    CHttpWriter *w; void *mem = malloc(sizeof(CHttpWriter)); memset(mem, (int)r.below(256), sizeof(CHttpWriter)); w = new (mem) CHttpWriter(); // on memory that held something else
    Model m; m.begin(); uint64_t h = 1; S log; int n = 1 + (int)r.below(6);
    static const int ST[] = {100, 101, 200, 201, 202, 203, 204, 205, 206, 300, 301, 302, 303, 304, 305, 307, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 429, 451, 500, 501, 502, 503, 504, 505, 308, 599, 299};
    for (int k = 0; k < n; k++) {
        if (k || r.chance(80)) { w->begin(); m.begin(); log += " begin"; if (!k) count("begins"); } else count("no_begin");
        if (r.chance(20)) VT_CHECK(k == 0 || w->getDataLen() == 0, "left-over:data", fmt("%d bytes of the previous response after begin", w->getDataLen()));
        int ops = (int)r.pick(std::vector<int>{0, 1, 3, 6, 12, 30}); int ends = 0;
        for (int i = 0; i < ops; i++) {
            int op = (int)r.below(22); h = h * 33 + op; S v; count("ops");
            switch (op) {
            case 0: m.status = ST[r.below(46)]; w->setStatusCode(m.status); log += fmt(" status %d", m.status); break;
            case 1: v = r.pick(std::vector<S>{"keep-alive", "Close", "Upgrade", value(r)}); w->setConnection(v); m.heads["connection"] = v; log += " connection"; break;
            case 2: v = value(r); if (r.chance(20)) { w->setContentType(); v = "text/html"; } else w->setContentType(v); m.heads["content-type"] = v; log += " type"; break;
            case 3: v = value(r); w->setCacheControl(v); m.heads["cache-control"] = v; log += " cache"; break;
            case 4: v = value(r); w->setLocation(v); m.heads["location"] = v; log += " location"; break;
            case 5: v = "\"" + value(r) + "\""; w->setETag(v); m.heads["etag"] = v; log += " etag"; break;
            case 6: { time_t t = 1 + (time_t)r.below(4102444800ull); w->setLastModified(t); m.heads["last-modified"] = gmt(t); log += " modified"; break; }
            case 7: { time_t t = 1 + (time_t)r.below(4102444800ull); w->setExpires(t); m.heads["expires"] = gmt(t); log += " expires"; break; }
            case 8: case 9: { S key = r.chance(70) ? "X-" + token(r) : r.pick(std::vector<S>{"X-A", "X-B", "x-c", "Server", "Access-Control-Allow-Origin", "Allow", "Accept-Ranges"}); std::map<S, S>::iterator f = m.heads.find(lower(key)); (void)f; v = value(r, false); w->setHead(key, v); m.heads[lower(key)] = v; log += " head"; break; }
            case 10: { static const char *B[] = {"Content-Type", "Connection", "Cache-Control", "ETag", "Location", "Expires", "Last-Modified", "content-type", "Date", "Content-Length", "content-length"}; S key = B[r.below(r.chance(80) ? 11 : 1)];
                v = lower(key) == "content-length" ? fmt("%d", (int)r.below(100000)) : value(r); count("named_builtin"); w->setHead(key, v); m.heads[lower(key)] = v; log += " head " + key; i = ops; break; } // last: what a later setter of the same head does is not defined
            case 11: case 12: { S name = r.chance(60) ? token(r) : r.pick(std::vector<S>{"a", "b", "session"}); Cookie c; c.t = 0; if (m.cookies.count(name)) count("cookie_overwritten");
                if (r.chance(50)) c.domain = r.alnum(5) + ".example"; if (r.chance(50)) c.path = "/" + r.alnum(r.below(2000)); if (r.chance(50)) c.t = r.pick(std::vector<long>{1, 3600, -1, -86400, 86400l * 365, 86400l * 365 * 20, 2147483648l});
                int kind = (int)r.below(6);
                if (kind == 0) { int x = (int)r.next(); c.v = fmt("%d", x); w->setCookie(name, x, c.domain, c.path, c.t); }
                else if (kind == 1) { unsigned long x = r.next(); c.v = fmt("%lu", x); w->setCookie(name, x, c.domain, c.path, c.t); }
                else if (kind == 2) { c.v = "literal"; w->setCookie(name, "literal", c.domain, c.path, c.t); }
                else if (kind == 3) { c.v = cookie_value(r); w->setCookie(name, c.v.c_str(), c.domain, c.path, c.t); }
                else if (kind == 4) { c.v = cookie_value(r); c.domain = c.path = ""; c.t = 0; w->setCookie(name, c.v); }
                else { c.v = cookie_value(r); w->setCookie(name, c.v, c.domain, c.path, c.t); }
                m.cookies[name] = c; log += " cookie"; break; }
            case 13: if (r.chance(25)) { m.len = r.pick(std::vector<unsigned long>{1, 1000, 4294967295ul, 4294967296ul, 5000000000ul}); w->setBodyLen(m.len); log += " bodylen"; count("explicit_length"); } break;
            case 14: { S d = r.bytes(r.edge(r.chance(5) ? 1000000 : 3000)); Exact e(d); w->write(e.p, e.n); m.body += d; log += fmt(" write%zu", d.size()); break; }
            case 15: { S d = r.bytes(r.below(200)); *w << d; m.body += d; log += " str"; break; }
            case 16: { S d = r.ascii(r.below(200)); *w << d.c_str() << "lit%s\r\n\r\n"; m.body += d + "lit%s\r\n\r\n"; log += " cstr"; break; }
            case 17: { int x = (int)r.next(); unsigned long u = r.next(); *w << x << u << 'c' << -1l << (short)-7 << true << '\0'; m.body += fmt("%d%luc-1-71", x, u) + S(1, 0); log += " num"; break; }
            case 18: { double d = (double)r.range(-100000, 100000) / 8; std::ostringstream o; o << d; *w << d; m.body += o.str(); log += " dbl"; break; }
            case 19: { w->end(); ends++; log += " early-end"; count("early_ends"); break; } // a second end() renders the state of that time
            case 20: { char *p = strdup("char*"); *w << (const char *)p << (char *)p; m.body += "char*char*"; free(p); break; }
            default: *w << ""; w->write("", 0); break;
            }
        }
        cur(log);
        int reps = r.chance(20) ? 2 : 1;
        for (int e = 0; e < reps; e++) {
            time_t t0 = time(0); w->end(); time_t t1 = time(0); count("responses");
            S out(w->data(), w->size());
            VT_CHECK(w->getDataLen() == (int)w->size() && w->getData() == w->data() && out.size() == w->size() && w->data()[w->size()] == 0, "accessors", "data accessors disagree");
            parse(out, m, t0, t1, e ? "second-end" : "first-end"); distinct("response", fnv(out));
        }
        if (r.chance(10)) { CHttpWriter c(*w); w->begin(); *w << "other"; w->end(); S o(c.data(), c.size()); time_t t = time(0); parse(o, m, t - 5, t, "copy"); m.begin(); count("copies"); }
    }
    for (int i = 0; i < 5; i++) { int c = ST[r.below(46)]; const char *d = CHttpWriter::getStatusCodeDesc(c); VT_CHECK(d && *d && phrase_ok(c, d), "phrase", fmt("%d is %s", c, d)); }
    distinct("history", h); if (r.chance(2)) sample(log);
    w->~CHttpWriter(); free(mem);
}
static void big() { // a body beyond 2 GiB and 4 GiB
    for (int k = 0; k < (st().thorough ? 2 : 1); k++) {
        CHttpWriter w; w.begin(); size_t n = k ? (4ull << 30) + 12345 : (2ull << 30) + 7; S chunk(1 << 20, 'x'); size_t left = n; while (left) { size_t c = std::min(left, chunk.size()); w.write(chunk.data(), c); left -= c; }
        w.end(); S head(w.data(), std::min<size_t>(w.size(), 2000)); count("big_bodies");
        VT_CHECK(head.find(fmt("Content-Length: %zu\r\n", n)) != S::npos || head.find(fmt("Content-Length:%zu\r\n", n)) != S::npos, "big-length", show(head, 500)); size_t e = head.find("\r\n\r\n");
        VT_CHECK(e != S::npos && w.size() == e + 4 + n, "big-size", fmt("%zu", w.size()));
    }
}
int main(int argc, char **argv) { init(argc, argv); if (mode("big")) big(); else cases(one); return done(); }
