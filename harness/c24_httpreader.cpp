// C24: HTTP requests built from a structure and read back through the reader's public interface.
#include "vt.h"
#include "CHttpReader.h"
using namespace vt;
using lce::CHttpReader;
typedef std::string S;
typedef std::vector<std::pair<S, S> > NV;

static S anycase(Rng &r, S s) { int k = (int)r.below(4); for (size_t i = 0; i < s.size(); i++) { if (k == 1) s[i] = tolower(s[i]); else if (k == 2) s[i] = toupper(s[i]); else if (k == 3) s[i] = r.chance(50) ? tolower(s[i]) : toupper(s[i]); } return s; }
static S lower(S s) { for (size_t i = 0; i < s.size(); i++) s[i] = tolower(s[i]); return s; }
// one of the many encodings of a text; everything outside `raw' is escaped, the rest sometimes
static S urlenc(Rng &r, const S &s, const char *rawset) {
    S o; int esc = (int)r.pick(std::vector<int>{0, 0, 5, 50, 100}); bool up = r.chance(50), plus = r.chance(60);
    for (size_t i = 0; i < s.size(); i++) {
        unsigned char c = s[i]; bool raw = isalnum(c) || (c && strchr(rawset, c));
        if (c == ' ' && plus) { o += '+'; continue; }
        if (raw && !r.chance(esc)) o += (char)c;
        else { char b[8]; snprintf(b, sizeof b, (r.chance(10) ? !up : up) ? "%%%02X" : "%%%02x", c); o += b; }
    }
    return o;
}
static S text(Rng &r, size_t max) {
    switch (r.below(8)) {
    case 0: return "";
    case 1: return r.bytes(r.below(max) + 1);
    case 2: { static const char *T[] = {"&", "=", "a=b", "a&b=c", "%41", "%", "%%", "100%", "+", " ", "a+b c", ";", "a;b=1", "\r\n", "\r\n\r\n", "?x=1", "#", "\xc3\xa4\xe4\xb8\xad", "../..", "<b>\"'</b>", "0", "true", "%zz", "%4"}; return T[r.below(24)]; }
    case 3: return r.ascii(r.below(max) + 1);
    case 4: return S(1, (char)r.next());
    default: return r.alnum(1 + r.below(12));
    }
}
static S number(Rng &r, S &kind) {
    switch (r.below(7)) {
    case 0: kind = "u8"; return S(r.chance(20) ? 1 + r.below(3) : 0, '0') + fmt("%d", (int)r.pick(std::vector<int>{0, 1, 7, 127, 128, 200, 255}));
    case 1: kind = "u16"; return S(r.chance(20) ? 1 + r.below(3) : 0, '0') + fmt("%d", (int)r.pick(std::vector<int>{0, 255, 256, 32767, 32768, 65535, 40000}));
    case 2: case 3: kind = "int"; return fmt("%d", r.chance(50) ? (int)r.next() : r.pick(std::vector<int>{0, -1, 1, 2147483647, -2147483647 - 1, 65536, -300}));
    case 4: case 5: kind = "u64"; return S(r.chance(20) ? 1 + r.below(3) : 0, '0') + fmt("%llu", (unsigned long long)r.pick(std::vector<uint64_t>{r.next(), r.next() >> r.below(64), 0ull, ~0ull, 1ull << 63, (1ull << 63) - 1, 1ull << 32, 4294967295ull}));
    default: kind = "bool"; return r.pick(std::vector<S>{"0", "1", "2", "-1", "256", "65536", "4294967296", "00"});
    }
}
struct Part { S name, data, file, type; bool isfile; };
struct Req {
    S method, path, version, wire; NV params; bool known_values; NV heads; NV cookies; S cookie_line; S raw; std::vector<Part> parts; bool multipart;
    std::vector<S> flags; // parameters without a value
    time_t since; S since_name;
};
static S token(Rng &r) { static const char *T = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.!#$&'*+^`|~"; S s; size_t n = 1 + r.below(14); for (size_t i = 0; i < n; i++) s += T[r.below(strlen(T))]; return s; }
static S field_value(Rng &r) { // any field value without surrounding blanks
    if (r.chance(8)) return "";
    S s = r.chance(70) ? r.ascii(1 + r.below(40)) : r.ascii(1 + r.below(3000));
    if (r.chance(15)) for (int k = 0; k < 4; k++) s[r.below(s.size())] = (char)(0x80 + r.below(128));
    size_t a = s.find_first_not_of(" \t"); if (a == S::npos) return "x"; s.erase(0, a); s.erase(s.find_last_not_of(" \t") + 1); return s;
}
static NV params(Rng &r, std::map<S, S> *kinds) {
    NV p; std::set<S> seen; int n = (int)r.pick(std::vector<int>{0, 1, 1, 2, 3, 5, 8, r.chance(10) ? 300 : 4});
    for (int i = 0; i < n; i++) {
        S k = r.chance(75) ? r.alnum(1 + r.below(8)) : text(r, 30), kind, v = r.chance(35) ? number(r, kind) : text(r, r.chance(5) ? 5000 : 60);
        if (!seen.insert(k).second) continue;
        p.push_back(std::make_pair(k, v)); if (kinds) (*kinds)[k] = kind;
    }
    return p;
}
static S form(Rng &r, const NV &p, std::vector<S> &flags, const char *raw) {
    S o; bool junk = r.chance(10);
    for (size_t i = 0; i < p.size(); i++) {
        if (i) o += '&';
        if (junk && r.chance(30)) o += '&';
        if (junk && r.chance(30)) { S f = "flag" + r.alnum(5); flags.push_back(f); o += f + "&"; }
        S v = urlenc(r, p[i].second, raw);
        if (r.chance(20)) { S w; for (size_t j = 0; j < v.size(); j++) if (v.compare(j, 3, "%3d") == 0 || v.compare(j, 3, "%3D") == 0) { w += '='; j += 2; } else w += v[j]; v = w; } // a bare '=' inside a value
        o += urlenc(r, p[i].first, raw) + "=" + v;
    }
    if (junk && r.chance(40)) o += '&';
    return o;
}
static S quoted_text(Rng &r, bool tricky) {
    if (tricky) { static const char *T[] = {"a name=", "filename=", "x; name=y", "my filename=", "form-data; ", "a:b", "name", " lead", "trail ", "multipart", "--b"}; return T[r.below(11)]; }
    S s = r.chance(60) ? r.alnum(1 + r.below(12)) : r.ascii(1 + r.below(20)), o;
    for (size_t i = 0; i < s.size(); i++) if (s[i] != '"' && s[i] != '\\') o += s[i];
    if (r.chance(10)) o += "\xe4\xb8\xad.txt";
    return o.empty() ? "f" : o;
}
static void build(Rng &r, Req &q, std::map<S, S> &kinds) {
    q = Req(); q.known_values = true; q.multipart = false; q.since = 0;
    int m = (int)r.below(10); q.method = m < 4 ? "GET" : m < 9 ? "POST" : "HEAD";
    static const char *P[] = {"/", "/index.html", "/a/b/c.cgi", "*", "http://host.example:8080/x/y", "/%7Euser/%20x", "/a;p=1/b", "/a:b@c", "/a&b=c"};
    q.path = r.chance(60) ? P[r.below(9)] : "/" + token(r) + "/" + S(r.chance(5) ? 5000 : r.below(30), 'p');
    q.version = r.chance(80) ? "HTTP/1.1" : "HTTP/1.0";
    static const char *QRAW = "-_.~!*'(),;:@/$?";
    S query;
    bool hasq = r.chance(q.method == "POST" ? 25 : 75);
    if (hasq) { NV p = params(r, q.method == "POST" ? 0 : &kinds); std::vector<S> fl; query = form(r, p, fl, QRAW); if (q.method != "POST") { q.params = p; q.flags = fl; q.raw = query; } }
    // heads
    std::set<S> used; used.insert("cookie"); used.insert("content-type"); used.insert("content-length"); used.insert("if-modified-since"); used.insert("if-unmodified-since");
    static const char *H[] = {"Host", "Accept", "Referer", "Accept-Language", "Accept-Encoding", "User-Agent", "Connection", "Cache-Control", "If-Match", "If-None-Match", "If-Range", "X-Forwarded-For", "Origin"};
    int n = (int)r.pick(std::vector<int>{0, 1, 3, 6, 10, r.chance(10) ? 200 : 5});
    for (int i = 0; i < n; i++) { S k = r.chance(70) ? H[r.below(13)] : token(r); if (used.insert(lower(k)).second) q.heads.push_back(std::make_pair(k, field_value(r))); }
    if (r.chance(25)) {
        q.since = (time_t)r.below(2208988800ull - 86400); struct tm t; gmtime_r(&q.since, &t); char b[100]; strftime(b, sizeof b, "%a, %d %b %Y %H:%M:%S GMT", &t);
        q.since_name = r.chance(50) ? "If-Modified-Since" : "If-Unmodified-Since"; q.heads.push_back(std::make_pair(q.since_name, S(b)));
    }
    // cookies
    if (r.chance(50)) {
        int c = (int)r.pick(std::vector<int>{1, 1, 2, 3, 6, r.chance(10) ? 100 : 2}); std::set<S> seen; bool blank = r.chance(80);
        for (int i = 0; i < c; i++) {
            S k = token(r), kind, v = r.chance(30) ? number(r, kind) : text(r, 60);
            if (!seen.insert(k).second) continue;
            kinds["cookie:" + k] = kind; q.cookies.push_back(std::make_pair(k, v));
            if (!q.cookie_line.empty()) q.cookie_line += blank ? "; " : ";";
            if (r.chance(4)) q.cookie_line += "flag" + r.alnum(3) + (blank ? "; " : ";"); // without a value
            q.cookie_line += k + "=" + urlenc(r, v, "-_.~!*'(),:@/$?=&<>[]{}#^`|");
        }
        q.heads.insert(q.heads.begin() + r.below(q.heads.size() + 1), std::make_pair(S("Cookie"), q.cookie_line));
    }
    S body;
    if (q.method == "POST") {
        int k = (int)r.below(10); S ctype;
        if (k < 4) { q.params = params(r, &kinds); body = form(r, q.params, q.flags, QRAW); ctype = r.pick(std::vector<S>{"application/x-www-form-urlencoded", "application/x-www-form-urlencoded; charset=UTF-8", "Application/X-WWW-Form-Urlencoded"}); if (r.chance(15)) ctype = ""; count("urlencoded"); }
        else if (k < 6) { q.known_values = false; body = r.chance(50) ? text(r, 200) : r.bytes(r.edge(20000)); ctype = r.pick(std::vector<S>{"application/json", "text/plain", "application/octet-stream", "multipart/mixed; boundary=xyz", "text/xml; x=multipart/form-data", ""}); count("opaque"); }
        else {
            q.multipart = true; count("multipart");
            S bd = r.pick(std::vector<S>{"----WebKitFormBoundary" + r.alnum(16), r.alnum(1 + r.below(60)), "---------------------------" + fmt("%u", (unsigned)r.next()), "b", "a=b", "x'()+_,-./:=?y", "-"});
            bool quote = r.chance(20) || bd.find_first_of("()/:=?,") != S::npos;
            int n = (int)r.pick(std::vector<int>{1, 1, 2, 3, 5, 9}); std::set<S> seen; S delim = "\r\n--" + bd;
            if (r.chance(8)) body += "This is a message in MIME format.\r\n";
            for (int i = 0; i < n; i++) {
                Part p; bool tricky = r.chance(12); p.name = quoted_text(r, tricky && r.chance(40)); if (!seen.insert(p.name).second) continue;
                p.isfile = r.chance(50);
                if (r.chance(25)) p.data = r.pick(std::vector<S>{"", "\r\n", "\r\n\r\n", "\r\n--", "--", "--" + bd, "x--" + bd + "--", "-", "\r", "\n", "a\r", "Content-Type: x/y\r\n\r\n", "name=\"z\"", "Content-Disposition: form-data; name=\"evil\"\r\n\r\nx", "\r\n-" + bd, "\n--" + bd});
                else p.data = r.chance(30) ? r.bytes(r.edge(30000)) : text(r, 300);
                if ((p.data + "\r\n").find(delim) != S::npos || ("\r\n" + p.data).find(delim) != S::npos) p.data = "d"; // the delimiter may not appear in the data
                static const char *SEP[] = {"; ", "; ", "; ", ";", ";  ", ";\t"}; S cd = anycase(r, "form-data") + SEP[r.below(6)], nm = "name=\"" + p.name + "\"";
                if (p.isfile) { p.file = quoted_text(r, tricky); S fn = "filename=\"" + p.file + "\""; cd += r.chance(85) ? nm + SEP[r.below(6)] + fn : fn + SEP[r.below(6)] + nm; } else cd += nm;
                S head[3]; int hn = 0; head[hn++] = anycase(r, "Content-Disposition") + (r.chance(80) ? ": " : ":") + cd;
                if (p.isfile || r.chance(10)) { p.type = r.pick(std::vector<S>{"text/plain", "application/octet-stream", "image/png; x=\"y\"", "a/b", "Text/HTML; Charset=UTF-8"}); if (r.chance(90)) head[hn++] = anycase(r, "Content-Type") + ": " + p.type; else p.type = ""; }
                if (r.chance(15)) head[hn++] = "X-Other: form-data; name=\"other\"";
                for (int a = hn - 1; a > 0; a--) if (r.chance(25)) std::swap(head[a], head[r.below(a + 1)]);
                body += "--" + bd + "\r\n"; for (int a = 0; a < hn; a++) body += head[a] + "\r\n";
                body += "\r\n" + p.data + "\r\n"; q.parts.push_back(p); count("parts"); if (p.isfile) count("files");
            }
            body += "--" + bd + "--" + (r.chance(80) ? "\r\n" : ""); if (r.chance(8)) body += "epilogue";
            ctype = anycase(r, "multipart/form-data") + (r.chance(80) ? "; " : ";") + (r.chance(15) ? "charset=utf-8; " : "") + anycase(r, "boundary") + "=" + (quote ? "\"" + bd + "\"" : bd) + (r.chance(10) ? "; charset=utf-8" : r.chance(5) ? " ; charset=utf-8" : "");
        }
        if (!ctype.empty()) q.heads.insert(q.heads.begin() + r.below(q.heads.size() + 1), std::make_pair(S("Content-Type"), ctype));
        q.heads.insert(q.heads.begin() + r.below(q.heads.size() + 1), std::make_pair(S("Content-Length"), fmt("%zu", body.size())));
        q.raw = body;
    }
    q.wire = q.method + " " + q.path + (hasq ? "?" + query : S()) + " " + q.version + "\r\n";
    for (size_t i = 0; i < q.heads.size(); i++) {
        static const char *B[] = {": ", ":", ":  ", ":\t", ": \t "}; static const char *A[] = {"", "", "", " ", "\t "};
        q.wire += anycase(r, q.heads[i].first) + B[r.chance(70) ? 0 : r.below(5)] + q.heads[i].second + A[r.chance(80) ? 0 : r.below(5)] + "\r\n";
    }
    q.wire += "\r\n" + body;
}
static void numeric(CHttpReader &rd, const S &k, const S &v, const S &kind, bool cookie) {
    if (kind.empty()) return;
    count("numbers");
    unsigned long ul = 77; int i = 77; unsigned short us = 77; unsigned char uc = 77; bool b = false;
    unsigned long long want = strtoull(v.c_str(), 0, 10); S w = cookie ? "cookie" : "value";
    if (kind != "bool") {
        if (v[0] != '-') { unsigned long g = cookie ? rd.getCookie(k, ul, 5) : rd.getValue(k, ul, 5); VT_CHECK(ul == want && g == want, "number:" + w, fmt("%s as unsigned long is %lu", v.c_str(), ul)); }
        if (kind == "int" || kind == "u8" || kind == "u16") { int g = cookie ? rd.getCookie(k, i, 5) : rd.getValue(k, i, 5); VT_CHECK(i == (int)atol(v.c_str()) && g == i, "number:" + w, fmt("%s as int is %d", v.c_str(), i)); }
        if (kind == "u8" || kind == "u16") {
            if (cookie) { unsigned short g = rd.getCookie(k, i, (unsigned short)5); (void)g; } else { unsigned short g = rd.getValue(k, us, 5); VT_CHECK(us == want && g == us, "number:" + w, fmt("%s as unsigned short is %u", v.c_str(), us)); }
        }
        if (kind == "u8") { unsigned char g = cookie ? rd.getCookie(k, uc, 5) : rd.getValue(k, uc, 5); VT_CHECK(uc == want && g == uc, "number:" + w, fmt("%s as unsigned char is %u", v.c_str(), uc)); }
    } else if (!cookie) { bool g = rd.getValue(k, b, true); bool wb = strtoll(v.c_str(), 0, 10) != 0; VT_CHECK(b == wb && g == wb, "number:bool", fmt("%s as bool is %d", v.c_str(), b)); }
}
static void check(CHttpReader &rd, const Req &q, std::map<S, S> &kinds, const char *who) {
    S w = who;
    VT_CHECK((rd.getCommand() == lce::GET ? "GET" : rd.getCommand() == lce::POST ? "POST" : "HEAD") == q.method, "method:" + w, "method differs");
    VT_CHECK(S(rd.getURI()) == q.path, "path:" + w, "path " + show(rd.getURI()) + " should be " + show(q.path));
    VT_CHECK(S(rd.getVersion()) == q.version, "version:" + w, S("version ") + rd.getVersion());
    std::set<S> present;
    for (size_t i = 0; i < q.heads.size(); i++) {
        S k = q.heads[i].first; present.insert(lower(k)); static uint64_t turn; Rng cr(fnv(k) + turn++);
        VT_CHECK(S(rd.getHead(anycase(cr, k))) == q.heads[i].second, "head:" + w, "head " + show(k) + " is " + show(rd.getHead(k)) + " should be " + show(q.heads[i].second)); count("heads");
    }
    struct { const char *n; S v; } G[] = {
        {"host", rd.getHost()}, {"accept", rd.getAccept()}, {"referer", rd.getReferer()}, {"accept-language", rd.getAcceptLanguage()}, {"content-type", rd.getContentType()},
        {"accept-encoding", rd.getAcceptEncoding()}, {"user-agent", rd.getUserAgent()}, {"connection", rd.getConnection()}, {"cache-control", rd.getCacheControl()},
        {"if-match", rd.getIfMatch()}, {"if-none-match", rd.getIfNoneMatch()}, {"if-range", rd.getIfRange()}};
    for (size_t g = 0; g < sizeof G / sizeof *G; g++) {
        S want; for (size_t i = 0; i < q.heads.size(); i++) if (lower(q.heads[i].first) == G[g].n) want = q.heads[i].second;
        VT_CHECK(G[g].v == want, S("getter:") + G[g].n, S(G[g].n) + " is " + show(G[g].v) + " should be " + show(want));
        if (!present.count(G[g].n)) VT_CHECK(S(rd.getHead(G[g].n)).empty(), "head-left:" + w, S("head ") + G[g].n + " was not sent: " + show(rd.getHead(G[g].n)));
    }
    if (q.method == "POST") VT_CHECK(rd.getContentLength() == q.raw.size(), "content-length", fmt("content length %lu of %zu", rd.getContentLength(), q.raw.size()));
    if (q.since_name == "If-Modified-Since") VT_CHECK(rd.getIfModifiedSinceTime() == q.since, "date", fmt("time %lld should be %lld", (long long)rd.getIfModifiedSinceTime(), (long long)q.since));
    if (q.since_name == "If-Unmodified-Since") VT_CHECK(rd.getIfUnmodifiedSinceTime() == q.since, "date", fmt("time %lld should be %lld", (long long)rd.getIfUnmodifiedSinceTime(), (long long)q.since));
    // cookies
    VT_CHECK(S(rd.getCookieList()) == q.cookie_line, "cookie-list:" + w, "cookies " + show(rd.getCookieList()) + " should be " + show(q.cookie_line));
    for (size_t i = 0; i < q.cookies.size(); i++) {
        S v; rd.getCookie(q.cookies[i].first, v, "default"); count("cookies");
        VT_CHECK(v == q.cookies[i].second, "cookie:" + w, "cookie " + show(q.cookies[i].first) + " is " + show(v) + " should be " + show(q.cookies[i].second));
        numeric(rd, q.cookies[i].first, q.cookies[i].second, kinds["cookie:" + q.cookies[i].first], true);
    }
    // values
    S v;
    if (q.known_values && !q.multipart) {
        std::set<S> names; for (size_t i = 0; i < q.params.size(); i++) names.insert(q.params[i].first);
        for (size_t i = 0; i < q.params.size(); i++) {
            rd.getValue(q.params[i].first, v, "default"); count("params");
            VT_CHECK(v == q.params[i].second, "value:" + w, "value " + show(q.params[i].first) + " is " + show(v) + " should be " + show(q.params[i].second));
            numeric(rd, q.params[i].first, q.params[i].second, kinds[q.params[i].first], false);
        }
        for (size_t i = 0; i < q.flags.size(); i++) names.insert(q.flags[i]);
        const std::map<S, S> &l = rd.getValueList();
        for (std::map<S, S>::const_iterator i = l.begin(); i != l.end(); ++i) VT_CHECK(names.count(i->first), "value-extra:" + w, "value " + show(i->first) + "=" + show(i->second) + " was not sent");
    }
    if (q.multipart) {
        std::set<S> names;
        for (size_t i = 0; i < q.parts.size(); i++) {
            const Part &p = q.parts[i]; names.insert(p.name);
            if (!p.isfile) { rd.getValue(p.name, v, "default"); VT_CHECK(v == p.data, "part:" + w, "field " + show(p.name) + " is " + show(v) + " should be " + show(p.data)); VT_CHECK(rd.getFile(p.name).empty() && rd.getFileName(p.name).empty(), "file-extra:" + w, "field " + show(p.name) + " is reported as a file"); }
            else {
                VT_CHECK(rd.getFile(p.name) == p.data, "file:" + w, "file " + show(p.name) + " is " + show(rd.getFile(p.name)) + " should be " + show(p.data));
                VT_CHECK(rd.getFileName(p.name) == p.file, "file-name:" + w, "file name of " + show(p.name) + " is " + show(rd.getFileName(p.name)) + " should be " + show(p.file));
                VT_CHECK(rd.getFileType(p.name) == p.type, "file-type:" + w, "file type of " + show(p.name) + " is " + show(rd.getFileType(p.name)) + " should be " + show(p.type));
            }
        }
        const std::map<S, S> &l = rd.getValueList();
        for (std::map<S, S>::const_iterator i = l.begin(); i != l.end(); ++i) VT_CHECK(names.count(i->first), "part-extra:" + w, "field " + show(i->first) + "=" + show(i->second) + " was not sent");
    }
    S body; rd.getValue(body);
    VT_CHECK(body == q.raw, "raw:" + w, fmt("raw data of %zu bytes should be %zu: ", body.size(), q.raw.size()) + show(body) + " / " + show(q.raw));
    VT_CHECK(S(rd.getBody()) == S(q.raw.c_str()), "body:" + w, "body differs");
    // what was not sent
    static const char *N[] = {"no-such", "x", "f", "name", "evil", "other"};
    for (int i = 0; i < 6; i++) {
        bool sent = false; for (size_t k = 0; k < q.params.size(); k++) sent |= q.params[k].first == N[i]; for (size_t k = 0; k < q.parts.size(); k++) sent |= q.parts[k].name == N[i];
        if (!sent && q.known_values) { unsigned long u; int n; rd.getValue(N[i], v, "dflt"); VT_CHECK(v == "dflt" && rd.getValue(N[i], u, 12) == 12 && rd.getValue(N[i], n, -3) == -3, "default-value:" + w, S("value ") + N[i] + " was not sent: " + show(v)); }
        bool fsent = false; for (size_t k = 0; k < q.parts.size(); k++) fsent |= q.parts[k].isfile && q.parts[k].name == N[i];
        if (!fsent) VT_CHECK(rd.getFile(N[i]).empty() && rd.getFileName(N[i]).empty() && rd.getFileType(N[i]).empty(), "file-left:" + w, S("file ") + N[i] + " was not sent");
        bool csent = false; for (size_t k = 0; k < q.cookies.size(); k++) csent |= q.cookies[k].first == N[i];
        if (!csent) { rd.getCookie(N[i], v, "dflt"); unsigned long u; int n; unsigned char uc; VT_CHECK(v == "dflt" && rd.getCookie(N[i], u, 12) == 12 && rd.getCookie(N[i], n, -3) == -3 && rd.getCookie(N[i], uc, 9) == 9, "default-cookie:" + w, S("cookie ") + N[i] + " was not sent"); }
    }
}
static void one(Rng &r, uint64_t) {
    CHttpReader reused; uint64_t h = 1; int n = 2 + (int)r.below(6);
    std::vector<Req> past; std::map<S, S> kp;
    for (int i = 0; i < n; i++) {
        Req q; std::map<S, S> kinds; build(r, q, kinds);
        cur(fmt("request %d: ", i) + show(q.wire, 6000)); count("requests"); distinct("request", fnv(q.wire)); h = h * 31 + fnv(q.wire);
        if (r.chance(25)) { // a broken request in between
            S b = q.wire; if (r.chance(60)) b.resize(r.below(b.size())); else for (int k = 0; k < 5; k++) b[r.below(b.size())] = (char)r.next();
            Exact e(b); reused.setData(e.p, (int)e.n); count("broken");
        }
        if (r.chance(10)) {
            reused.clear(); count("cleared"); S v, b; reused.getValue(b);
            VT_CHECK(!*reused.getURI() && !*reused.getVersion() && !*reused.getHost() && b.empty() && reused.getValueList().empty() && !*reused.getCookieList() && !*reused.getBody(), "clear", "something left after clear");
            for (size_t k = 0; k < past.size(); k++) for (size_t j = 0; j < past[k].parts.size(); j++) VT_CHECK(reused.getFile(past[k].parts[j].name).empty(), "clear", "a file left after clear");
        }
        {
            Exact e(q.wire); CHttpReader fresh; bool ok1 = fresh.setData(e.p, (int)e.n), ok2 = reused.setData(e.p, (int)e.n);
            memset(e.p, 'Z', e.n); // the reader keeps what it needs
            VT_CHECK(ok1 && ok2, "refused", S("refused: ") + (ok1 ? reused : fresh).getErrMsg());
            if (ok1) check(fresh, q, kinds, "fresh");
            if (ok2) check(reused, q, kinds, "reused");
            // nothing of the earlier requests
            if (ok2) for (size_t k = 0; k < past.size(); k++) {
                for (size_t j = 0; j < past[k].heads.size(); j++) { bool now = false; for (size_t a = 0; a < q.heads.size(); a++) now |= lower(q.heads[a].first) == lower(past[k].heads[j].first); if (!now) VT_CHECK(S(reused.getHead(past[k].heads[j].first)).empty(), "left-over:head", "head " + show(past[k].heads[j].first) + " of an earlier request"); }
                for (size_t j = 0; j < past[k].cookies.size(); j++) { bool now = false; for (size_t a = 0; a < q.cookies.size(); a++) now |= q.cookies[a].first == past[k].cookies[j].first; S v; if (!now) { reused.getCookie(past[k].cookies[j].first, v, ""); VT_CHECK(v.empty(), "left-over:cookie", "cookie of an earlier request"); } }
                for (size_t j = 0; j < past[k].parts.size(); j++) { bool now = false; for (size_t a = 0; a < q.parts.size(); a++) now |= q.parts[a].isfile && q.parts[a].name == past[k].parts[j].name; if (!now) VT_CHECK(reused.getFile(past[k].parts[j].name).empty() && reused.getFileName(past[k].parts[j].name).empty(), "left-over:file", "file of an earlier request"); }
                count("left_over_checks");
            }
        }
        past.push_back(q);
    }
    distinct("history", h);
    if (r.chance(2)) sample(show(past[0].wire, 380));
}
int main(int argc, char **argv) { init(argc, argv); cases(one); return done(); }
