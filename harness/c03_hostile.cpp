// C03: decoders fed with hostile bytes. Oracles: sanitizers, exactly sized inputs, heap accounting, and
// independent decoders that say whether the bytes denote a value and which.
#include "anytree.h"
#include "memwatch.h"
#include "CAnyPackage.h"
#include "CPackage.h"
#include "CHttpReader.h"
#include <typeinfo>
using namespace at;
using namespace lce;

enum Out { VALUE, ERR, BAD };
template <class F> static Out attempt(F f, const char *what, const std::string &in) {
    try { f(); return VALUE; }
    catch (std::runtime_error &) { return ERR; }
    catch (std::exception &e) { vt::fail(std::string("exception:") + what, std::string(what) + " on " + vt::hex(in) + " throws " + typeid(e).name() + ": " + e.what()); return BAD; }
}
static void mem_verdict(const mw::Scope &m, const std::string &in, const char *what) {
    // containers cost up to ~700 bytes for a 1 byte input element (an empty deque); everything beyond is unbounded
    int64_t bound = 4096LL * (int64_t)in.size() + 300000;
    if (m.peak() > bound) vt::fail(std::string("memory:") + what, vt::fmt("%s: %lld bytes allocated at once for %zu bytes of input ", what, (long long)m.peak(), in.size()) + vt::hex(in));
}
static int depth_of(const Tree &t) { int d = 0; for (size_t i = 0; i < t.v.size(); i++) d = std::max(d, depth_of(t.v[i])); for (std::map<std::string, Tree>::const_iterator i = t.m.begin(); i != t.m.end(); ++i) d = std::max(d, depth_of(i->second)); return d + 1; }

static void bin_case(const std::string &in, const char *what) {
    vt::cur_append(std::string(what) + " binary " + vt::hex(in, 20000) + "\n");
    Tree want; bool ok = true, deep = false; size_t p = 0;
    try { want = bin_read(in, p); deep = depth_of(want) > 200; } catch (BadBin &) { ok = false; }
    mw::Scope m;
    {
        vt::Exact e(in); CAnyValue v; if (vt::get_count("cases") & 1) v["old"]["x"] = "content";
        Out o = attempt([&] { v.decode(e.p, e.n); }, "anyvalue-decode", in);
        mem_verdict(m, in, "anyvalue-decode");
        if (o == VALUE) {
            if (!ok) vt::fail("bin-accepted", std::string(what) + ": bytes that are no complete value are accepted: " + vt::hex(in) + " as " + dump(read(v)));
            else VT_CHECK(eq(read(v), want), "bin-value", vt::hex(in) + " decoded as " + dump(read(v)) + ", denotes " + dump(want));
            vt::count("bin_accepted");
        } else if (o == ERR) { if (ok && !deep) vt::fail("bin-rejected", std::string(what) + ": valid encoding rejected: " + vt::hex(in)); vt::count("bin_rejected"); CAnyValue c(v); (void)c.encode(); v = 1; }
    }
    if (m.live() != 0) vt::fail("leak:anyvalue-decode", vt::fmt("%lld bytes not released after decoding ", (long long)m.live()) + vt::hex(in));
    vt::count("inputs"); vt::distinct("shape", vt::fnv(in));
}
static bool has_dup_key(const std::string &j) { // conservative: the documents with repeated keys have no agreed meaning
    struct S : JsonReader { bool dup; S(const std::string &x) : JsonReader(x), dup(false) {}
        void walk() { ws(); if (c() == '{') { p++; std::set<std::string> ks; ws(); if (c() == '}') { p++; return; } for (;;) { ws(); if (!ks.insert(str()).second) dup = true; ws(); p++; walk(); ws(); if (c() == ',') { p++; continue; } p++; return; } }
            else if (c() == '[') { p++; ws(); if (c() == ']') { p++; return; } for (;;) { walk(); ws(); if (c() == ',') { p++; continue; } p++; return; } } else val(); } };
    S s(j); s.walk(); return s.dup;
}
static bool wide_number(const Tree &t) { // integers beyond 64 bit become doubles in the oracle; the library's choice is its own
    if (t.k == DBL) return true; if (t.k == SINT && t.i == 0) return true; // "-0"
    for (size_t i = 0; i < t.v.size(); i++) if (wide_number(t.v[i])) return true;
    for (std::map<std::string, Tree>::const_iterator i = t.m.begin(); i != t.m.end(); ++i) if (i->first.size() > 255 || wide_number(i->second)) return true;
    return false;
}
static void json_case(const std::string &in, const char *what, bool truncated) {
    vt::cur_append(std::string(what) + " json " + vt::show(in, 20000) + "\n");
    Tree want; bool ok = true, deep = false, skipval = false;
    try { want = JsonReader(in).doc(); deep = depth_of(want) > 200; skipval = has_dup_key(in) || wide_number(want); } catch (BadJson &) { ok = false; }
    mw::Scope m;
    {
        vt::Exact e(in); CAnyValue v; if (vt::get_count("cases") & 1) v["old"]["x"] = "content";
        Out o = attempt([&] { v.decodeJSON(e.p, e.n); }, "anyvalue-decodeJSON", in);
        mem_verdict(m, in, "anyvalue-decodeJSON");
        if (o == VALUE) {
            if (!ok && truncated) vt::fail("json-accepted", std::string(what) + ": JSON text cut short is accepted: " + vt::show(in, 500) + " as " + dump(read(v)));
            if (ok && !skipval) VT_CHECK(eq(read(v), want), "json-value", vt::show(in, 500) + " read as " + dump(read(v)) + ", denotes " + dump(want));
            vt::count("json_accepted"); (void)read(v);
        } else if (o == ERR) { if (ok && !deep && !skipval) vt::fail("json-rejected", std::string(what) + ": valid JSON rejected: " + vt::show(in, 500)); vt::count("json_rejected"); }
    }
    if (m.live() != 0) vt::fail("leak:anyvalue-decodeJSON", vt::fmt("%lld bytes not released after reading ", (long long)m.live()) + vt::show(in));
    vt::count("inputs"); vt::distinct("shape", vt::fnv(in));
}
static std::string mutate(const std::string &s, vt::Rng &r, bool text) {
    std::string o = s; int n = (int)r.range(1, 3);
    static const char *TOK[] = {"\"", "\\", "{", "}", "[", "]", ",", ":", "\\u", "\\ud800", "\\udc00", "null", "true", "1e5", "-", ".", "\x00", "e", " ", "%", "%4", "&", "=", "\r\n", "\r\n\r\n", "--", ";", "Content-Length: ", "boundary="};
    while (n--) {
        if (o.empty()) o = "x";
        size_t p = r.below(o.size());
        switch (r.below(9)) {
        case 0: o[p] = (char)r.next(); break;
        case 1: o[p] ^= (char)(1 << r.below(8)); break;
        case 2: o.erase(p, r.range(1, 4)); break;
        case 3: if (text) o.insert(p, TOK[r.below(sizeof TOK / sizeof TOK[0])]); else o.insert(p, r.bytes(r.range(1, 4))); break;
        case 4: o[p] = (char)(r.chance(50) ? 0xff : r.below(20)); break;
        case 5: { size_t q = r.below(o.size()); size_t l = r.range(1, 12); o.insert(p, o.substr(q, l)); break; }
        case 6: for (size_t k = 0; k < 4 && p + k < o.size(); k++) o[p + k] = r.chance(50) ? (char)0xff : (char)r.next(); break;
        case 7: o.resize(p); break;
        case 8: if (text) o.replace(p, 1, TOK[r.below(sizeof TOK / sizeof TOK[0])]); else o[p] = (char)(r.below(18)); break;
        }
    }
    return o;
}
static void anypkg_case(const std::string &in, vt::Rng &r) {
    vt::cur_append("anypkg " + vt::hex(in, 20000) + "\n");
    bool json = r.chance(40);
    size_t H = sizeof(AnyHeader); Tree want; bool ok = in.size() >= H, skip = false;
    std::string body = in.size() >= H ? in.substr(H) : "";
    if (ok && !body.empty()) { try { if (json) { want = JsonReader(body).doc(); skip = has_dup_key(body) || wide_number(want); } else { size_t p = 0; want = bin_read(body, p); } if (depth_of(want) > 200) skip = true; } catch (BadBin &) { ok = false; } catch (BadJson &) { ok = false; skip = true; } }
    mw::Scope m;
    {
        vt::Exact e(in); CAnyPackage p; p["old"] = "x";
        Out o = attempt([&] { if (json) { if (r.chance(50)) p.decodeJSON(e.p, e.n); else p.decodeJSON((unsigned char *)e.p, e.n); } else { if (r.chance(50)) p.decode(e.p, e.n); else p.decode((unsigned char *)e.p, e.n); } }, json ? "anypackage-decodeJSON" : "anypackage-decode", in);
        mem_verdict(m, in, "anypackage-decode");
        if (o == VALUE) {
            if (in.size() < H) vt::fail("pkg-short", "package shorter than its header accepted: " + vt::hex(in));
            else if (!skip) { if (!ok) vt::fail("pkg-accepted", "malformed package body accepted: " + vt::hex(in) + " as " + dump(read(p.getRoot())));
                else VT_CHECK(eq(read(p.getRoot()), want), "pkg-body", vt::hex(in) + " body read as " + dump(read(p.getRoot())) + ", denotes " + dump(want)); }
            if (in.size() >= H) VT_CHECK(memcmp(&p.head(), in.data(), H) == 0, "pkg-head", "header bytes changed");
            vt::count("pkg_accepted");
        } else if (o == ERR) { if (ok && !skip) vt::fail("pkg-rejected", vt::fmt("valid package rejected (json=%d): ", json) + vt::hex(in)); vt::count("pkg_rejected"); }
    }
    if (m.live() != 0) vt::fail("leak:anypackage", vt::fmt("%lld bytes not released ", (long long)m.live()) + vt::hex(in));
    vt::count("inputs"); vt::distinct("shape", vt::fnv(in));
}
#pragma pack(1)
struct Head7 { uint8_t stx; uint16_t len; uint32_t x; };
#pragma pack()
static void cpkg_case(const std::string &in, vt::Rng &r) {
    vt::cur_append("cpackage " + vt::hex(in, 20000) + "\n");
    mw::Scope m;
    {
        vt::Exact e(in);
        CPackage<Head7> *p = 0;
        int how = (int)r.below(3);
        Out o = attempt([&] {
            if (how == 0) p = new CPackage<Head7>(e.p, (int)e.n);
            else { p = new CPackage<Head7>(); if (how == 1) p->setPkgData((unsigned char *)e.p, (int)e.n); else p->setPkgData(in); } }, "cpackage-set", in);
        if (o == VALUE && in.size() < sizeof(Head7)) vt::fail("cpackage-short", vt::fmt("package of %zu bytes, shorter than its header, accepted (way %d)", in.size(), how));
        if (o == ERR && in.size() >= sizeof(Head7)) vt::fail("cpackage-refused", "package refused");
        if (o == VALUE && p) {
            const std::string body = in.size() > sizeof(Head7) ? in.substr(sizeof(Head7)) : "";
            VT_CHECK(p->getPkgBodyLen() == (int)body.size() && p->getPkgLen() == (int)in.size(), "cpackage-len", "lengths");
            size_t pos = 0; int n = (int)r.range(1, 12); bool dead = false;
            while (n-- && !dead) {
                int op = (int)r.below(13); size_t left = body.size() - pos; bool can = false; size_t adv = 0; std::string got, want; Out q = BAD;
                #define RD(T, NB) { T v = 0; q = attempt([&] { *p >> v; }, "cpackage-read", in); can = left >= NB; adv = NB; if (q == VALUE && can) { uint64_t w = 0; for (int k = 0; k < NB; k++) w = w << 8 | (unsigned char)body[pos + k]; if ((T)w != v) vt::fail("cpackage-value", vt::fmt("integer of %d bytes at %zu read as %lld", NB, pos, (long long)v) + " from " + vt::hex(in)); } }
                switch (op) {
                case 0: RD(unsigned char, 1) break; case 1: RD(char, 1) break; case 2: RD(unsigned short, 2) break; case 3: RD(short, 2) break;
                case 4: RD(unsigned int, 4) break; case 5: RD(int, 4) break; case 6: RD(unsigned long long, 8) break; case 7: RD(long, 8) break;
                case 8: { int l = r.chance(70) ? (int)r.below(left + 3) : (int)(r.chance(50) ? -(int)r.below(100) - 1 : 0x7fffffff - (int)r.below(10)); q = attempt([&] { p->read(got, l); }, "cpackage-read", in); can = l >= 0 && (size_t)l <= left; adv = l; if (can) want = body.substr(pos, l); break; }
                case 9: q = attempt([&] { p->readString(got); }, "cpackage-readString", in); { size_t z = body.find('\0', pos); can = left > 0; if (z == std::string::npos) { want = body.substr(pos); adv = left; } else { want = body.substr(pos, z - pos); adv = z - pos + 1; } } break;
                case 10: case 11: case 12: { int nb = op == 10 ? 1 : op == 11 ? 2 : 4; q = attempt([&] { if (nb == 1) p->readString1(got); else if (nb == 2) p->readString2(got); else p->readString4(got); }, "cpackage-readStringN", in);
                    if (left >= (size_t)nb) { uint64_t l = 0; for (int k = 0; k < nb; k++) l = l << 8 | (unsigned char)body[pos + k]; can = l <= left - nb; if (can) { want = body.substr(pos + nb, l); adv = nb + l; } } break; }
                }
                if (q == VALUE && !can) { vt::fail("cpackage-past-end", vt::fmt("read operation %d at position %zu of a %zu byte body succeeded: ", op, pos, body.size()) + vt::hex(in)); dead = true; }
                else if (q == ERR && can) { vt::fail("cpackage-denied", vt::fmt("read operation %d at position %zu of a %zu byte body failed: ", op, pos, body.size()) + vt::hex(in)); dead = true; }
                else if (q == VALUE) { VT_CHECK(got == want, "cpackage-bytes", "read " + vt::hex(got) + " instead of " + vt::hex(want)); pos += adv; vt::count("cpkg_reads"); }
                else { vt::count("cpkg_errors"); dead = true; } // the position after an error is unspecified
            }
        }
        delete p;
    }
    if (m.live() != 0) vt::fail("leak:cpackage", vt::fmt("%lld bytes not released ", (long long)m.live()) + vt::hex(in));
    vt::count("inputs"); vt::distinct("shape", vt::fnv(in));
}
static std::string http_seed(vt::Rng &r) {
    std::string s;
    switch (r.below(5)) {
    case 0: return "GET /a/b?x=1&y=%41%20b+c&z HTTP/1.1\r\nHost: h\r\nCookie: a=b; c=%31; d\r\nX-Y: z\r\n\r\n";
    case 1: return "POST /p?q=1 HTTP/1.1\r\nHost: h\r\nContent-Length: 11\r\n\r\na=1&b=%42%4";
    case 2: return "POST /up HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=XX\r\nContent-Length: 999\r\n\r\n--XX\r\nContent-Disposition: form-data; name=\"a\"\r\n\r\nv%1\r\n--XX\r\nContent-Disposition: form-data; name=\"f\"; filename=\"t.bin\"\r\nContent-Type: text/plain\r\n\r\nDATA\r\n--XX--\r\n";
    case 3: return "HEAD / HTTP/1.0\r\nIf-Modified-Since: Sun, 06 Nov 1994 08:49:37 GMT\r\nIf-Unmodified-Since: Sunday, 06-Nov-94 08:49:37 GMT\r\n\r\n";
    default: return "POST / HTTP/1.1\r\n\r\n" + r.bytes(r.below(40));
    }
}
static void http_case(const std::string &in, CHttpReader &reused) {
    vt::cur_append("http " + vt::show(in, 20000) + "\n");
    mw::Scope m;
    {
        vt::Exact e(in); CHttpReader rd; bool ok = false;
        try {
            ok = rd.setData(e.p, (int)e.n);
            mem_verdict(m, in, "http-reader");
            // whatever was understood must consist of bytes that were sent
            if (ok) {
                std::string uri = rd.getURI(), ver = rd.getVersion(); size_t total = 0;
                VT_CHECK(in.find(uri) != std::string::npos && in.find(ver) != std::string::npos, "http-foreign", "uri or version not from the request");
                std::string body; rd.getValue(body); VT_CHECK(body.size() <= in.size() && in.find(body) != std::string::npos, "http-foreign-body", "body is not part of the request: " + vt::show(body) + " of " + vt::show(in, 500));
                const std::map<std::string, std::string> &v = rd.getValueList(); for (std::map<std::string, std::string>::const_iterator i = v.begin(); i != v.end(); ++i) total += i->second.size();
                VT_CHECK(total <= 2 * in.size(), "http-foreign", "parameters larger than the request");
                (void)rd.getHost(); (void)rd.getCookieList(); (void)rd.getContentLength(); (void)rd.getIfModifiedSinceTime(); (void)rd.getIfUnmodifiedSinceTime();
                std::string c; rd.getCookie("a", c); rd.getFile("f"); rd.getFileName("f"); rd.getFileType("f"); rd.getHead(std::string("X-Y"));
                vt::count("http_accepted");
            } else vt::count("http_rejected");
            bool ok2 = reused.setData(e.p, (int)e.n);
            VT_CHECK(ok == ok2, "http-reuse", "a used reader judges the request differently: " + vt::show(in, 500));
            reused.clear();
        } catch (std::exception &x) { vt::fail("exception:http-reader", std::string("request reader throws ") + typeid(x).name() + " " + x.what() + " on " + vt::show(in, 600)); }
    }
    vt::count("inputs"); vt::distinct("shape", vt::fnv(in));
}

int main(int argc, char **argv) {
    vt::init(argc, argv);
    { CAnyValue w; w["a"]; const CAnyValue &cw = w; cw["b"]; cw[std::string("b")]; try { w.decode("", 0); } catch (...) {} vt::get_count("cases"); }
    mw::install();
    if (vt::mode("bin")) {
        vt::cases([](vt::Rng &r, uint64_t i) {
            GenOpt o; o.pos_sint = true; o.budget = 25; o.maxstr = 300; Tree t = gen(r, o); std::string f;
            if (r.chance(50)) { CAnyValue v; build(t, v, r); f = v.encode(); } else bin_write(t, f, r);
            if (i < 2) vt::sample(vt::hex(f));
            if (f.size() < 400) for (size_t n = 0; n < f.size(); n++) { bin_case(f.substr(0, n), "prefix"); vt::count("prefixes"); }
            for (int k = 0; k < 12; k++) bin_case(mutate(f, r, false), "mutated");
            bin_case(r.bytes(r.below(40)), "random");
            // a map that repeats a key with values of different types
            std::string d; d += (char)8; be(d, 3, 4); for (int k = 0; k < 3; k++) { d += (char)1; d += 'a'; Tree x = gen(r, o); bin_write(k == 0 ? Tree::UInt(r.next()) : x, d, r); } bin_case(d, "repeated key");
            vt::distinct("valid_shapes", shape(t));
        });
    } else if (vt::mode("json")) {
        vt::cases([](vt::Rng &r, uint64_t i) {
            GenOpt o; o.utf8 = true; o.nonfinite = false; o.budget = 20; o.maxstr = 60; Tree t = gen(r, o); std::string j; json_write(t, j, r, (int)r.below(20));
            if (i < 2) vt::sample(vt::show(j));
            bool cont = t.k == VEC || t.k == MAP || t.k == STR;
            if (j.size() < 500) for (size_t n = 0; n < j.size(); n++) { json_case(j.substr(0, n), "prefix", cont); vt::count("prefixes"); }
            for (int k = 0; k < 12; k++) json_case(mutate(j, r, true), "mutated", false);
            json_case(r.bytes(r.below(30)), "random", false);
        });
    } else if (vt::mode("extreme")) {
        vt::cases([](vt::Rng &r, uint64_t) {
            static const size_t N[] = {1000, 5000, 20000, 100000, 1000000};
            for (size_t k = 0; k < 5; k++) {
                size_t n = N[k]; std::string s; vt::cur(vt::fmt("depth %zu", n));
                for (int kind = 0; kind < 4; kind++) {
                    s.clear();
                    for (size_t d = 0; d < n; d++) { bool vec = kind == 0 || (kind == 2 && d % 2) || kind == 3; s += (char)(vec ? 7 : 8); be(s, kind == 3 ? 0x7fffffff : 1, 4); if (!vec) { s += (char)1; s += 'k'; } }
                    { vt::Exact e(s); mw::Scope m; { CAnyValue v; Out o = attempt([&] { v.decode(e.p, e.n); }, "anyvalue-decode", s.substr(0, 40)); mem_verdict(m, s, "anyvalue-decode-deep"); if (o == VALUE) vt::fail("bin-accepted", "incomplete deep value accepted"); } if (m.live()) vt::fail("leak:anyvalue-decode", "deep value leaked"); }
                    if (kind != 3) { s += (char)12; vt::Exact e(s); CAnyValue v; attempt([&] { v.decode(e.p, e.n); CAnyValue c(v); (void)c.encode(); (void)c.encodeJSON(); (void)c.encodeXML(); }, "anyvalue-decode", s.substr(0, 40)); }
                    vt::count("extremes");
                }
                for (int kind = 0; kind < 3; kind++) {
                    s.clear(); std::string close;
                    for (size_t d = 0; d < n; d++) { bool vec = kind == 0 || (kind == 2 && d % 2); s += vec ? "[" : "{\"k\":"; close += vec ? "]" : "}"; }
                    { vt::Exact e(s); mw::Scope m; { CAnyValue v; Out o = attempt([&] { v.decodeJSON(e.p, e.n); }, "anyvalue-decodeJSON", s.substr(0, 40)); mem_verdict(m, s, "anyvalue-decodeJSON-deep"); if (o == VALUE) vt::fail("json-accepted", "incomplete deep JSON accepted"); } }
                    std::reverse(close.begin(), close.end()); s += "1" + close;
                    { vt::Exact e(s); CAnyValue v; attempt([&] { v.decodeJSON(e.p, e.n); CAnyValue c(v); (void)c.encodeJSON(); }, "anyvalue-decodeJSON", s.substr(0, 40)); }
                    vt::count("extremes");
                }
            }
            // a value refused for its depth must not spoil what comes after it
            for (int k = 0; k < 1500; k++) {
                std::string s, j, close; size_t n = k % 3 == 0 ? 2000 : 200;
                for (size_t d = 0; d < n; d++) { bool vec = (d + k) % 2; s += (char)(vec ? 7 : 8); be(s, 1, 4); if (!vec) { s += (char)1; s += 'k'; } j += vec ? "[" : "{\"k\":"; close += vec ? "]" : "}"; }
                s += (char)12; std::reverse(close.begin(), close.end()); j += "1" + close; if (k % 3 == 1) { s.resize(s.size() - 1); j.resize(j.size() - 1 - r.below(100)); }
                vt::Exact e(s), f(j); CAnyValue v; vt::cur(vt::fmt("depth sequence %d", k));
                Out o = attempt([&] { v.decode(e.p, e.n); }, "anyvalue-decode", s.substr(0, 40)), q = attempt([&] { v.decodeJSON(f.p, f.n); }, "anyvalue-decodeJSON", j.substr(0, 40));
                if (k % 3 == 2 && (o != VALUE || q != VALUE)) { vt::fail("depth-memory", vt::fmt("a value of depth 200 is refused (binary %d, JSON %d) after %d deeper or incomplete ones", o != VALUE, q != VALUE, k)); break; }
                vt::count("depth_sequences");
            }
            // claims of sizes that are not there
            for (int tag = 0; tag < 256; tag++) for (int len = 0; len < 12; len++) for (int fill = 0; fill < 4; fill++) {
                std::string s(1, (char)tag); s += fill == 0 ? std::string(len, (char)0xff) : fill == 1 ? std::string(len, 0) : fill == 2 ? r.bytes(len) : std::string("\0\0\0\1", 4).substr(0, std::min(len, 4)) + r.bytes(len > 4 ? len - 4 : 0);
                vt::cur(""); bin_case(s, "tag sweep"); vt::count("tags");
                std::string h = std::string("\x08\0\0\0\1\1k", 7) + s; bin_case(h, "tag in map"); std::string v = std::string("\x07\0\0\0\1", 5) + s; bin_case(v, "tag in array");
            }
        });
    } else if (vt::mode("pkg")) {
        vt::cases([](vt::Rng &r, uint64_t) {
            GenOpt o; o.budget = 15; o.maxstr = 100; o.utf8 = r.chance(50); o.nonfinite = false; Tree t = gen(r, o); std::string f = r.bytes(sizeof(AnyHeader));
            if (o.utf8 && r.chance(50)) json_write(t, f, r, 10); else bin_write(t, f, r);
            for (size_t n = 0; n <= sizeof(AnyHeader) + 12 && n <= f.size(); n++) anypkg_case(f.substr(0, n), r);
            anypkg_case(f, r); for (int k = 0; k < 8; k++) anypkg_case(mutate(f, r, false), r);
            if (f.size() > sizeof(AnyHeader) + 1) for (int k = 0; k < 8; k++) anypkg_case(f.substr(0, r.range(sizeof(AnyHeader), f.size())), r);
            for (int k = 0; k < 10; k++) { std::string s = r.bytes(r.below(40)); if (r.chance(60)) for (size_t q = 7; q < s.size(); q++) if (r.chance(70)) s[q] = (char)r.below(4); cpkg_case(s, r); }
        });
    } else if (vt::mode("http")) {
        static CHttpReader reused;
        vt::cases([](vt::Rng &r, uint64_t i) {
            std::string s = http_seed(r); if (i < 2) vt::sample(vt::show(s));
            http_case(s, reused);
            if (i < 6) for (size_t n = 0; n < s.size(); n++) http_case(s.substr(0, n), reused);
            for (int k = 0; k < 10; k++) { std::string q = s; int n = (int)r.range(1, 4); while (n--) q = mutate(q, r, true); http_case(q, reused); }
            for (int k = 0; k < 2; k++) http_case(s.substr(0, r.below(s.size())), reused);
            http_case(r.bytes(r.below(60)), reused);
        });
    } else return 4;
    return vt::done();
}
