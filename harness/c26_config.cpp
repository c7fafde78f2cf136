// C26: ini texts built from a structure, loaded and read back through every getter.
#include "vt.h"
#include "CConfig.h"
#include <sys/mman.h>
using namespace vt;
using lce::CConfig;
typedef std::string S;
typedef std::map<S, std::map<S, S> > Ini;

static int fd = -1;
static bool load(CConfig &c, const S &t) {
    if (ftruncate(fd, 0)) abort(); lseek(fd, 0, SEEK_SET); size_t o = 0; while (o < t.size()) { ssize_t n = ::write(fd, t.data() + o, t.size() - o); if (n <= 0) abort(); o += n; }
    return c.loadConfig(fmt("/proc/self/fd/%d", fd));
}
static S trim(S s) { size_t a = s.find_first_not_of(" \t\r\n"); if (a == S::npos) return ""; s.erase(0, a); s.erase(s.find_last_not_of(" \t\r\n") + 1); return s; }
static S blanks(Rng &r, int pct = 40) { S s; if (r.chance(pct)) { size_t n = 1 + r.below(4); while (n--) s += r.chance(60) ? ' ' : '\t'; } return s; }
static S key(Rng &r) {
    for (;;) {
        S s = r.chance(60) ? r.alnum(1 + r.below(8)) : r.chance(50) ? r.pick(std::vector<S>{"a", "b", "key", "a b", "a.b", "a]b", "x#y", "x;y", "a:b", "k[1]", "\xe4\xb8\xad", "default", "-", "a\tb"}) : r.ascii(1 + r.below(20));
        S o; for (size_t i = 0; i < s.size(); i++) if (s[i] != '=') o += s[i];
        o = trim(o); if (o.empty() || o[0] == '[' || o[0] == '#' || o[0] == ';') continue; return o;
    }
}
static S section(Rng &r) {
    for (;;) {
        S s = r.chance(60) ? r.alnum(1 + r.below(6)) : r.chance(60) ? r.pick(std::vector<S>{"main", "a", "a b", "a=b", "=", "x=1", "#c", ";c", "[", "a[b", "\xe4\xb8\xad", "key"}) : r.ascii(1 + r.below(20));
        S o; for (size_t i = 0; i < s.size(); i++) if (s[i] != ']') o += s[i];
        o = trim(o); if (!o.empty()) return o;
    }
}
static S plain_value(Rng &r, S &kind);
static S value(Rng &r, S &kind) { // numbers also with leading zeros
    S v = plain_value(r, kind); if (kind != "text" && r.chance(15)) { bool neg = v[0] == '-'; v = (neg ? "-" : r.chance(20) ? "+" : "") + S(1 + r.below(4), '0') + v.substr(neg); } return v; }
static S plain_value(Rng &r, S &kind) {
    kind = "text";
    switch (r.below(9)) {
    case 0: return "";
    case 1: kind = "u8"; return fmt("%d", (int)r.pick(std::vector<int>{0, 1, 9, 127, 128, 255}));
    case 2: kind = "u16"; return fmt("%d", (int)r.pick(std::vector<int>{0, 256, 32768, 65535, 1000}));
    case 3: kind = "int"; return fmt("%d", r.chance(50) ? (int)r.next() : r.pick(std::vector<int>{0, -1, 2147483647, -2147483647 - 1}));
    case 4: kind = "u32"; return fmt("%u", r.chance(50) ? (unsigned)r.next() : r.pick(std::vector<unsigned>{0, 2147483648u, 4294967295u}));
    case 5: if (r.chance(50)) { kind = "long"; return fmt("%lld", (long long)(r.chance(50) ? r.next() : r.pick(std::vector<uint64_t>{0, 1ull << 63, (1ull << 63) - 1, ~0ull, 4294967296ull, 1ull << 40}))); } kind = "u64"; return fmt("%llu", (unsigned long long)(r.chance(50) ? r.next() : r.pick(std::vector<uint64_t>{0, 1ull << 63, (1ull << 63) - 1, ~0ull, 4294967296ull})));
    case 6: return r.pick(std::vector<S>{"a=b", "==", "=", "# no comment", "; no comment", "a ; b", "a # b", "[x]", "\"quoted\"", "a  b\tc", "100%", "\\n", "\xe4\xb8\xad\xe6\x96\x87", "key=value"});
    case 7: return trim(r.ascii(1 + r.below(r.chance(10) ? 20000 : 60)));
    default: return r.alnum(1 + r.below(20));
    }
}
struct Kinds { std::map<std::pair<S, S>, S> k; };
static S text(Rng &r, Ini &m, Kinds &kinds, std::vector<S> &notkeys) {
    S t, sec; bool crlf = r.chance(30), messy = r.chance(60); int lines = (int)r.pick(std::vector<int>{0, 1, 5, 15, 40, r.chance(5) ? 1500 : 10}); std::vector<S> secs; secs.push_back("");
    for (int i = 0; i < lines; i++) {
        S nl = messy && r.chance(10) ? (crlf ? "\n" : "\r\n") : crlf ? "\r\n" : "\n"; if (i + 1 == lines && r.chance(40)) nl = "";
        S ind = messy ? blanks(r, 30) : ""; int k = (int)r.below(100);
        if (k < 12) { sec = r.chance(30) && secs.size() > 1 ? r.pick(secs) : section(r); if (sec.empty()) sec = section(r); secs.push_back(sec); S tail = r.chance(85) ? blanks(r, 20) : r.pick(std::vector<S>{" # comment", " ; c=d", "x", " k=v]"}); t += ind + "[" + blanks(r, 15) + sec + blanks(r, 15) + "]" + tail + nl; count("sections"); notkeys.push_back("[" + sec + "]"); }
        else if (k < 18) { t += ind + nl; count("blank_lines"); }
        else if (k < 27) { S c = r.pick(std::vector<S>{"comment", "a=b", " [x]", "key = value", "", "[y] = z"}); t += ind + (r.chance(50) ? "#" : ";") + c + nl; notkeys.push_back("#" + c.substr(0, c.find('='))); notkeys.push_back(";" + c.substr(0, c.find('='))); count("comments"); }
        else if (k < 31) { S j = r.alnum(1 + r.below(10)) + r.pick(std::vector<S>{"", " x", ":1", "]"}); t += ind + j + nl; notkeys.push_back(j); notkeys.push_back(""); count("junk_lines"); }
        else if (k < 33) { t += ind + "=" + r.alnum(3) + nl; notkeys.push_back(""); count("no_key"); }
        else {
            S n = r.chance(25) && !m[sec].empty() ? m[sec].begin()->first : key(r), kind, v = value(r, kind);
            if (m[sec].count(n)) count("duplicates");
            m[sec][n] = v; kinds.k[std::make_pair(sec, n)] = kind; t += ind + n + blanks(r) + "=" + blanks(r) + v + blanks(r, 20) + nl; count("entries");
        }
    }
    return t;
}
static void check(CConfig &c, const Ini &m, const Kinds &kinds, const std::vector<S> &notkeys) {
    for (Ini::const_iterator s = m.begin(); s != m.end(); ++s) for (std::map<S, S>::const_iterator e = s->second.begin(); e != s->second.end(); ++e) {
        S v; S &ref = c.getValue(s->first, e->first, v, "default"); count("values");
        if (v != e->second || &ref != &v) { fail("value", "[" + show(s->first) + "] " + show(e->first) + " is " + show(v, 300) + " should be " + show(e->second, 300)); continue; }
        S k = kinds.k.find(std::make_pair(s->first, e->first))->second; if (k == "text") continue;
        const S &A = s->first, &N = e->first; unsigned long long u = strtoull(v.c_str(), 0, 10); long long d = strtoll(v.c_str(), 0, 10); S w = " of " + v; count("numbers");
        int i; unsigned ui; long l; unsigned short us; unsigned char uc; unsigned long ul; bool b;
        if (k == "u8") VT_CHECK(c.getValue(A, N, uc, 77) == u && uc == u, "number:uchar", fmt("%u", uc) + w);
        if (k == "u8" || k == "u16") VT_CHECK(c.getValue(A, N, us, 77) == u && us == u, "number:ushort", fmt("%u", us) + w);
        if (k == "u8" || k == "u16" || k == "int") VT_CHECK(c.getValue(A, N, i, 77) == d && i == d, "number:int", fmt("%d", i) + w);
        if (k == "u8" || k == "u16" || k == "u32") VT_CHECK(c.getValue(A, N, ui, 77) == u && ui == u, "number:uint", fmt("%u", ui) + w);
        if (k != "u64") { VT_CHECK(c.getValue(A, N, l, 77) == d && l == d, "number:long", fmt("%ld", l) + w); VT_CHECK(c.getValue(A, N, b, d == 0) == (d != 0) && b == (d != 0), "number:bool", fmt("%d", b) + w); }
        if (k != "int" && k != "long") VT_CHECK(c.getValue(A, N, ul, 77) == u && ul == u, "number:ulong", fmt("%lu", ul) + w);
    }
    // what the text does not contain
    std::vector<std::pair<S, S> > no; Rng r(m.size());
    for (Ini::const_iterator s = m.begin(); s != m.end(); ++s) { for (size_t i = 0; i < notkeys.size() && i < 40; i++) no.push_back(std::make_pair(s->first, notkeys[i])); no.push_back(std::make_pair(s->first, S("absent"))); }
    for (Ini::const_iterator s = m.begin(); s != m.end(); ++s) for (std::map<S, S>::const_iterator e = s->second.begin(); e != s->second.end() && no.size() < 600; ++e) { no.push_back(std::make_pair("other", e->first)); no.push_back(std::make_pair(S(""), e->first)); no.push_back(std::make_pair(s->first, e->first + "x")); no.push_back(std::make_pair(s->first, " " + e->first)); no.push_back(std::make_pair(" " + s->first, e->first)); }
    for (size_t i = 0; i < no.size(); i++) {
        Ini::const_iterator s = m.find(no[i].first); if (s != m.end() && s->second.count(no[i].second)) continue;
        S v; c.getValue(no[i].first, no[i].second, v, "default"); count("absent");
        VT_CHECK(v == "default", "not-in-file", "[" + show(no[i].first) + "] " + show(no[i].second) + " is " + show(v, 300) + " though it is not in the text");
        int n; unsigned u; long l; unsigned short us; unsigned char uc; unsigned long ul; bool b; const S &A = no[i].first, &N = no[i].second; S ip; unsigned short p;
        VT_CHECK(c.getValue(A, N, n, -5) == -5 && c.getValue(A, N, u, 6) == 6 && c.getValue(A, N, l, -7) == -7 && c.getValue(A, N, us, 8) == 8 && c.getValue(A, N, uc, 9) == 9 && c.getValue(A, N, ul, 10) == 10 && c.getValue(A, N, b, true) && !c.getIPAndPort(A, N, ip, p, "127.0.0.9", 99) && ip == "127.0.0.9" && p == 99, "default", "a default is not returned for [" + show(A) + "] " + show(N));
    }
}
static S ip(Rng &r) { return fmt("%d.%d.%d.%d", (int)(r.chance(30) ? r.below(10) : r.below(256)), (int)(r.chance(30) ? r.below(10) : r.below(256)), (int)(r.chance(30) ? r.below(10) : r.below(256)), (int)(r.chance(30) ? r.below(10) : r.below(256))); }
static void addresses(Rng &r) {
    S t = "[srv]\n"; int n = 1 + (int)r.below(6); std::vector<S> good; std::vector<std::pair<S, unsigned short> > gv; std::vector<std::vector<std::pair<S, unsigned short> > > lists;
    for (int i = 0; i < n; i++) { S a = ip(r); unsigned short p = r.chance(30) ? 1 + r.below(9) : 1 + r.below(65535); gv.push_back(std::make_pair(a, p)); t += fmt("a%d = %s:%u\n", i, a.c_str(), p);
        std::vector<std::pair<S, unsigned short> > l; int k = 1 + (int)r.below(8); S line; for (int j = 0; j < k; j++) { S b = ip(r); unsigned short q = 1 + r.below(65535); l.push_back(std::make_pair(b, q)); line += (j ? "|" : "") + S(r.chance(5) ? "|" : "") + fmt("%s:%u", b.c_str(), q); } if (r.chance(10)) line += "|"; lists.push_back(l); t += fmt("l%d = ", i) + line + "\n"; }
    static const char *BAD[] = {"", "1.2.3.4", ":80", "1.2.3.4:", "1.2.3.4:0", "1.2.3.4:x", "80", "|", "1.2.3.4:65536", "1.2.3.4:70000", "1.2.3.4:-1", "1.2.3.4:4294967376"}; for (int i = 0; i < 12; i++) t += fmt("b%d=%s\n", i, BAD[i]);
    cur(t); CConfig c; VT_CHECK(load(c, t), "load", "load failed"); count("address_files"); S a; unsigned short p; std::vector<std::pair<S, unsigned short> > l;
    for (int i = 0; i < n; i++) {
        bool ok = c.getIPAndPort("srv", fmt("a%d", i), a, p, "9.9.9.9", 9); count("addresses"); VT_CHECK(ok && a == gv[i].first && p == gv[i].second, "address", fmt("%s:%u read as %d %s:%u", gv[i].first.c_str(), gv[i].second, ok, a.c_str(), p));
        l.assign(3, std::make_pair(S("old"), 1)); ok = c.getIPAndPortList("srv", fmt("l%d", i), l, "9.9.9.9", 9); VT_CHECK(ok && l == lists[i], "address-list", fmt("%zu addresses of %zu", l.size(), lists[i].size()));
        ok = c.getIPAndPortList("srv", fmt("a%d", i), l, "9.9.9.9", 9); VT_CHECK(ok && l.size() == 1 && l[0] == gv[i], "address-list-of-one", fmt("%s:%u as a list: %d, %zu", gv[i].first.c_str(), gv[i].second, ok, l.size()));
    }
    for (int i = 0; i < 12; i++) { bool ok = c.getIPAndPort("srv", fmt("b%d", i), a, p, "9.9.9.9", 9); VT_CHECK(!ok && a == "9.9.9.9" && p == 9, "bad-address", S(BAD[i]) + fmt(" accepted as %s:%u", a.c_str(), p)); }
    bool ok = c.getIPAndPortList("srv", "absent", l, "9.9.9.9", 9); VT_CHECK(!ok && l.size() == 1 && l[0].first == "9.9.9.9" && l[0].second == 9, "address-default", "no default list");
}
static void one(Rng &r, uint64_t) {
    if (r.chance(15)) { addresses(r); return; }
    Ini m; Kinds k; std::vector<S> nk; S t = text(r, m, k, nk); cur(show(t, 8000)); distinct("text", fnv(t)); if (r.chance(1)) sample(show(t, 380));
    CConfig c; VT_CHECK(c.getErrMsg()[0] == 0, "err-msg", "error text before any error");
    if (r.chance(10)) { VT_CHECK(!c.loadConfig("/nonexistent/dir/x.ini"), "load-missing", "a missing file was loaded"); VT_CHECK(*c.getErrMsg(), "err-msg", "no error text"); S v; c.getValue("", "x", v, "d"); VT_CHECK(v == "d", "load-missing", "value without a file"); count("missing_files"); }
    VT_CHECK(load(c, t), "load", S("load failed: ") + c.getErrMsg()); count("files"); check(c, m, k, nk);
    if (r.chance(20)) { load(c, t); check(c, m, k, nk); count("reloads"); } // the same text again changes nothing
    if (r.chance(25)) { // another text into the same object: what it says counts, the rest stays
        Ini m2; Kinds k2; std::vector<S> nk2; S t2 = text(r, m2, k2, nk2); cur(show(t, 4000) + " THEN " + show(t2, 4000)); VT_CHECK(load(c, t2), "load", "the second load failed"); for (Ini::iterator s = m2.begin(); s != m2.end(); ++s) for (std::map<S, S>::iterator e = s->second.begin(); e != s->second.end(); ++e) m[s->first][e->first] = e->second;
        for (std::map<std::pair<S, S>, S>::iterator i = k2.k.begin(); i != k2.k.end(); ++i) k.k[i->first] = i->second; nk.insert(nk.end(), nk2.begin(), nk2.end()); check(c, m, k, nk); count("second_files"); }
    if (r.chance(15)) { // random bytes: no crash, and what is returned is in the text
        S b = t; for (int i = 0; i < 10 && !b.empty(); i++) b[r.below(b.size())] = (char)r.next(); if (r.chance(30)) b = r.bytes(r.below(300)); CConfig d; load(d, b); S v; for (Ini::iterator s = m.begin(); s != m.end(); ++s) for (std::map<S, S>::iterator e = s->second.begin(); e != s->second.end(); ++e) { d.getValue(s->first, e->first, v, ""); VT_CHECK(b.find(v) != S::npos, "foreign", "value " + show(v) + " is not in the text"); } count("hostile");
    }
}
int main(int argc, char **argv) { init(argc, argv); fd = memfd_create("ini", MFD_CLOEXEC); cases(one); return done(); }
