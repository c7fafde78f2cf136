// C27: the text, date and address helpers against their plain definitions.
#include "vt.h"
#include <string.h>
#include "Utils.h"
#include "StringHelper.h"
using namespace vt;
typedef std::string S;

static S bytes(Rng &r, size_t max) { // few distinct characters, so that matches and overlaps happen
    size_t n = r.chance(85) ? r.below(std::min<size_t>(max, 12) + 1) : r.below(max + 1); S s(n, 0); int k = (int)r.below(4);
    static const char A[] = "ab", B[] = " \t\r\nx", C[] = "%+ aF09fGz=&";
    for (size_t i = 0; i < n; i++) s[i] = k == 0 ? A[r.below(2)] : k == 1 ? B[r.below(5)] : k == 2 ? C[r.below(12)] : (char)r.next();
    return s;
}
// ---- text
static void replace(Rng &r) {
    S s = bytes(r, 200), f = r.chance(8) ? "" : bytes(r, 3), t = r.chance(30) ? f + f : bytes(r, 5); if (r.chance(10)) t = "x" + f + "x";
    S want; if (f.empty()) want = s; else for (size_t i = 0; i < s.size();) { if (s.compare(i, f.size(), f) == 0) { want += t; i += f.size(); } else want += s[i++]; }
    cur("replace " + show(f) + " by " + show(t) + " in " + show(s, 400)); S g = s; lce::ReplaceStr(g, f, t); count("replace"); distinct("call", fnv(s + "|" + f + "|" + t) ^ 1);
    VT_CHECK(g == want, "replace", show(s) + fmt(": ") + show(f) + " by " + show(t) + " gives " + show(g) + " should be " + show(want));
}
static void split(Rng &r) {
    S s = bytes(r, 200), p = r.chance(6) ? "" : bytes(r, 3); std::vector<S> want, pre; if (r.chance(20)) pre.push_back("before");
    want = pre; if (p.empty()) want.push_back(s); else { size_t b = 0; for (size_t i = 0; i <= s.size();) { if (i + p.size() <= s.size() && s.compare(i, p.size(), p) == 0) { want.push_back(s.substr(b, i - b)); i += p.size(); b = i; } else if (i == s.size()) { want.push_back(s.substr(b)); break; } else i++; } }
    cur("split " + show(s, 400) + " at " + show(p)); std::vector<S> g = pre; count("split"); distinct("call", fnv(s + "|" + p) ^ 2);
    try { lce::SplitStr(s, p, g); } catch (std::exception &x) { fail("split-throws", S(x.what()) + " for " + show(s) + " at " + show(p)); return; }
    VT_CHECK(g == want, p.empty() ? "split-empty" : "split", show(s) + " at " + show(p) + fmt(" gives %zu pieces should be %zu", g.size(), want.size()));
}
static void middle(Rng &r) {
    S s = bytes(r, 200), b = bytes(r, 3), e = bytes(r, 3); size_t pos = r.chance(60) ? 0 : r.below(s.size() + 3); S out = "old"; count("middle"); distinct("call", fnv(s + "|" + b + "|" + e) ^ pos ^ 3);
    cur(fmt("middle from %zu of ", pos) + show(s, 400) + " between " + show(b) + " and " + show(e));
    size_t i = s.find(b, pos), j = i == S::npos ? S::npos : s.find(e, i + b.size()); size_t g = lce::GetMiddleStr(pos, s, out, b, e);
    if (j == S::npos) VT_CHECK(g == S::npos && out == "old", "middle-none", fmt("found at %zu ", g) + show(out));
    else VT_CHECK(g == j + e.size() && out == s.substr(i + b.size(), j - i - b.size()), "middle", show(s) + fmt(" from %zu: %zu ", pos, g) + show(out) + " between " + show(b) + " and " + show(e));
    size_t at = r.below(s.size() + 3); out = "old"; g = lce::GetMiddleStr(0, s, out, at, e); j = at > s.size() ? S::npos : s.find(e, at);
    if (j == S::npos) VT_CHECK(g == S::npos && out == "old", "middle2-none", fmt("found at %zu", g)); else VT_CHECK(g == j + e.size() && out == s.substr(at, j - at), "middle2", show(s) + fmt(" from %zu: %zu ", at, g) + show(out));
}
static void trim(Rng &r) {
    S s = bytes(r, 200); if (r.chance(40)) { S w; for (int i = 0; i < 3; i++) if (r.chance(60)) w += " \t\r\n"[r.below(4)]; s = w + s + w; }
    size_t a = 0, b = s.size(); while (a < b && s[a] && strchr(" \t\r\n", s[a])) a++; while (b > a && s[b - 1] && strchr(" \t\r\n", s[b - 1])) b--;
    cur("trim " + show(s, 400)); S g = s; lce::TrimStr(g); count("trim"); distinct("call", fnv(s) ^ 4); VT_CHECK(g == s.substr(a, b - a), "trim", show(s) + " gives " + show(g));
}
static void hostport(Rng &r) {
    char sp = r.chance(80) ? ':' : r.pick(std::vector<char>{'/', ' ', '\0', 'a'}); S s = r.chance(50) ? "host" + S(r.chance(80) ? 1 : 0, sp) + fmt("%d", (int)r.below(70000)) : bytes(r, 30); if (r.chance(20)) s += sp; if (r.chance(10)) s = sp + s;
    size_t i = s.find(sp); S h = "oldh", p = "oldp"; cur("host and port of " + show(s)); count("hostport"); distinct("call", fnv(s) ^ 5);
    bool ok = sp == ':' && r.chance(50) ? lce::SplitHostPort(s, h, p) : lce::SplitHostPort(s, h, p, sp);
    if (i == S::npos) VT_CHECK(!ok && h == "oldh" && p == "oldp", "hostport-none", show(s)); else VT_CHECK(ok && h == s.substr(0, i) && p == s.substr(i + 1), "hostport", show(s) + ": " + show(h) + " " + show(p));
    try { // in place
        S x = s, y = "oldp"; ok = lce::SplitHostPort(x, x, y, sp); if (i != S::npos) VT_CHECK(ok && x == s.substr(0, i) && y == s.substr(i + 1), "hostport-in-place", show(s) + ": " + show(x) + " " + show(y));
        x = s; y = "oldh"; ok = lce::SplitHostPort(x, y, x, sp); if (i != S::npos) VT_CHECK(ok && y == s.substr(0, i) && x == s.substr(i + 1), "hostport-in-place", show(s) + ": " + show(y) + " " + show(x));
    } catch (std::exception &x) { fail("hostport-in-place", S(x.what()) + " for " + show(s)); }
}
template <class T> static void tostr1(T v) { std::ostringstream o; o << v; VT_CHECK(lce::ToStr(v) == o.str(), "tostr", lce::ToStr(v) + " / " + o.str()); }
static void tostr(Rng &r) { tostr1((int)r.next()); tostr1((uint64_t)r.next()); tostr1((int64_t)r.next()); tostr1((double)r.range(-9999, 9999) / 16); tostr1(r.ascii(5)); tostr1((char)r.range(32, 126)); tostr1(r.chance(50)); count("tostr"); }
// ---- url and hex
static int hexv(unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static void url(Rng &r) {
    S s = r.chance(50) ? r.bytes(r.below(60)) : bytes(r, 2000); cur("url " + show(s, 1000)); count("url"); distinct("call", fnv(s) ^ 6);
    S e = lce::FormUrlEncode(s), we; for (size_t i = 0; i < s.size(); i++) { unsigned char c = s[i]; if (c < 128 && (isalnum(c) || (c && strchr("-_.", c)))) we += (char)c; else if (c == ' ') we += '+'; else we += fmt("%%%02X", c); }
    VT_CHECK(e == we, "url-encode", show(s) + " is encoded " + show(e) + " should be " + show(we)); S d = lce::FormUrlDecode(e); VT_CHECK(d == s, "url-round-trip", show(s) + " comes back as " + show(d));
    S wd; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '+') wd += ' '; else if (s[i] == '%' && i + 2 < s.size() && hexv(s[i + 1]) >= 0 && hexv(s[i + 2]) >= 0) { wd += (char)(hexv(s[i + 1]) * 16 + hexv(s[i + 2])); i += 2; } else wd += s[i]; }
    d = lce::FormUrlDecode(s); VT_CHECK(d == wd, "url-decode", show(s) + " is decoded " + show(d) + " should be " + show(wd));
}
static void sweep() {
    for (int c = 0; c < 256; c++) {
        S h = lce::charToHex((char)c); VT_CHECK(h == fmt("%02X", c), "char-to-hex", fmt("%d is ", c) + show(h)); VT_CHECK((unsigned char)lce::hexToChar(h[0], h[1]) == c && (unsigned char)lce::hexToChar(tolower(h[0]), tolower(h[1])) == c, "hex-to-char", h);
        for (int d = 0; d < 256; d++) { S s = S("%") + (char)c + (char)d, w = s; if (hexv(c) >= 0 && hexv(d) >= 0) w = S(1, (char)(hexv(c) * 16 + hexv(d))); else { w = "%"; for (int k = 1; k < 3; k++) w += s[k] == '+' ? ' ' : s[k]; } S g = lce::FormUrlDecode(s); if (c != '%' || (hexv(d) < 0)) VT_CHECK(g == w, "url-decode", show(s) + " is decoded " + show(g)); count("swept"); }
    }
}
// ---- dates
static int64_t days_from_civil(int64_t y, int m, int d) { y -= m <= 2; int64_t era = (y >= 0 ? y : y - 399) / 400; unsigned yoe = (unsigned)(y - era * 400), doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + (int64_t)doe - 719468; }
static void civil(int64_t z, int64_t &y, int &m, int &d) { z += 719468; int64_t era = (z >= 0 ? z : z - 146096) / 146097; unsigned doe = (unsigned)(z - era * 146097), yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; y = (int64_t)yoe + era * 400; unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153; d = doy - (153 * mp + 2) / 5 + 1; m = mp < 10 ? mp + 3 : mp - 9; if (m <= 2) y++; }
static const char *D[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"}, *M[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
static const char *LD[] = {"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"};
static void at(int64_t t, bool full) {
    int64_t day = t >= 0 ? t / 86400 : -((-(t + 1)) / 86400) - 1, y; int sec = (int)(t - day * 86400), m, d; civil(day, y, m, d); int wd = (int)(((day % 7) + 11) % 7);
    S hms = fmt("%02d:%02d:%02d", sec / 3600, sec / 60 % 60, sec % 60), want = fmt("%s, %02d %s %04lld %s GMT", D[wd], d, M[m - 1], (long long)y, hms.c_str());
    cur(fmt("time %lld", (long long)t)); S g = lce::GetGMTDate((time_t)t); count("dates"); VT_CHECK(g == want, "gmt-date", fmt("%lld is %s should be %s", (long long)t, g.c_str(), want.c_str()));
    if (y >= 1970 && y < 2040) {
        VT_CHECK((int64_t)lce::Gmt2Time(want.c_str()) == t, "gmt-inverse", want + fmt(" is read as %lld should be %lld", (long long)lce::Gmt2Time(want.c_str()), (long long)t));
        if (!full) return;
        S f[4] = {fmt("%s, %02d-%s-%02d %s GMT", LD[wd], d, M[m - 1], (int)(y % 100), hms.c_str()), fmt("%s %s %2d %s %04d", D[wd], M[m - 1], d, hms.c_str(), (int)y), fmt("%s, %d %s %d %s GMT", D[wd], d, M[m - 1], (int)y, hms.c_str()), fmt("%s, %02d-%s-%04d %s GMT", D[wd], d, M[m - 1], (int)y, hms.c_str())};
        for (int i = 0; i < 4; i++) { count("date_forms"); VT_CHECK((int64_t)lce::Gmt2Time(f[i].c_str()) == t, fmt("gmt-form-%d", i), f[i] + fmt(" is read as %lld should be %lld", (long long)lce::Gmt2Time(f[i].c_str()), (long long)t)); }
    } else if (y >= 100 && y < 9999) { VT_CHECK(lce::Gmt2Time(want.c_str()) == 0 , "gmt-outside", want + fmt(" is read as %lld", (long long)lce::Gmt2Time(want.c_str()))); }
}
static int64_t cstr(const S &s) { size_t n = strlen(s.c_str()); char *p = (char *)malloc(n + 1); memcpy(p, s.c_str(), n + 1); int64_t t = lce::Gmt2Time(p); free(p); return t; } // an access behind the end is seen
static void dates(Rng &r) {
    static const int64_t E[] = {0, -1, 1, 86399, 86400, 68169600, 951782399, 951782400, 951868800, 2147483647, 2147483648ll, 2208988799ll, 2208988800ll, -86400, -86401, -2208988800ll, 253402300799ll, -62135596800ll, 4107542400ll};
    for (int i = 0; i < 40; i++) { int64_t t = r.chance(20) ? E[r.below(19)] + r.range(-2, 2) : r.chance(80) ? (int64_t)r.below(2208988800ull) : r.range(-62135596800ll, 253402300799ll); at(t, true); distinct("call", (uint64_t)t ^ 7); }
    int64_t H[] = {INT64_MAX, INT64_MIN, INT64_MAX / 2, 67768036191676799ll, 67768036191676800ll, -67768040609740800ll, -67768040609740801ll, (int64_t)r.next(), 67767976233532799ll, 67767976233532800ll}; for (int i = 0; i < 10; i++) { cur(fmt("far time %lld", (long long)H[i])); S s = lce::GetGMTDate((time_t)H[i]); count("far_dates"); (void)s; }
    // malformed: total, and nothing behind the end is looked at
    S ok = lce::GetGMTDate((time_t)r.below(2208988800ull)), alt = "Sunday, 06-Nov-94 08:49:37 GMT", asc = "Sun Nov  6 08:49:37 1994"; const S B[] = {ok, alt, asc};
    for (int k = 0; k < 3; k++) for (size_t n = 0; n <= B[k].size(); n++) { cur("date " + show(B[k].substr(0, n))); int64_t t = cstr(B[k].substr(0, n)); count("cut_dates"); if (n < (k == 2 ? 24u : 24u)) VT_CHECK(t == 0 || (k == 1 && n >= 24), "gmt-cut", show(B[k].substr(0, n)) + fmt(" is read as %lld", (long long)t)); }
    for (int i = 0; i < 60; i++) { S s = B[r.below(3)]; int n = 1 + (int)r.below(3); while (n-- && !s.empty()) { size_t p = r.below(s.size()); switch (r.below(3)) { case 0: s[p] = (char)r.next(); break; case 1: s.erase(p, 1 + r.below(4)); break; default: s.insert(p, 1, " -:0aJ9"[r.below(7)]); } } cur("date " + show(s)); cstr(s); count("bad_dates"); }
    for (int i = 0; i < 20; i++) { S s = bytes(r, 40); cur("date " + show(s)); cstr(s); }
}
static void every_day() { for (int64_t d = -1000; d < days_from_civil(2041, 1, 1); d++) { at(d * 86400, false); at(d * 86400 + 86399, d % 16 == 0); count("days"); } for (int h = 0; h < 86400; h += 7) at(1000000000ll - 1000000000ll % 86400 + h, h % 100 == 0); }
// ---- addresses, hashes, clocks, byte order
static void misc(Rng &r) {
    uint32_t ip = r.chance(30) ? r.pick(std::vector<uint32_t>{0, 0xffffffffu, 0x7f000001u, 0x01020304u, 0xff000000u, 0x80000000u}) : (uint32_t)r.next(); cur(fmt("ip %u", ip)); count("addresses"); distinct("call", ip ^ 8ull << 40);
    VT_CHECK(lce::InetNtoA(ip) == fmt("%u.%u.%u.%u", ip >> 24, ip >> 16 & 255, ip >> 8 & 255, ip & 255), "address", fmt("%08x is ", ip) + lce::InetNtoA(ip));
    uint64_t v = r.chance(30) ? 1ull << r.below(64) : r.next(); uint64_t n = htonll(v); unsigned char b[8]; memcpy(b, &n, 8); for (int i = 0; i < 8; i++) VT_CHECK(b[i] == (unsigned char)(v >> (56 - 8 * i)), "byte-order", fmt("%llx", (unsigned long long)v)); VT_CHECK(ntohll(n) == v, "byte-order", "no inverse");
    S s = bytes(r, 100); Exact e(s); size_t h = 0; for (size_t i = 0; i < s.size(); i++) h = 5 * h + s[i]; VT_CHECK(lce::Hash(e.p, e.n) == h && lce::Hash(s) == h, "hash", show(s)); count("hashes");
    int x = (int)r.next(); unsigned u = (unsigned)x; long l = (long)r.next(); unsigned long ul = (unsigned long)l; VT_CHECK(lce::Hash(x) == lce::Hash((char *)&x, sizeof x) && lce::Hash(u) == lce::Hash(x) && lce::Hash(l) == lce::Hash((char *)&l, sizeof l) && lce::Hash(ul) == lce::Hash(l), "hash", "of numbers");
    if (r.chance(10)) {
        timeval a, c; gettimeofday(&a, 0); uint64_t t = lce::GetTickCount(); gettimeofday(&c, 0); VT_CHECK(t >= (uint64_t)a.tv_sec * 1000 + a.tv_usec / 1000 && t <= (uint64_t)c.tv_sec * 1000 + c.tv_usec / 1000, "tick", fmt("%llu", (unsigned long long)t));
        time_t t0 = time(0); S g = lce::GetTimeString(); time_t t1 = time(0); bool ok = false; for (time_t q = t0; q <= t1; q++) { struct tm m; localtime_r(&q, &m); ok |= g == fmt("%04d-%02d-%02d %02d:%02d:%02d", m.tm_year + 1900, m.tm_mon + 1, m.tm_mday, m.tm_hour, m.tm_min, m.tm_sec); } VT_CHECK(ok, "time-string", g); count("clocks");
    }
}
static void one(Rng &r, uint64_t i) { for (int k = 0; k < 30; k++) { replace(r); split(r); middle(r); trim(r); hostport(r); url(r); misc(r); } tostr(r); dates(r); if (i < 2) sample("replace/split/middle/trim/hostport/url/dates/addresses"); }
// the same helpers from several threads at once
struct Th { uint64_t salt; int n, bad; S what; };
static void *together(void *p) {
    Th *a = (Th *)p; Rng r(a->salt); static const char *D[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"}, *M[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
    for (int i = 0; i < a->n && !a->bad; i++) {
        time_t t = (time_t)r.below(2208988800ull); struct tm m; gmtime_r(&t, &m); S want = fmt("%s, %02d %s %04d %02d:%02d:%02d GMT", D[m.tm_wday], m.tm_mday, M[m.tm_mon], m.tm_year + 1900, m.tm_hour, m.tm_min, m.tm_sec), g = lce::GetGMTDate(t);
        if (g != want) { a->bad = 1; a->what = "date " + g + " instead of " + want; } else if (lce::Gmt2Time(g.c_str()) != t) { a->bad = 1; a->what = g + " is read as something else"; }
        S b = r.bytes(r.below(40)); if (lce::FormUrlDecode(lce::FormUrlEncode(b)) != b) { a->bad = 1; a->what = "url encoding of " + show(b); }
        uint32_t ip = (uint32_t)r.next(); if (lce::InetNtoA(ip) != fmt("%u.%u.%u.%u", ip >> 24, ip >> 16 & 255, ip >> 8 & 255, ip & 255)) { a->bad = 1; a->what = "address " + lce::InetNtoA(ip); }
        if (lce::GetTimeString().size() != 19) { a->bad = 1; a->what = "time " + lce::GetTimeString(); }
    }
    return 0;
}
static void threads(Rng &r, uint64_t) { Th a[4]; pthread_t t[4]; for (int i = 0; i < 4; i++) { a[i].salt = r.next(); a[i].n = 300; a[i].bad = 0; pthread_create(&t[i], 0, together, &a[i]); } for (int i = 0; i < 4; i++) { pthread_join(t[i], 0); if (a[i].bad) fail("threads", "with three other threads: " + a[i].what); count("shared_calls", 300 * 5); } }
int main(int argc, char **argv) { init(argc, argv); static const char *Z[] = {"UTC0", "CST-8", "EST5EDT", "XYZ-13:45", "ABC11:30", "IST-5:30", "NZST-12NZDT"}; setenv("TZ", Z[(st().seed + st().shard) % 7], 1); tzset(); if (mode("threads")) cases(threads); else if (mode("sweep")) { sweep(); every_day(); } else cases(one); return done(); }
