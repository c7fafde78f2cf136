// Reference model of dynamic values: plain trees with independent binary / JSON / XML codecs.
#ifndef ANYTREE_H
#define ANYTREE_H
#include "vt.h"
#include "CAnyValue.h"
#include <math.h>
#include <memory>

namespace at {
enum K { NUL, BOOL, UINT, SINT, DBL, STR, VEC, MAP };
struct Tree {
    K k; bool b; uint64_t u; int64_t i; double d; std::string s; std::vector<Tree> v; std::map<std::string, Tree> m;
    Tree() : k(NUL), b(false), u(0), i(0), d(0) {}
    static Tree Bool(bool x) { Tree t; t.k = BOOL; t.b = x; return t; }
    static Tree UInt(uint64_t x) { Tree t; t.k = UINT; t.u = x; return t; }
    static Tree SInt(int64_t x) { Tree t; t.k = SINT; t.i = x; return t; }
    static Tree Dbl(double x) { Tree t; t.k = DBL; t.d = x; return t; }
    static Tree Str(const std::string &x) { Tree t; t.k = STR; t.s = x; return t; }
    static Tree Vec() { Tree t; t.k = VEC; return t; }
    static Tree Map() { Tree t; t.k = MAP; return t; }
};
inline bool same_double(double a, double b) { return memcmp(&a, &b, 8) == 0 || (a != a && b != b); }
inline bool eq(const Tree &a, const Tree &b) {
    if (a.k != b.k) return false;
    switch (a.k) {
    case NUL: return true;
    case BOOL: return a.b == b.b;
    case UINT: return a.u == b.u;
    case SINT: return a.i == b.i;
    case DBL: return same_double(a.d, b.d);
    case STR: return a.s == b.s;
    case VEC: if (a.v.size() != b.v.size()) return false;
        for (size_t i = 0; i < a.v.size(); i++) if (!eq(a.v[i], b.v[i])) return false; return true;
    case MAP: {
        if (a.m.size() != b.m.size()) return false;
        std::map<std::string, Tree>::const_iterator x = a.m.begin(), y = b.m.begin();
        for (; x != a.m.end(); ++x, ++y) if (x->first != y->first || !eq(x->second, y->second)) return false;
        return true; }
    }
    return false;
}
inline std::string dump(const Tree &t, size_t max = 600) {
    std::string r;
    switch (t.k) {
    case NUL: r = "null"; break;
    case BOOL: r = t.b ? "true" : "false"; break;
    case UINT: r = vt::fmt("%lluu", (unsigned long long)t.u); break;
    case SINT: r = vt::fmt("%llds", (long long)t.i); break;
    case DBL: r = vt::fmt("%a", t.d); break;
    case STR: r = vt::show(t.s, 60); break;
    case VEC: r = "["; for (size_t i = 0; i < t.v.size() && r.size() < max; i++) r += (i ? "," : "") + dump(t.v[i], max / 2); r += "]"; break;
    case MAP: r = "{"; for (std::map<std::string, Tree>::const_iterator i = t.m.begin(); i != t.m.end() && r.size() < max; ++i) r += (i == t.m.begin() ? "" : ",") + vt::show(i->first, 30) + ":" + dump(i->second, max / 2); r += "}"; break;
    }
    return r;
}
inline uint64_t shape(const Tree &t) {   // structure without payload, for counting distinct cases
    uint64_t h = 1000 + t.k;
    switch (t.k) {
    case UINT: { int w = 0; uint64_t u = t.u; while (u) { w++; u >>= 8; } h = h * 31 + w; break; }
    case SINT: { int w = 0; uint64_t u = (uint64_t)(t.i < 0 ? ~t.i : t.i); while (u) { w++; u >>= 8; } h = h * 31 + w; break; }
    case STR: { int w = 0; size_t u = t.s.size(); while (u) { w++; u >>= 2; } h = h * 31 + w; break; }
    case VEC: for (size_t i = 0; i < t.v.size(); i++) h = h * 1099511628211ULL + shape(t.v[i]); break;
    case MAP: for (std::map<std::string, Tree>::const_iterator i = t.m.begin(); i != t.m.end(); ++i) h = h * 1099511628211ULL + shape(i->second) * 3 + i->first.size(); break;
    default: break;
    }
    return h;
}
inline size_t nodes(const Tree &t) {
    size_t n = 1;
    for (size_t i = 0; i < t.v.size(); i++) n += nodes(t.v[i]);
    for (std::map<std::string, Tree>::const_iterator i = t.m.begin(); i != t.m.end(); ++i) n += nodes(i->second);
    return n;
}

inline uint64_t gen_u64(vt::Rng &r) {
    int c = (int)r.below(5);
    if (c == 0) return r.below(4);
    if (c == 1) { uint64_t p = 1ULL << r.below(64); return p + r.below(5) - 2; }
    if (c == 2) { int bits = (int)r.range(1, 64); uint64_t x = r.next(); return bits == 64 ? x : x & ((1ULL << bits) - 1); }
    if (c == 3) { uint64_t p10 = 1; int n = (int)r.below(20); while (n--) p10 *= 10; return p10 + r.below(3) - 1; }
    static const uint64_t E[] = {0, 254, 255, 256, 65534, 65535, 65536, 0xFFFFFFFEULL, 0xFFFFFFFFULL, 0x100000000ULL, 0x7FFFFFFFULL, 0x80000000ULL,
        0x7FFFFFFFFFFFFFFFULL, 0x8000000000000000ULL, 0xFFFFFFFFFFFFFFFFULL, 0xFFFFFFFFFFFFFFFEULL, 127, 128, 32767, 32768, 9999999999999999999ULL, 10000000000000000000ULL};
    return E[r.below(sizeof E / sizeof E[0])];
}
inline int64_t gen_neg(vt::Rng &r) { // strictly negative
    static const int64_t E[] = {-1, -2, -127, -128, -129, -130, -255, -256, -257, -32767, -32768, -32769, -65535, -65536, -65537,
        -2147483647LL, -2147483648LL, -2147483649LL, -4294967295LL, -4294967296LL, -4294967297LL, INT64_MIN, INT64_MIN + 1, -999999999999999999LL, -1000000000000000000LL};
    if (r.chance(50)) return E[r.below(sizeof E / sizeof E[0])];
    int bits = (int)r.range(1, 63);
    return -(int64_t)(r.next() & ((1ULL << bits) - 1)) - 1;
}
inline double gen_finite(vt::Rng &r) {
    int c = (int)r.below(6);
    if (c == 0) { static const double E[] = {0.0, -0.0, 1.0, -1.0, 0.1, 0.2, 0.3, 1.0 / 3, 1e15, 1e16, 1e17, 123456789012345.0, 1234567890123456.0, 12345678901234567.0, 1e21, 1e22, 1e-7, 5e-324, 1.7976931348623157e308, 2.2250738585072014e-308, 9007199254740993.0, 4.35, 0.000001, 1e5, 100.0, 1e-5, 3.14159265358979}; return E[r.below(sizeof E / sizeof E[0])]; }
    if (c == 1) return (double)(int64_t)r.range(-1000000, 1000000) / 100.0;
    if (c == 2) return (double)(int64_t)r.next();
    if (c == 3) return (double)r.range(-1000, 1000);
    for (;;) { uint64_t u = r.next(); double d; memcpy(&d, &u, 8); if (std::isfinite(d)) return d; }
}
struct GenOpt {
    bool nonfinite; bool utf8; bool xmlkeys; bool pos_sint; size_t maxstr; int maxdepth; int budget; bool xmltext;
    GenOpt() : nonfinite(true), utf8(false), xmlkeys(false), pos_sint(false), maxstr(70000), maxdepth(6), budget(60), xmltext(false) {}
};
inline std::string utf8_of(uint32_t c) {
    std::string s;
    if (c < 0x80) s += (char)c;
    else if (c < 0x800) { s += (char)(0xC0 | c >> 6); s += (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) { s += (char)(0xE0 | c >> 12); s += (char)(0x80 | ((c >> 6) & 63)); s += (char)(0x80 | (c & 63)); }
    else { s += (char)(0xF0 | c >> 18); s += (char)(0x80 | ((c >> 12) & 63)); s += (char)(0x80 | ((c >> 6) & 63)); s += (char)(0x80 | (c & 63)); }
    return s;
}
inline uint32_t gen_cp(vt::Rng &r, bool xml) {
    for (;;) {
        uint32_t c;
        switch (r.below(6)) {
        case 0: c = (uint32_t)r.below(0x20); break;
        case 1: case 2: c = (uint32_t)r.range(0x20, 0x7f); break;
        case 3: c = (uint32_t)r.range(0x80, 0x7ff); break;
        case 4: c = (uint32_t)r.range(0x800, 0xffff); break;
        default: c = (uint32_t)r.range(0x10000, 0x10ffff);
        }
        if (c >= 0xd800 && c <= 0xdfff) continue;
        if (xml && (c < 0x20 || c >= 0xfffe) && c != 9 && c != 10) continue;
        return c;
    }
}
inline std::string gen_str(vt::Rng &r, const GenOpt &o) {
    size_t n = r.chance(90) ? r.below(24) : (r.chance(80) ? r.edge(std::min<size_t>(o.maxstr, 1024)) : r.edge(o.maxstr));
    if (!o.utf8) {
        int c = (int)r.below(4);
        if (c == 0) return r.ascii(n);
        if (c == 1) return r.bytes(n);
        if (c == 2) return std::string(n, (char)r.next());
        static const char S[] = "\"\\/\b\f\n\r\t\0\1\x1f\x7f\x80\xff{}[]:, u0041<>&]]>";
        std::string s; for (size_t i = 0; i < n; i++) s += S[r.below(sizeof S - 1)]; return s;
    }
    std::string s;
    int style = (int)r.below(3);
    static const char SJ[] = "\"\\/\b\f\n\r\t\0\1\x1f\x7f{}[]:, u0041nrtb<>&]]>'";
    static const char SX[] = "\"\\/\n\t{}[]:, u0041<>&]]>'<![CDATA[";
    while (s.size() < n) {
        if (style == 0) s += (char)r.range(32, 126);
        else if (style == 1) s += utf8_of(gen_cp(r, o.xmltext));
        else s += o.xmltext ? SX[r.below(sizeof SX - 1)] : SJ[r.below(sizeof SJ - 1)];
    }
    return s;
}
inline std::string gen_key(vt::Rng &r, const GenOpt &o) {
    if (o.xmlkeys) { std::string s(1, "abcdefgXYZ_"[r.below(11)]); size_t n = r.below(8); s += r.alnum(n); return s; }
    size_t n = r.chance(85) ? r.below(10) : (r.chance(50) ? r.range(250, 255) : r.below(256));
    if (o.utf8) { GenOpt p = o; std::string s = gen_str(r, p); if (s.size() > 255) s.resize(0); if (n > 200) s = r.alnum(n); return s; }
    return r.chance(60) ? r.alnum(n) : r.bytes(n);
}
inline Tree gen(vt::Rng &r, const GenOpt &o, int depth, int &budget) {
    budget--;
    int c = (int)r.below(depth >= o.maxdepth || budget <= 0 ? 8 : 12);
    switch (c) {
    case 0: return Tree();
    case 1: return Tree::Bool(r.chance(50));
    case 2: case 3: return Tree::UInt(gen_u64(r));
    case 4: return Tree::SInt(o.pos_sint && r.chance(30) ? (int64_t)(gen_u64(r) >> 1) : gen_neg(r));
    case 5: if (o.nonfinite && r.chance(10)) { uint64_t u = r.chance(30) ? 0x7ff0000000000000ULL | (r.next() & 1) << 63 : r.next() | 0x7ff0000000000000ULL; double d; memcpy(&d, &u, 8); return Tree::Dbl(d); } return Tree::Dbl(gen_finite(r));
    case 6: case 7: return Tree::Str(gen_str(r, o));
    case 8: case 9: { Tree t = Tree::Vec(); int n = (int)r.below(r.chance(10) ? 40 : 6); for (int i = 0; i < n && budget > -20; i++) t.v.push_back(gen(r, o, depth + 1, budget)); return t; }
    default: { Tree t = Tree::Map(); int n = (int)r.below(r.chance(10) ? 40 : 6); for (int i = 0; i < n && budget > -20; i++) { std::string k = gen_key(r, o); t.m[k] = gen(r, o, depth + 1, budget); } return t; }
    }
}
inline Tree gen(vt::Rng &r, const GenOpt &o = GenOpt()) {
    int b = o.budget; Tree t = gen(r, o, 0, b);
    if (r.chance(70) && t.k != VEC && t.k != MAP) { // prefer containers at top level
        Tree w = r.chance(50) ? Tree::Vec() : Tree::Map();
        int n = (int)r.range(1, 6);
        for (int i = 0; i < n; i++) { int bb = o.budget / 3; Tree x = gen(r, o, 1, bb); if (w.k == VEC) w.v.push_back(x); else w.m[gen_key(r, o)] = x; }
        return w;
    }
    return t;
}

// ---------------------------------------------------------------- to / from the library, public API only
// Empty containers can only be made through push/pop or insert/erase.
inline void build(const Tree &t, lce::CAnyValue &o, vt::Rng &r) {
    using lce::CAnyValue;
    switch (t.k) {
    case NUL: o = CAnyValue(); break;
    case BOOL: o = CAnyValue(t.b); break;
    case UINT:
        if (t.u <= 127 && r.chance(30)) o = (char)t.u;
        else if (t.u <= 0xff && r.chance(40)) o = (unsigned char)t.u;
        else if (t.u <= 0x7fff && r.chance(30)) o = (short)t.u;
        else if (t.u <= 0xffff && r.chance(40)) o = (unsigned short)t.u;
        else if (t.u <= 0x7fffffff && r.chance(30)) o = (int)t.u;
        else if (t.u <= 0xffffffffULL && r.chance(40)) o = (unsigned int)t.u;
        else if (t.u <= 0x7fffffffffffffffULL && r.chance(30)) { if (r.chance(50)) o = (long)t.u; else o = (long long)t.u; }
        else { if (r.chance(50)) o = (unsigned long)t.u; else o = (unsigned long long)t.u; }
        break;
    case SINT:
        if (t.i >= -128 && r.chance(40)) o = (char)t.i;
        else if (t.i >= -32768 && r.chance(40)) o = (short)t.i;
        else if (t.i >= INT32_MIN && r.chance(40)) o = (int)t.i;
        else { if (r.chance(50)) o = (long)t.i; else o = (long long)t.i; }
        break;
    case DBL: if ((double)(float)t.d == t.d && r.chance(50)) o = (float)t.d; else o = t.d; break;
    case STR: if (t.s.find('\0') == std::string::npos && r.chance(30)) o = t.s.c_str(); else o = t.s; break;
    case VEC: {
        CAnyValue x;
        if (t.v.empty()) { x.push_back(1); if (r.chance(50)) x.pop_back(); else x.pop_front(); }
        else if (r.chance(80)) for (size_t i = 0; i < t.v.size(); i++) { CAnyValue e; build(t.v[i], e, r); x.push_back(e); }
        else for (size_t i = t.v.size(); i-- > 0;) { CAnyValue e; build(t.v[i], e, r); x.push_front(e); }
        o = x; break; }
    case MAP: {
        CAnyValue x;
        if (t.m.empty()) { x["k"]; x.erase("k"); }
        for (std::map<std::string, Tree>::const_iterator i = t.m.begin(); i != t.m.end(); ++i) {
            if (r.chance(50)) build(i->second, x[i->first], r);
            else { CAnyValue e; build(i->second, e, r); x.insert(i->first, e); }
        }
        o = x; break; }
    }
}
inline Tree read(const lce::CAnyValue &c) {
    lce::CAnyValue &n = const_cast<lce::CAnyValue &>(c); // the type queries are not const
    if (n.isNull()) return Tree();
    if (n.isBool()) return Tree::Bool(n.asBool());
    if (n.isUInt()) return Tree::UInt((unsigned long long)c);
    if (n.isInt()) return Tree::SInt((long long)c);
    if (n.isFloat()) return Tree::Dbl((double)c);
    if (n.isString()) { Tree t = Tree::Str(c.asString()); if (std::string(c.data(), c.size()) != t.s) { t.s = "<data()/size() disagree with asString()>"; } return t; }
    if (n.isArray()) { Tree t = Tree::Vec(); for (size_t i = 0; i < c.size(); i++) t.v.push_back(read(c[(int)i])); return t; }
    if (n.isObject()) { Tree t = Tree::Map(); std::vector<std::string> k = c.keys(); for (size_t i = 0; i < k.size(); i++) t.m[k[i]] = read(c[k[i]]); if (k.size() != c.size()) { t = Tree::Str("<keys()/size() disagree>"); } return t; }
    return Tree::Str("<no type predicate holds>");
}

// ---------------------------------------------------------------- independent binary codec
struct BadBin { std::string why; };
inline Tree bin_read(const std::string &b, size_t &p, int depth = 0) {
    struct R { static uint64_t be(const std::string &b, size_t &p, int n) { if (b.size() - p < (size_t)n) { BadBin e; e.why = "short"; throw e; } uint64_t x = 0; while (n--) x = x << 8 | (unsigned char)b[p++]; return x; } };
    int tag = (int)R::be(b, p, 1);
    switch (tag) {
    case 0: return Tree::UInt(R::be(b, p, 1));
    case 1: return Tree::UInt(R::be(b, p, 2));
    case 2: return Tree::UInt(R::be(b, p, 4));
    case 3: return Tree::UInt(R::be(b, p, 8));
    case 4: case 5: case 6: { size_t n = R::be(b, p, tag == 4 ? 1 : tag == 5 ? 2 : 4); if (b.size() - p < n) { BadBin e; e.why = "short"; throw e; } Tree t = Tree::Str(b.substr(p, n)); p += n; return t; }
    case 7: { uint64_t n = R::be(b, p, 4); Tree t = Tree::Vec(); while (n--) t.v.push_back(bin_read(b, p, depth + 1)); return t; }
    case 8: { uint64_t n = R::be(b, p, 4); Tree t = Tree::Map(); while (n--) { size_t l = R::be(b, p, 1); if (b.size() - p < l) { BadBin e; e.why = "short"; throw e; } std::string k = b.substr(p, l); p += l; t.m[k] = bin_read(b, p, depth + 1); } return t; }
    case 10: { uint64_t u = R::be(b, p, 8); double d; memcpy(&d, &u, 8); return Tree::Dbl(d); }
    case 11: return Tree::Bool(R::be(b, p, 1) != 0);
    case 12: return Tree();
    case 13: return Tree::SInt((int8_t)R::be(b, p, 1));
    case 14: return Tree::SInt((int16_t)R::be(b, p, 2));
    case 15: return Tree::SInt((int32_t)R::be(b, p, 4));
    case 16: return Tree::SInt((int64_t)R::be(b, p, 8));
    }
    BadBin e; e.why = "tag"; throw e;
}
inline void be(std::string &o, uint64_t v, int n) { while (n--) o += (char)(v >> (8 * n)); }
// random legal widths, not only the shortest ones
inline void bin_write(const Tree &t, std::string &o, vt::Rng &r) {
    switch (t.k) {
    case NUL: o += (char)12; break;
    case BOOL: o += (char)11; o += (char)(t.b ? 1 : 0); break;
    case UINT: { int w = t.u < 0x100 ? 0 : t.u < 0x10000 ? 1 : t.u < 0x100000000ULL ? 2 : 3; w = (int)r.range(w, 3); o += (char)w; be(o, t.u, 1 << w); break; }
    case SINT: { int w = t.i == (int8_t)t.i ? 0 : t.i == (int16_t)t.i ? 1 : t.i == (int32_t)t.i ? 2 : 3; w = (int)r.range(w, 3); o += (char)(13 + w); be(o, (uint64_t)t.i, 1 << w); break; }
    case DBL: { uint64_t u; memcpy(&u, &t.d, 8); o += (char)10; be(o, u, 8); break; }
    case STR: { int w = t.s.size() < 0x100 ? 0 : t.s.size() < 0x10000 ? 1 : 2; w = (int)r.range(w, 2); o += (char)(4 + w); be(o, t.s.size(), w == 2 ? 4 : 1 << w); o += t.s; break; }
    case VEC: o += (char)7; be(o, t.v.size(), 4); for (size_t i = 0; i < t.v.size(); i++) bin_write(t.v[i], o, r); break;
    case MAP: o += (char)8; be(o, t.m.size(), 4); for (std::map<std::string, Tree>::const_iterator i = t.m.begin(); i != t.m.end(); ++i) { o += (char)i->first.size(); o += i->first; bin_write(i->second, o, r); } break;
    }
}

// ---------------------------------------------------------------- independent RFC 8259 reader (strict)
struct BadJson { std::string why; size_t pos; BadJson(const std::string &w, size_t p) : why(w), pos(p) {} };
struct JsonReader {
    const std::string &s; size_t p;
    JsonReader(const std::string &x) : s(x), p(0) {}
    int c() { return p < s.size() ? (unsigned char)s[p] : -1; }
    void ws() { while (c() == ' ' || c() == '\t' || c() == '\r' || c() == '\n') p++; }
    void lit(const char *w) { if (s.compare(p, strlen(w), w) != 0) throw BadJson("literal", p); p += strlen(w); }
    unsigned hex4() { unsigned v = 0; for (int i = 0; i < 4; i++, p++) { int x = c(); v = v * 16 + (x >= '0' && x <= '9' ? x - '0' : x >= 'a' && x <= 'f' ? x - 'a' + 10 : x >= 'A' && x <= 'F' ? x - 'A' + 10 : throw BadJson("hex", p)); } return v; }
    std::string str() {
        if (c() != '"') throw BadJson("expected string", p); p++;
        std::string o;
        for (;;) {
            int x = c();
            if (x < 0) throw BadJson("unterminated string", p);
            if (x == '"') { p++; return o; }
            if (x < 0x20) throw BadJson("raw control character", p);
            if (x != '\\') { o += (char)x; p++; continue; }
            p++; x = c(); p++;
            switch (x) {
            case '"': o += '"'; break; case '\\': o += '\\'; break; case '/': o += '/'; break; case 'b': o += '\b'; break; case 'f': o += '\f'; break;
            case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
            case 'u': { unsigned a = hex4(); if (a >= 0xd800 && a < 0xdc00 && s.compare(p, 2, "\\u") == 0) { size_t save = p; p += 2; unsigned b = hex4(); if (b >= 0xdc00 && b < 0xe000) a = 0x10000 + ((a - 0xd800) << 10) + (b - 0xdc00); else p = save; } o += utf8_of(a); break; }
            default: throw BadJson("bad escape", p);
            }
        }
    }
    Tree num() {
        size_t b = p; bool neg = false, frac = false;
        if (c() == '-') { neg = true; p++; }
        if (c() == '0') p++; else if (c() >= '1' && c() <= '9') while (isdigit(c())) p++; else throw BadJson("number", p);
        if (c() == '.') { frac = true; p++; if (!isdigit(c())) throw BadJson("digit expected after '.'", p); while (isdigit(c())) p++; }
        if (c() == 'e' || c() == 'E') { frac = true; p++; if (c() == '+' || c() == '-') p++; if (!isdigit(c())) throw BadJson("exponent", p); while (isdigit(c())) p++; }
        std::string t = s.substr(b, p - b);
        if (frac) return Tree::Dbl(strtod(t.c_str(), 0));
        errno = 0;
        if (neg) { long long v = strtoll(t.c_str(), 0, 10); if (errno) return Tree::Dbl(strtod(t.c_str(), 0)); return Tree::SInt(v); }
        unsigned long long v = strtoull(t.c_str(), 0, 10); if (errno) return Tree::Dbl(strtod(t.c_str(), 0)); return Tree::UInt(v);
    }
    Tree val(int depth = 0) {
        ws();
        switch (c()) {
        case '{': { p++; Tree t = Tree::Map(); ws(); if (c() == '}') { p++; return t; }
            for (;;) { ws(); std::string k = str(); ws(); if (c() != ':') throw BadJson("':'", p); p++; t.m[k] = val(depth + 1); ws(); if (c() == ',') { p++; continue; } if (c() == '}') { p++; return t; } throw BadJson("',' or '}'", p); } }
        case '[': { p++; Tree t = Tree::Vec(); ws(); if (c() == ']') { p++; return t; }
            for (;;) { t.v.push_back(val(depth + 1)); ws(); if (c() == ',') { p++; continue; } if (c() == ']') { p++; return t; } throw BadJson("',' or ']'", p); } }
        case '"': return Tree::Str(str());
        case 't': lit("true"); return Tree::Bool(true);
        case 'f': lit("false"); return Tree::Bool(false);
        case 'n': lit("null"); return Tree();
        default: return num();
        }
    }
    Tree doc() { Tree t = val(); ws(); if (p != s.size()) throw BadJson("trailing text", p); return t; }
};
// independent JSON writer with random layout
inline std::string rand_ws(vt::Rng &r, int pct) { std::string s; while (r.chance(pct) && s.size() < 5) s += " \t\r\n"[r.below(4)]; return s; }
inline void json_str(const std::string &s, std::string &o, vt::Rng &r) {
    o += '"';
    int esc = (int)r.below(3);
    for (size_t i = 0; i < s.size();) {
        unsigned char c = s[i];
        uint32_t cp = c; size_t n = 1;
        if (c >= 0xf0) { n = 4; cp = c & 7; } else if (c >= 0xe0) { n = 3; cp = c & 15; } else if (c >= 0xc0) { n = 2; cp = c & 31; }
        if (i + n > s.size()) n = 1; else for (size_t k = 1; k < n; k++) cp = cp << 6 | (s[i + k] & 63);
        bool must = cp < 0x20 || cp == '"' || cp == '\\';
        if (must || (esc == 1 && r.chance(30)) || (esc == 2 && r.chance(80))) {
            const char *two = strchr("\"\"\\\\//\bb\ff\nn\rr\tt", 0); (void)two;
            static const char from[] = "\"\\/\b\f\n\r\t", to[] = "\"\\/bfnrt";
            const char *f = cp && cp < 128 ? strchr(from, (int)cp) : 0;
            if (f && r.chance(70)) { o += '\\'; o += to[f - from]; }
            else if (cp < 0x10000) { char b[8]; snprintf(b, 8, r.chance(50) ? "\\u%04x" : "\\u%04X", cp); o += b; }
            else { char b[16]; uint32_t x = cp - 0x10000; snprintf(b, 16, r.chance(50) ? "\\u%04x\\u%04x" : "\\u%04X\\u%04X", 0xd800 + (x >> 10), 0xdc00 + (x & 0x3ff)); o += b; }
        } else o.append(s, i, n);
        i += n;
    }
    o += '"';
}
inline void json_dbl(double d, std::string &o, vt::Rng &r) {
    char b[64];
    switch (r.below(4)) {
    case 0: snprintf(b, 64, "%.17g", d); break;
    case 1: snprintf(b, 64, "%.16e", d); break;
    case 2: snprintf(b, 64, "%.17e", d); break;
    default: snprintf(b, 64, "%.20g", d);
    }
    std::string s = b;
    if (s.find_first_of(".eE") == std::string::npos) s += r.chance(50) ? ".0" : (r.chance(50) ? "e0" : "E+0");
    if (r.chance(30)) for (size_t i = 0; i < s.size(); i++) if (s[i] == 'e') s[i] = 'E';
    size_t e = s.find_first_of("eE");
    if (e != std::string::npos && r.chance(30) && s[e + 1] == '+') s.erase(e + 1, 1);
    // drop the fraction when it is zero: 1.0e5 -> 1e5
    e = s.find_first_of("eE"); size_t dot = s.find('.');
    if (e != std::string::npos && dot != std::string::npos && s.find_first_not_of('0', dot + 1) == e && r.chance(60)) s.erase(dot, e - dot);
    o += s;
}
inline void json_write(const Tree &t, std::string &o, vt::Rng &r, int ws) {
    switch (t.k) {
    case NUL: o += "null"; break;
    case BOOL: o += t.b ? "true" : "false"; break;
    case UINT: o += vt::fmt("%llu", (unsigned long long)t.u); break;
    case SINT: o += vt::fmt("%lld", (long long)t.i); break;
    case DBL: json_dbl(t.d, o, r); break;
    case STR: json_str(t.s, o, r); break;
    case VEC: o += "[" + rand_ws(r, ws); for (size_t i = 0; i < t.v.size(); i++) { if (i) o += rand_ws(r, ws) + "," + rand_ws(r, ws); json_write(t.v[i], o, r, ws); } o += rand_ws(r, ws) + "]"; break;
    case MAP: {
        o += "{" + rand_ws(r, ws);
        std::vector<std::string> keys; for (std::map<std::string, Tree>::const_iterator i = t.m.begin(); i != t.m.end(); ++i) keys.push_back(i->first);
        for (size_t i = keys.size(); i > 1; i--) std::swap(keys[i - 1], keys[r.below(i)]);
        for (size_t i = 0; i < keys.size(); i++) { if (i) o += rand_ws(r, ws) + "," + rand_ws(r, ws); json_str(keys[i], o, r); o += rand_ws(r, ws) + ":" + rand_ws(r, ws); json_write(t.m.find(keys[i])->second, o, r, ws); }
        o += rand_ws(r, ws) + "}"; break; }
    }
}

// ---------------------------------------------------------------- independent minimal XML reader
struct Xml { std::string name, text; std::vector<Xml> kids; };
struct BadXml { std::string why; size_t pos; BadXml(const std::string &w, size_t p) : why(w), pos(p) {} };
struct XmlReader {
    const std::string &s; size_t p;
    XmlReader(const std::string &x) : s(x), p(0) {}
    void content(Xml &x) {
        for (;;) {
            if (p >= s.size()) { if (x.name.empty()) return; throw BadXml("unexpected end", p); }
            if (s.compare(p, 9, "<![CDATA[") == 0) { size_t e = s.find("]]>", p + 9); if (e == std::string::npos) throw BadXml("CDATA", p); x.text += s.substr(p + 9, e - p - 9); p = e + 3; continue; }
            if (s.compare(p, 2, "</") == 0) return;
            if (s[p] == '<') {
                size_t e = s.find('>', p); if (e == std::string::npos) throw BadXml("tag", p);
                Xml k; k.name = s.substr(p + 1, e - p - 1);
                if (k.name.empty() || !(isalpha((unsigned char)k.name[0]) || k.name[0] == '_')) throw BadXml("bad tag name " + k.name, p);
                for (size_t i = 0; i < k.name.size(); i++) if (!(isalnum((unsigned char)k.name[i]) || strchr("_-.:", k.name[i]))) throw BadXml("bad tag name " + k.name, p);
                p = e + 1; content(k);
                std::string close = "</" + k.name + ">";
                if (s.compare(p, close.size(), close) != 0) throw BadXml("expected " + close, p);
                p += close.size(); x.kids.push_back(k); continue;
            }
            if (s[p] == '&') { static const char *E[][2] = {{"&lt;", "<"}, {"&gt;", ">"}, {"&amp;", "&"}, {"&quot;", "\""}, {"&apos;", "'"}}; bool ok = false; for (int i = 0; i < 5; i++) if (s.compare(p, strlen(E[i][0]), E[i][0]) == 0) { x.text += E[i][1]; p += strlen(E[i][0]); ok = true; break; } if (!ok) throw BadXml("entity", p); continue; }
            if (s.compare(p, 3, "]]>") == 0) throw BadXml("bare ]]>", p);
            x.text += s[p++];
        }
    }
    Xml doc() { Xml x; content(x); if (p != s.size()) throw BadXml("trailing", p); return x; }
};
// does the xml element carry the tree?
inline bool xml_eq(const Tree &t, const Xml &x, std::string &why) {
    switch (t.k) {
    case NUL: if (x.text == "null" && x.kids.empty()) return true; why = "null as " + vt::show(x.text); return false;
    case BOOL: if (x.text == (t.b ? "true" : "false") && x.kids.empty()) return true; why = "bool as " + vt::show(x.text); return false;
    case UINT: if (x.text == vt::fmt("%llu", (unsigned long long)t.u)) return true; why = vt::fmt("%llu as ", (unsigned long long)t.u) + x.text; return false;
    case SINT: if (x.text == vt::fmt("%lld", (long long)t.i)) return true; why = vt::fmt("%lld as ", (long long)t.i) + x.text; return false;
    case DBL: { char *e = 0; double d = strtod(x.text.c_str(), &e); if (!x.text.empty() && !*e && (d == t.d)) return true; why = vt::fmt("%.17g as ", t.d) + x.text; return false; }
    case STR: if (x.text == t.s && x.kids.empty()) return true; why = vt::show(t.s) + " as " + vt::show(x.text); return false;
    case VEC: if (x.kids.size() != t.v.size()) { why = "element count"; return false; }
        for (size_t i = 0; i < t.v.size(); i++) { if (x.kids[i].name != "li") { why = "element tag " + x.kids[i].name; return false; } if (!xml_eq(t.v[i], x.kids[i], why)) return false; } return true;
    case MAP: { if (x.kids.size() != t.m.size()) { why = "member count"; return false; }
        std::map<std::string, const Xml *> by; for (size_t i = 0; i < x.kids.size(); i++) by[x.kids[i].name] = &x.kids[i];
        for (std::map<std::string, Tree>::const_iterator i = t.m.begin(); i != t.m.end(); ++i) { if (!by.count(i->first)) { why = "no member " + i->first; return false; } if (!xml_eq(i->second, *by[i->first], why)) return false; } return true; }
    }
    return false;
}
} // namespace at
#endif
