// C04: value semantics. A pool of library values and a pool of model trees undergo the same operations;
// after every operation every value of the pool must read as its model.
#include "anytree.h"
#include "memwatch.h"
using namespace at;
using lce::CAnyValue;

struct Slot { CAnyValue v; Tree t; };
struct Ref { CAnyValue *v; Tree *t; std::string path; };

static Ref walk(Slot &s, vt::Rng &r, int maxdepth) {
    Ref f; f.v = &s.v; f.t = &s.t; f.path = "";
    while (maxdepth-- > 0 && r.chance(70)) {
        if (f.t->k == VEC && !f.t->v.empty()) { size_t i = r.below(f.t->v.size()); f.v = &(*f.v)[(int)i]; f.t = &f.t->v[i]; f.path += vt::fmt("[%zu]", i); }
        else if (f.t->k == MAP && !f.t->m.empty()) {
            size_t i = r.below(f.t->m.size()); std::map<std::string, Tree>::iterator it = f.t->m.begin(); std::advance(it, i);
            if (r.chance(50) || it->first.find('\0') != std::string::npos) f.v = &(*f.v)[it->first]; else f.v = &(*f.v)[it->first.c_str()];
            f.t = &it->second; f.path += "[" + vt::show(it->first, 12) + "]";
        } else break;
    }
    return f;
}
static std::string key(vt::Rng &r, const Tree *t) {
    if (t && t->k == MAP && !t->m.empty() && r.chance(60)) { std::map<std::string, Tree>::const_iterator it = t->m.begin(); std::advance(it, r.below(t->m.size()));
        if (it->first.size() == 255 && r.chance(70)) { vt::count("long_names"); return it->first + r.alnum(r.range(1, 40)); } // names that differ behind their 255th byte are the same name
        return it->first; }
    if (r.chance(8)) return r.alnum(r.range(250, 300));
    if (r.chance(10)) return r.bytes(r.below(6));
    return std::string(1, (char)('a' + r.below(5)));
}
static std::string cut(const std::string &k) { return k.substr(0, 255); } // keys carry at most 255 bytes

static uint64_t bits(const Tree &t) { return t.k == BOOL ? (uint64_t)t.b : t.k == UINT ? t.u : t.k == SINT ? (uint64_t)t.i : 0; }
static void conversions(const CAnyValue &c, const Tree &t, const std::string &where) {
    uint64_t b = bits(t);
    #define EQ(expr, want, name) { auto g = (expr); auto w = (want); if (!(g == w)) vt::fail(std::string("conversion:") + name, where + ": " + name + " of " + dump(t) + vt::fmt(" gives %lld, expected %lld", (long long)g, (long long)w)); }
    EQ(c.asInt(), (int)b, "asInt") EQ((int64_t)c.asInt64(), (int64_t)b, "asInt64") EQ((uint64_t)(uint32_t)c.asUInt(), (uint64_t)(uint32_t)b, "asUInt") EQ((uint64_t)c.asUInt64(), b, "asUInt64")
    EQ(c.asBool(), b != 0, "asBool") EQ((char)c, (char)b, "char") EQ((unsigned char)c, (unsigned char)b, "uchar") EQ((short)c, (short)b, "short") EQ((unsigned short)c, (unsigned short)b, "ushort")
    EQ((int)c, (int)b, "int") EQ((unsigned int)c, (unsigned int)b, "uint") EQ((long)c, (long)b, "long") EQ((unsigned long)c, (unsigned long)b, "ulong") EQ((long long)c, (long long)b, "llong") EQ((unsigned long long)c, (unsigned long long)b, "ullong") EQ((bool)c, b != 0, "bool")
    double d = (double)c; if (!same_double(d, t.k == DBL ? t.d : 0.0)) vt::fail("conversion:double", where + ": double of " + dump(t) + vt::fmt(" is %g", d));
    std::string s = t.k == STR ? t.s : "";
    if (c.asString() != s || (std::string)c != s) vt::fail("conversion:string", where + ": string of " + dump(t) + " is " + vt::show(c.asString()));
    if (t.k == STR) { if (!c.data() || std::string(c.data(), c.size()) != s) vt::fail("conversion:data", where + ": data() of " + dump(t)); } else if (c.data()) vt::fail("conversion:data", where + ": data() of a non-string");
    size_t n = t.k == STR ? t.s.size() : t.k == VEC ? t.v.size() : t.k == MAP ? t.m.size() : 0;
    EQ((size_t)c.size(), n, "size")
    CAnyValue &m = const_cast<CAnyValue &>(c);
    bool q[8] = {m.isNull(), m.isBool(), m.isUInt(), m.isInt(), m.isFloat(), m.isString(), m.isArray(), m.isObject()};
    for (int i = 0; i < 8; i++) if (q[i] != ((int)t.k == i)) vt::fail("type-query", where + vt::fmt(": type query %d on ", i) + dump(t));
    vt::count("conversions");
}
template <class F> static bool throws(F f) { try { f(); return false; } catch (CAnyValue::Error &) { return true; } }

static const int POOL = 4;
static void history(vt::Rng &r, bool sampled) {
    Slot p[POOL]; GenOpt o; o.budget = 12; o.maxstr = 300; o.maxdepth = 4;
    for (int i = 0; i < POOL; i++) { p[i].t = gen(r, o); build(p[i].t, p[i].v, r); }
    std::string log; int nops = (int)r.range(5, 40); uint64_t h = 7;
    for (int k = 0; k < nops; k++) {
        int a = (int)r.below(POOL), b = r.chance(40) ? a : (int)r.below(POOL);
        Ref x = walk(p[a], r, 4); int op = (int)r.below(20); std::string d = vt::fmt("op%d v%d%s", op, a, x.path.c_str());
        vt::cur_append(d + "\n");
        h = h * 31 + op * 8 + x.t->k; 
        switch (op) {
        case 0: case 1: case 2: { Ref y = walk(p[b], r, 4); d += vt::fmt(" = v%d%s", b, y.path.c_str()); vt::cur_append(d + "\n"); Tree src = *y.t; *x.v = *y.v; *x.t = src; if (a == b) vt::count("self_assign"); break; }
        case 3: { Tree t = gen(r, o); CAnyValue n; build(t, n, r); *x.v = n; *x.t = t; break; }
        case 4: case 5: { std::string s = key(r, x.t); CAnyValue *e = 0; bool th = throws([&] { e = s.find('\0') == std::string::npos && r.chance(50) ? &(*x.v)[s.c_str()] : &(*x.v)[s]; });
            bool legal = x.t->k == MAP || x.t->k == NUL;
            if (th == legal) vt::fail("subscript-type", d + ": subscript with a name on " + dump(*x.t) + (th ? " throws" : " is accepted"));
            if (!th) { x.t->k = MAP; Tree &m = x.t->m[cut(s)]; if (r.chance(60)) { Tree t = gen(r, o); build(t, *e, r); m = t; } }
            break; }
        case 6: { int n = x.t->k == VEC ? (int)x.t->v.size() : 3; int i = r.chance(20) ? (int)(r.chance(50) ? -1 - (int)r.below(3) : INT32_MIN + (int)r.below(3)) : (int)r.below(n + 3); bool legal = x.t->k == VEC && i >= 0 && i < n; CAnyValue *e = 0;
            const CAnyValue &c = *x.v; bool th = throws([&] { e = &(*x.v)[i]; }); bool tc = throws([&] { (void)&c[i]; });
            if (th == legal || tc == legal) vt::fail("index-range", d + vt::fmt(": index %d on an array of %d: %s", i, n, th ? "throws" : "accepted") + " " + dump(*x.t));
            if (!th && legal) { Tree t = gen(r, o); build(t, *e, r); x.t->v[i] = t; } break; }
        case 7: case 8: { bool self = r.chance(30); Tree t; CAnyValue n; bool front = op == 8; bool legal = x.t->k == VEC || x.t->k == NUL; bool th;
            if (self && x.t->k == VEC && !x.t->v.empty()) { size_t i = r.below(x.t->v.size()); t = x.t->v[i]; th = throws([&] { front ? x.v->push_front((*x.v)[(int)i]) : x.v->push_back((*x.v)[(int)i]); }); vt::count("push_own"); }
            else { t = gen(r, o); build(t, n, r); th = throws([&] { front ? x.v->push_front(n) : x.v->push_back(n); }); }
            if (th == legal) vt::fail("push-type", d + ": push on " + dump(*x.t));
            if (!th) { x.t->k = VEC; if (front) x.t->v.insert(x.t->v.begin(), t); else x.t->v.push_back(t); } break; }
        case 9: case 10: { if (x.t->k == NUL) break; bool legal = x.t->k == VEC; bool th = throws([&] { op == 9 ? x.v->pop_back() : x.v->pop_front(); });
            if (th == legal) vt::fail("pop-type", d + ": pop on " + dump(*x.t));
            if (!th && legal && !x.t->v.empty()) { if (op == 9) x.t->v.pop_back(); else x.t->v.erase(x.t->v.begin()); } break; }
        case 11: { std::string s = key(r, x.t); Tree t = gen(r, o); CAnyValue n; build(t, n, r); bool legal = x.t->k == MAP || x.t->k == NUL; bool th = throws([&] { x.v->insert(s, n); });
            if (th == legal) vt::fail("insert-type", d + ": insert on " + dump(*x.t)); if (!th) { x.t->k = MAP; x.t->m[cut(s)] = t; } break; }
        case 12: { std::string s = key(r, x.t); bool th = throws([&] { x.v->erase(s); }); if (th && x.t->k == MAP) vt::fail("erase", d + ": erase throws"); if (x.t->k == MAP) x.t->m.erase(cut(s)); break; }
        case 13: x.v->clear(); *x.t = Tree(); break;
        case 14: { CAnyValue c(*x.v); Tree t = *x.t; if (!eq(read(c), t)) vt::fail("copy", d + ": copy reads " + dump(read(c)) + " of " + dump(t));
            c = 5; if (!throws([&] { c["z"]["y"] = 1; }) || !eq(read(c), Tree::UInt(5))) vt::fail("subscript-type", "an integer can be subscripted or was changed by trying"); break; }
        case 15: { const CAnyValue &c = *x.v; std::string s = key(r, x.t); bool want = x.t->k == MAP && x.t->m.count(cut(s)); if (c.hasKey(s) != want) vt::fail("hasKey", d + ": hasKey " + vt::show(s) + " of " + dump(*x.t));
            const CAnyValue &e = s.find('\0') == std::string::npos && r.chance(50) ? c[s.c_str()] : c[s]; Tree w = want ? x.t->m[cut(s)] : Tree(); if (!eq(read(e), w)) vt::fail("const-subscript", d + ": const subscript " + vt::show(s) + " reads " + dump(read(e)) + " of " + dump(*x.t)); break; }
        case 16: conversions(*x.v, *x.t, d); break;
        case 17: { std::vector<std::string> ks = x.v->keys(), w; if (x.t->k == MAP) for (std::map<std::string, Tree>::iterator i = x.t->m.begin(); i != x.t->m.end(); ++i) w.push_back(i->first); std::sort(ks.begin(), ks.end()); if (ks != w) vt::fail("keys", d + ": keys of " + dump(*x.t)); break; }
        case 18: { std::string e = x.v->encode(); *x.v = CAnyValue(); x.v->decode(e.data(), e.size()); break; } // in place replacement by an equal value
        case 19: { std::vector<CAnyValue> vs(3, *x.v); vs.push_back(vs[0]); std::swap(vs[0], vs[2]); vs.erase(vs.begin()); for (size_t i = 0; i < vs.size(); i++) if (!eq(read(vs[i]), *x.t)) vt::fail("container-copy", d + ": copy in a container reads " + dump(read(vs[i]))); break; }
        }
        log += d + "; ";
        if (nodes(p[a].t) > 400) { p[a].v.clear(); p[a].t = Tree(); }
        for (int i = 0; i < POOL; i++) { Tree g = read(p[i].v); if (!eq(g, p[i].t)) { vt::fail(i == a ? "effect" : "independence", "after " + log + vt::fmt(" v%d reads ", i) + dump(g) + " expected " + dump(p[i].t)); return; } }
        vt::count("ops");
    }
    vt::distinct("history", h); if (sampled) vt::sample(log);
}


int main(int argc, char **argv) {
    vt::init(argc, argv);
    { CAnyValue w; w["a"]; const CAnyValue &cw = w; cw["b"]; cw[std::string("b")]; cw.hasKey("b"); vt::get_count("cases"); }
    mw::install();
    vt::cases([](vt::Rng &r, uint64_t i) {
        for (int k = 0; k < 10; k++) { mw::Scope m; history(r, i == 0 && k == 0); if (m.live() != 0) vt::fail("leak", vt::fmt("%lld bytes are still held after all values of a history are gone", (long long)m.live())); vt::count("released"); }
        // scalars of every constructor type
        CAnyValue v; const CAnyValue &c = v;
        long long x = (long long)gen_u64(r);
        #define SC(T) { v = CAnyValue((T)x); T y = (T)x; Tree t = (y < 0) ? Tree::SInt((int64_t)y) : Tree::UInt((uint64_t)y); conversions(c, t, std::string("scalar " #T)); }
        SC(char) SC(unsigned char) SC(short) SC(unsigned short) SC(int) SC(unsigned int) SC(long) SC(unsigned long) SC(long long) SC(unsigned long long)
        v = (x & 1) != 0; conversions(c, Tree::Bool((x & 1) != 0), "bool");
        float f = (float)gen_finite(r); v = f; conversions(c, Tree::Dbl(f), "float"); double d = gen_finite(r); v = d; conversions(c, Tree::Dbl(d), "double");
        std::string s = r.bytes(r.below(40)); v = s; conversions(c, Tree::Str(s), "string"); s = r.alnum(r.below(40)); v = s.c_str(); conversions(c, Tree::Str(s), "char*");
    });
    return vt::done();
}
