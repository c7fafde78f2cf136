// C01: binary serialization of dynamic values against an independent codec.
#include "anytree.h"
#include <thread>
using namespace at;
using lce::CAnyValue;

static CAnyValue *g_dirty = 0; // a target re-used over all cases

static void check_tree(const Tree &t, vt::Rng &r, const char *what) {
    CAnyValue v; build(t, v, r);
    Tree back = read(v);
    VT_CHECK(eq(back, t), "build", std::string(what) + ": value built through the API reads back as " + dump(back) + " instead of " + dump(t));
    std::string b = v.encode();
    VT_CHECK(eq(read(v), t), "encode-modifies", std::string(what) + ": encoding changed the value " + dump(t));
    // independent decoder
    try {
        size_t p = 0; Tree x = bin_read(b, p);
        VT_CHECK(p == b.size(), "format-extra", std::string(what) + ": encoding has extra bytes " + vt::hex(b));
        VT_CHECK(eq(x, t), "format-value", std::string(what) + ": independent decoder reads " + dump(x) + " from the encoding of " + dump(t) + " = " + vt::hex(b));
    } catch (BadBin &e) { vt::fail("format-invalid", std::string(what) + ": encoding of " + dump(t) + " is not in the format (" + e.why + "): " + vt::hex(b)); }
    // appending form
    std::string pre = r.bytes(r.below(9)), ap = pre; v.encode(ap);
    VT_CHECK(ap == pre + b, "append", std::string(what) + ": encode(std::string&) did not append the same bytes for " + dump(t));
    // decode in fresh, in dirty target, with following bytes, via both overloads
    std::string more = b + r.bytes(r.range(1, 9));
    vt::Exact e1(b), e2(more);
    try {
        CAnyValue d1; d1.decode(e1.p, e1.n);
        VT_CHECK(eq(read(d1), t), "roundtrip", std::string(what) + ": decode(encode(v)) = " + dump(read(d1)) + ", v = " + dump(t));
        VT_CHECK(d1.encode() == b, "reencode", std::string(what) + ": re-encoding differs for " + dump(t));
        if (r.chance(50)) { CAnyValue d2; d2.decode((const unsigned char *)e2.p, e2.n);
            VT_CHECK(eq(read(d2), t), "trailing", std::string(what) + ": decoding with following bytes gives " + dump(read(d2)) + ", expected " + dump(t)); }
        g_dirty->decode(e1.p, e1.n);
        VT_CHECK(eq(read(*g_dirty), t), "reuse", std::string(what) + ": decoding into a used value gives " + dump(read(*g_dirty)) + ", expected " + dump(t));
        if (r.chance(30)) { CAnyValue c(d1); VT_CHECK(c.encode() == b, "copy-encode", "copy encodes differently: " + dump(t)); }
    } catch (std::exception &x) { vt::fail("decode-throws", std::string(what) + ": decoding of own encoding of " + dump(t) + " throws " + x.what()); delete g_dirty; g_dirty = new CAnyValue(); }
    // foreign encoder
    std::string f; bin_write(t, f, r); vt::Exact e3(f);
    try {
        CAnyValue d; d.decode(e3.p, e3.n);
        VT_CHECK(eq(read(d), t), "foreign", std::string(what) + ": foreign encoding " + vt::hex(f) + " read as " + dump(read(d)) + ", expected " + dump(t));
        std::string g = d.encode(); size_t p = 0;
        try { Tree x = bin_read(g, p); VT_CHECK(p == g.size() && eq(x, t), "foreign-reencode", std::string(what) + ": value received as " + vt::hex(f) + " is sent on as " + vt::hex(g)); }
        catch (BadBin &) { vt::fail("foreign-reencode", std::string(what) + ": value received as " + vt::hex(f) + " is sent on as " + vt::hex(g)); }
    } catch (std::exception &x) { vt::fail("foreign-throws", std::string(what) + ": decoding of " + vt::hex(f) + " throws " + x.what()); }
    vt::count("roundtrips");
    vt::count("nodes", nodes(t));
    vt::count("bytes", b.size());
    if (nodes(t) > 1 || t.k == STR) vt::distinct("shape", shape(t)); else vt::distinct("scalars", vt::fnv(b));
}

int main(int argc, char **argv) {
    vt::init(argc, argv);
    g_dirty = new CAnyValue();
    if (vt::mode("random")) {
        vt::cases([](vt::Rng &r, uint64_t i) {
            GenOpt o; o.pos_sint = false; if (r.chance(5)) { o.budget = 600; o.maxdepth = 20; } else if (r.chance(10)) o.maxstr = 200000;
            Tree t = gen(r, o); vt::cur_append(dump(t, 4000));
            if (i < 2) vt::sample(dump(t));
            check_tree(t, r, "random");
            if (r.chance(20)) { // positive signed values only exist in foreign data
                o.pos_sint = true; o.maxstr = 300; Tree q = gen(r, o); std::string f; bin_write(q, f, r); vt::Exact e(f);
                try { CAnyValue d; d.decode(e.p, e.n); VT_CHECK(eq(read(d), q), "foreign-signed", vt::hex(f) + " read as " + dump(read(d)) + " expected " + dump(q));
                    std::string g = d.encode(); size_t p = 0; Tree x = bin_read(g, p); VT_CHECK(eq(x, q) && p == g.size(), "foreign-signed-reencode", vt::hex(f) + " sent on as " + vt::hex(g)); vt::count("foreign_signed"); }
                catch (BadBin &) { vt::fail("foreign-signed-reencode", vt::hex(f)); }
                catch (std::exception &x) { vt::fail("foreign-throws", vt::hex(f) + x.what()); }
            }
        });
    } else if (vt::mode("boundaries")) {
        vt::cases([](vt::Rng &r, uint64_t) {
            // all integers near powers of two and of ten, both signs, from every width
            std::set<uint64_t> us; std::set<int64_t> is;
            for (int k = 0; k < 64; k++) for (int d = -3; d <= 3; d++) { us.insert((1ULL << k) + d); is.insert((int64_t)(0 - ((1ULL << k) + (uint64_t)d))); }
            uint64_t p10 = 1; for (int k = 0; k < 20; k++, p10 *= 10) { us.insert(p10); us.insert(p10 - 1); is.insert(-(int64_t)p10); }
            for (uint64_t u = 0; u < 600; u++) us.insert(u);
            for (int64_t i = -600; i < 0; i++) is.insert(i);
            for (std::set<uint64_t>::iterator i = us.begin(); i != us.end(); ++i) { vt::cur(vt::fmt("uint %llu", (unsigned long long)*i)); for (int k = 0; k < 4; k++) check_tree(Tree::UInt(*i), r, "uint"); }
            for (std::set<int64_t>::iterator i = is.begin(); i != is.end(); ++i) if (*i < 0) { vt::cur(vt::fmt("sint %lld", (long long)*i)); for (int k = 0; k < 4; k++) check_tree(Tree::SInt(*i), r, "sint"); }
            for (size_t n = 0; n < 700; n++) { vt::cur(vt::fmt("str %zu", n)); check_tree(Tree::Str(r.bytes(n)), r, "str"); }
            static const size_t L[] = {65533, 65534, 65535, 65536, 65537, 131071, 131072, 1000000, 16777216};
            for (size_t i = 0; i < sizeof L / sizeof L[0]; i++) { vt::cur(vt::fmt("str %zu", L[i])); check_tree(Tree::Str(r.bytes(L[i])), r, "str"); }
            for (size_t n = 0; n <= 255; n++) { vt::cur(vt::fmt("key %zu", n)); Tree t = Tree::Map(); t.m[r.bytes(n)] = Tree::UInt(n); t.m[r.bytes(n)] = Tree::Str("x"); check_tree(t, r, "key"); }
            static const size_t V[] = {0, 1, 2, 255, 256, 257, 1000, 65535, 65536, 65537};
            for (size_t i = 0; i < sizeof V / sizeof V[0]; i++) { vt::cur(vt::fmt("vec %zu", V[i])); Tree t = Tree::Vec(); for (size_t k = 0; k < V[i]; k++) t.v.push_back(Tree::UInt(k)); check_tree(t, r, "vec");
                if (V[i] <= 1000) { Tree m = Tree::Map(); for (size_t k = 0; k < V[i]; k++) m.m[vt::fmt("k%zu", k)] = Tree::SInt(-1 - (int64_t)k); check_tree(m, r, "map"); } }
            for (int depth = 1; depth <= 300; depth += depth < 20 ? 1 : 35) { vt::cur(vt::fmt("depth %d", depth)); Tree t = Tree::UInt(7); for (int k = 0; k < depth; k++) { Tree w = (k + depth) % 2 ? Tree::Vec() : Tree::Map(); if (w.k == VEC) w.v.push_back(t); else w.m["d"] = t; t = w; } check_tree(t, r, "depth"); }
            // every double bit pattern class
            for (int e = 0; e < 2048; e++) { uint64_t u = ((uint64_t)e << 52) | (r.next() >> 12) | (r.next() & (1ULL << 63)); double d; memcpy(&d, &u, 8); check_tree(Tree::Dbl(d), r, "double"); }
            vt::count("boundary_sweeps");
        });
    } else if (vt::mode("threads")) { // values of different threads have nothing in common
        vt::cases([](vt::Rng &r, uint64_t) {
            const int N = 4; uint64_t seed[N]; for (int t = 0; t < N; t++) seed[t] = r.next();
            std::vector<std::string> bad(N); std::vector<std::thread> th;
            for (int t = 0; t < N; t++) th.push_back(std::thread([&, t] { vt::Rng q(seed[t]); for (int k = 0; k < 20 && bad[t].empty(); k++) {
                    GenOpt o; o.budget = 20; o.maxstr = 300; Tree x = gen(q, o); if (k % 5 == 0) for (int d = 0; d < 25; d++) { Tree w = Tree::Vec(); w.v.push_back(Tree()); std::swap(w.v[0], x); x = Tree(); std::swap(x, w); }
                    try { CAnyValue v; build(x, v, q); std::string b = v.encode(), f; size_t p = 0; if (!eq(bin_read(b, p), x)) bad[t] = "encoding made next to other threads does not denote the value: " + dump(x);
                        CAnyValue d; d.decode(b.data(), b.size()); if (!eq(read(d), x)) bad[t] = "decoded next to other threads as " + dump(read(d)) + " instead of " + dump(x);
                        bin_write(x, f, q); CAnyValue g; g.decode(f.data(), f.size()); if (!eq(read(g), x)) bad[t] = "foreign encoding decoded next to other threads as " + dump(read(g)); }
                    catch (BadBin &e) { bad[t] = "encoding made next to other threads is invalid: " + dump(x); } catch (std::exception &e) { bad[t] = std::string("throws next to other threads: ") + e.what() + " on " + dump(x); } } }));
            for (int t = 0; t < N; t++) th[t].join();
            for (int t = 0; t < N; t++) if (!bad[t].empty()) vt::fail("threads", bad[t]);
            vt::count("thread_values", N * 20);
        });
    } else return 4;
    delete g_dirty;
    return vt::done();
}
