// C02: JSON and XML text of dynamic values against independent strict readers and a layout-random writer.
#include "anytree.h"
#include <thread>
using namespace at;
using lce::CAnyValue;
static CAnyValue *g_dirty;

static Tree jsonable(const Tree &t) { // doubles that JSON has no text for become null
    Tree o = t;
    if (t.k == DBL && !std::isfinite(t.d)) return Tree();
    for (size_t i = 0; i < o.v.size(); i++) o.v[i] = jsonable(t.v[i]);
    for (std::map<std::string, Tree>::iterator i = o.m.begin(); i != o.m.end(); ++i) i->second = jsonable(i->second);
    return o;
}
static void write_side(const Tree &t0, vt::Rng &r) {
    CAnyValue v; build(t0, v, r);
    Tree t = jsonable(t0);
    std::string j = v.encodeJSON();
    VT_CHECK(eq(read(v), t0), "write-modifies", "encodeJSON changed the value");
    try { Tree x = JsonReader(j).doc(); VT_CHECK(eq(x, t), "write-value", "JSON " + vt::show(j, 600) + " denotes " + dump(x) + ", value was " + dump(t)); }
    catch (BadJson &e) { vt::fail("write-invalid", vt::fmt("not valid JSON at %zu (%s): ", e.pos, e.why.c_str()) + vt::show(j, 600)); }
    std::string pre = "pre\"fix", a = pre; v.encodeJSON(a);
    VT_CHECK(a == pre + j, "write-append", "encodeJSON(std::string&) did not append the same text");
    vt::Exact e(j);
    try { CAnyValue d; d.decodeJSON(e.p, e.n); VT_CHECK(eq(read(d), t), "text-roundtrip", vt::show(j, 600) + " read back as " + dump(read(d)) + ", expected " + dump(t)); }
    catch (std::exception &x) { vt::fail("text-roundtrip-throws", vt::show(j, 600) + ": " + x.what()); }
    vt::count("written");
}
static void read_side(const Tree &t, vt::Rng &r, int ws) {
    std::string j = rand_ws(r, ws); json_write(t, j, r, ws); j += rand_ws(r, ws);
    Tree want;
    try { want = JsonReader(j).doc(); } catch (BadJson &e) { fprintf(stderr, "harness: own writer is wrong at %zu %s: %s\n", e.pos, e.why.c_str(), j.c_str()); _exit(4); }
    if (!eq(want, t)) { fprintf(stderr, "harness: writer/reader disagree: %s vs %s: %s\n", dump(want).c_str(), dump(t).c_str(), j.c_str()); _exit(4); }
    vt::cur_append(j.substr(0, 6000));
    vt::Exact e(j);
    try {
        CAnyValue d; d.decodeJSON(e.p, e.n);
        VT_CHECK(eq(read(d), t), "read-value", vt::show(j, 700) + " read as " + dump(read(d)) + ", denotes " + dump(t));
        if (r.chance(50)) { g_dirty->decodeJSON(e.p, e.n); VT_CHECK(eq(read(*g_dirty), t), "read-reuse", vt::show(j, 700) + " read into a used value gives " + dump(read(*g_dirty)) + ", denotes " + dump(t)); }
    } catch (std::exception &x) { vt::fail("read-throws", vt::show(j, 700) + " (denotes " + dump(t) + "): " + x.what()); delete g_dirty; g_dirty = new CAnyValue(); }
    vt::count("read");
    vt::distinct("shape", shape(t)); vt::distinct("texts", vt::fnv(j));
}
static bool cdata_ok(const Tree &) { return true; }
static void xml_side(const Tree &t, vt::Rng &r) {
    CAnyValue v; build(t, v, r);
    std::string x = v.encodeXML(), why;
    try { Xml d = XmlReader(x).doc(); VT_CHECK(xml_eq(t, d, why), "xml-value", "XML " + vt::show(x, 600) + " does not carry " + dump(t) + ": " + why); }
    catch (BadXml &e) { vt::fail("xml-malformed", vt::fmt("at %zu (%s): ", e.pos, e.why.c_str()) + vt::show(x, 600)); }
    std::string h = v.encodeXMLWithHead(), want = "<?xml version=\"1.0\" encoding=\"UTF-8\"?><xmldata>" + x + "</xmldata>", ap = "#";
    VT_CHECK(h == want, "xml-head", "encodeXMLWithHead gives " + vt::show(h));
    v.encodeXMLWithHead(ap); VT_CHECK(ap == "#" + want, "xml-head", "appending encodeXMLWithHead gives " + vt::show(ap));
    VT_CHECK(v.encodeXMLWithHead(false).find("encoding=\"GB2312\"") != std::string::npos, "xml-head", "encoding name");
    vt::count("xml");
}
int main(int argc, char **argv) {
    vt::init(argc, argv);
    g_dirty = new CAnyValue();
    if (vt::mode("random")) {
        vt::cases([](vt::Rng &r, uint64_t i) {
            GenOpt o; o.maxstr = 5000; if (r.chance(5)) { o.budget = 500; o.maxdepth = 15; }
            o.utf8 = true;
            Tree t = gen(r, o); vt::cur_append("tree " + dump(t, 3000) + "\n");
            if (i < 2) vt::sample(dump(t));
            write_side(t, r);
            GenOpt raw; raw.maxstr = 2000; raw.nonfinite = false; Tree q = gen(r, raw); write_side(q, r); // strings that are no UTF-8 pass byte for byte
            o.nonfinite = false; Tree u = gen(r, o);
            read_side(u, r, (int)r.pick(std::vector<int>{0, 10, 40}));
            o.utf8 = true; o.xmltext = true; o.xmlkeys = true; xml_side(gen(r, o), r);
        });
    } else if (vt::mode("threads")) { // values of different threads have nothing in common
        vt::cases([](vt::Rng &r, uint64_t) {
            const int N = 4; uint64_t seed[N]; for (int t = 0; t < N; t++) seed[t] = r.next();
            std::vector<std::string> bad(N); std::vector<std::thread> th;
            for (int t = 0; t < N; t++) th.push_back(std::thread([&, t] { vt::Rng q(seed[t]); for (int k = 0; k < 20 && bad[t].empty(); k++) {
                    GenOpt o; o.budget = 20; o.maxstr = 300; o.utf8 = true; o.nonfinite = false; Tree x = gen(q, o); if (k % 5 == 0) for (int d = 0; d < 25; d++) { Tree w = Tree::Vec(); w.v.push_back(Tree()); std::swap(w.v[0], x); x = Tree(); std::swap(x, w); }
                    try { CAnyValue v; build(x, v, q); std::string b = v.encodeJSON(); if (!eq(JsonReader(b).doc(), x)) bad[t] = "JSON written next to other threads does not denote the value: " + dump(x) + " is " + vt::show(b, 500);
                        std::string j; json_write(x, j, q, 10); CAnyValue d; d.decodeJSON(j.data(), j.size()); if (!eq(read(d), x)) bad[t] = "JSON read next to other threads as " + dump(read(d)) + " instead of " + dump(x);
                        GenOpt ox; ox.budget = 10; ox.utf8 = ox.xmltext = ox.xmlkeys = true; ox.nonfinite = false; Tree y = gen(q, ox); CAnyValue u; build(y, u, q); std::string why; Xml z = XmlReader(u.encodeXML()).doc(); if (!xml_eq(y, z, why)) bad[t] = "XML written next to other threads does not carry the value: " + why; }
                    catch (BadJson &e) { bad[t] = "JSON written next to other threads is invalid: " + dump(x); } catch (BadXml &e) { bad[t] = "XML written next to other threads is malformed"; } catch (std::exception &e) { bad[t] = std::string("throws next to other threads: ") + e.what() + " on " + dump(x); } } }));
            for (int t = 0; t < N; t++) th[t].join();
            for (int t = 0; t < N; t++) if (!bad[t].empty()) vt::fail("threads", bad[t]);
            vt::count("thread_values", N * 20);
        });
    } else {
        vt::cases([](vt::Rng &r, uint64_t) {
            std::vector<Tree> ts;
            for (int k = 0; k < 64; k++) for (int d = -2; d <= 2; d++) { ts.push_back(Tree::UInt((1ULL << k) + d)); int64_t n = (int64_t)(0 - ((1ULL << k) + (uint64_t)d)); if (n < 0) ts.push_back(Tree::SInt(n)); }
            uint64_t p = 1; for (int k = 0; k < 20; k++, p *= 10) { ts.push_back(Tree::UInt(p)); ts.push_back(Tree::UInt(p - 1)); ts.push_back(Tree::SInt(-(int64_t)(p > (1ULL << 62) ? (1ULL << 62) : p))); }
            for (int c = 0; c < 256; c++) { ts.push_back(Tree::Str(std::string(1, (char)c))); ts.push_back(Tree::Str("a" + std::string(1, (char)c))); ts.push_back(Tree::Str(std::string(2, (char)c) + "z")); }
            for (int e = -320; e <= 308; e += 3) { ts.push_back(Tree::Dbl(strtod(vt::fmt("1e%d", e).c_str(), 0))); ts.push_back(Tree::Dbl(strtod(vt::fmt("-9.87654321e%d", e).c_str(), 0))); }
            for (int k = 0; k < 3000; k++) ts.push_back(Tree::Dbl(gen_finite(r)));
            ts.push_back(Tree::Bool(true)); ts.push_back(Tree::Bool(false)); ts.push_back(Tree()); ts.push_back(Tree::Vec()); ts.push_back(Tree::Map()); ts.push_back(Tree::Str(""));
            for (size_t i = 0; i < ts.size(); i++) { // at the top level, in an array, as a member
                const Tree &t = ts[i]; bool ascii = t.k != STR; if (!ascii) { ascii = true; for (size_t k = 0; k < t.s.size(); k++) if ((signed char)t.s[k] < 0) ascii = false; }
                vt::cur(dump(t) + "\n");
                write_side(t, r); if (ascii) { read_side(t, r, 0); read_side(t, r, 30); }
                Tree v = Tree::Vec(); v.v.push_back(t); v.v.push_back(ts[r.below(50)]); v.v.push_back(t); write_side(v, r); if (ascii) read_side(v, r, 10);
                Tree m = Tree::Map(); m.m["a"] = t; m.m["b\"\\\n"] = t; m.m[""] = t; write_side(m, r); if (ascii) read_side(m, r, 10);
                bool xmlok = true; for (size_t k = 0; t.k == STR && k < t.s.size(); k++) if ((unsigned char)t.s[k] < 32 || (signed char)t.s[k] < 0) xmlok = false;
                Tree x = Tree::Map(); x.m["a"] = t; if (xmlok) { xml_side(t, r); xml_side(x, r); }
            }
            // every code point class through \u escapes and raw UTF-8
            for (uint32_t c = 0; c <= 0x10ffff; c += c < 0x900 ? 1 : c < 0xffff ? 17 : 1021) { if (c >= 0xd800 && c < 0xe000) continue; Tree t = Tree::Vec(); t.v.push_back(Tree::Str(utf8_of(c))); t.v.push_back(Tree::Str("x" + utf8_of(c) + utf8_of(c) + "y")); read_side(t, r, 0); vt::count("codepoints"); }
            static const uint32_t EDGE[] = {0, 1, 0x1f, 0x20, 0x7e, 0x7f, 0x80, 0xff, 0x100, 0x7fe, 0x7ff, 0x800, 0xfff, 0x1000, 0xcfff, 0xd7fe, 0xd7ff, 0xe000, 0xe001, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10001, 0x1ffff, 0x20000, 0xfffff, 0x100000, 0x10fffe, 0x10ffff};
            for (size_t k = 0; k < sizeof EDGE / sizeof EDGE[0]; k++) for (int n = 0; n < 40; n++) { // the edges of the encodings, alone in the document and followed by anything
                std::string u = utf8_of(EDGE[k]), e = u; if (n % 4 == 1) e = "a" + u; else if (n % 4 == 2) e = u + utf8_of(EDGE[r.below(sizeof EDGE / sizeof EDGE[0])]); else if (n % 4 == 3) e = u + u + "z";
                read_side(Tree::Str(e), r, 0); write_side(Tree::Str(e), r); Tree m = Tree::Map(); m.m[e] = Tree::Str(u); read_side(m, r, 0); write_side(m, r); vt::count("edges"); }
            for (int depth = 1; depth <= 250; depth += depth < 20 ? 1 : 23) { Tree t = Tree::UInt(1); for (int k = 0; k < depth; k++) { Tree w = (k + depth) % 2 ? Tree::Vec() : Tree::Map(); if (w.k == VEC) w.v.push_back(t); else w.m["d"] = t; t = w; } write_side(t, r); read_side(t, r, 20); xml_side(t, r); }
            vt::count("sweeps");
        });
    }
    delete g_dirty;
    return vt::done();
}
