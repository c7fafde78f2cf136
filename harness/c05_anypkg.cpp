// C05: any-packages. Header fields and body through encode/decode, wire layout checked independently.
#include "anytree.h"
#include "CAnyPackage.h"
using namespace at;
using namespace lce;

struct Fields { uint8_t stx; uint32_t len, service, cmd, seq, format, ip, err, flag; uint16_t ver; uint64_t uid; };
static uint32_t g32(vt::Rng &r) { return (uint32_t)(r.chance(50) ? gen_u64(r) : r.next()); }
static Fields gen_fields(vt::Rng &r) { Fields f; f.stx = r.chance(80) ? 2 : (uint8_t)r.next(); f.len = g32(r); f.service = g32(r); f.cmd = g32(r); f.seq = g32(r); f.format = g32(r); f.ip = g32(r); f.err = g32(r); f.flag = g32(r); f.ver = (uint16_t)g32(r); f.uid = gen_u64(r); return f; }
static void put(AnyHeader &h, const Fields &f, vt::Rng &r) {
    int order[11]; for (int i = 0; i < 11; i++) order[i] = i; for (int i = 10; i > 0; i--) std::swap(order[i], order[r.below(i + 1)]);
    for (int i = 0; i < 11; i++) switch (order[i]) { case 0: h.setStx(f.stx); break; case 1: h.setLen(f.len); break; case 2: h.setVersion(f.ver); break; case 3: h.setServiceId(f.service); break; case 4: h.setCmd(f.cmd); break; case 5: h.setSeq(f.seq); break;
        case 6: h.setFormat(f.format); break; case 7: h.setUid(f.uid); break; case 8: h.setClientIp(f.ip); break; case 9: h.setErrno(f.err); break; case 10: h.setFlag(f.flag); break; }
}
static void check_fields(AnyHeader &h, const Fields &f, const char *what) {
    #define CK(get, want, name) if ((uint64_t)h.get() != (uint64_t)(want)) vt::fail(std::string("field:") + name, std::string(what) + vt::fmt(": " name " is %llu, was set to %llu", (unsigned long long)h.get(), (unsigned long long)(want)));
    CK(getStx, f.stx, "stx") CK(getLen, f.len, "len") CK(getVersion, f.ver, "version") CK(getServiceId, f.service, "serviceId") CK(getCmd, f.cmd, "cmd") CK(getSeq, f.seq, "seq") CK(getFormat, f.format, "format")
    CK(getUid, f.uid, "uid") CK(getClientIp, f.ip, "clientIp") CK(getErrno, f.err, "errno") CK(getFlag, f.flag, "flag")
    vt::count("headers");
}
static std::string wire(const Fields &f) { std::string s; be(s, f.stx, 1); be(s, f.len, 4); be(s, f.ver, 2); be(s, f.service, 4); be(s, f.cmd, 4); be(s, f.seq, 4); be(s, f.format, 4); be(s, f.uid, 8); be(s, f.ip, 4); be(s, f.err, 4); be(s, f.flag, 4); return s; }

static void one(vt::Rng &r, CAnyPackage &p, CAnyPackage &q, bool sampled) { // p and q are re-used packages
    Fields f = gen_fields(r); bool json = r.chance(35);
    GenOpt o; o.budget = 25; o.maxstr = 2000; o.utf8 = json; o.nonfinite = !json;
    Tree t = gen(r, o);
    int style = (int)r.below(4);
    if (style != 3) p.clear();
    if (style == 0 && t.k == MAP) { p.clearBody(); for (std::map<std::string, Tree>::iterator i = t.m.begin(); i != t.m.end(); ++i) { CAnyValue e; build(i->second, e, r); if (r.chance(50)) p[i->first] = e; else p.insert(i->first, e); } if (t.m.empty()) { p["x"] = 1; p.erase("x"); } }
    else if (style == 1) build(t, p.getRoot(), r);
    else { CAnyValue e; build(t, e, r); p.setRoot(e); }
    if (r.chance(50)) put(p.head(), f, r); else { AnyHeader h; put(h, f, r); p.setHead(h); }
    if (t.k == MAP) for (std::map<std::string, Tree>::iterator i = t.m.begin(); i != t.m.end(); ++i) { const CAnyPackage &c = p; VT_CHECK(c.hasKey(i->first) && eq(read(c[i->first]), i->second), "member", "member " + vt::show(i->first) + " of the package"); }
    int rounds = (int)r.range(1, 2); // encoding twice must not change anything
    while (rounds--) { if (json) p.encodeJSON(); else p.encode(); }
    const size_t H = 43;
    std::string bytes(p.data(), p.size());
    vt::cur_append("package " + vt::hex(bytes, 3000) + "\n");
    VT_CHECK(sizeof(AnyHeader) == H && bytes.size() >= H && bytes.substr(0, H) == wire(f), "wire-header", "header bytes " + vt::hex(bytes.substr(0, H)) + " instead of " + vt::hex(wire(f)));
    VT_CHECK(p.getBodySize() == bytes.size() - H && std::string(p.getBodyData(), p.getBodySize()) == bytes.substr(H), "body-view", "getBodyData/getBodySize differ from data/size");
    try {
        std::string body = bytes.substr(H);
        if (json) { Tree x = JsonReader(body).doc(); VT_CHECK(eq(x, t), "wire-body-json", "JSON body reads as " + dump(x) + " instead of " + dump(t)); }
        else { size_t z = 0; Tree x = bin_read(body, z); VT_CHECK(z == body.size() && eq(x, t), "wire-body", "body reads as " + dump(x) + " instead of " + dump(t)); }
    } catch (BadBin &) { vt::fail("wire-body", "body not decodable: " + vt::hex(bytes)); } catch (BadJson &e) { vt::fail("wire-body", "body is no JSON: " + vt::hex(bytes)); }
    check_fields(p.head(), f, "encoder");
    if (r.chance(30)) { Fields g = gen_fields(r); AnyHeader h; put(h, g, r); p.setHead(h); // the head of an encoded package can be changed, the body stays
        VT_CHECK(std::string(p.data(), p.size()) == wire(g) + bytes.substr(H), "head-change", "changing the head of an encoded package gives " + vt::hex(std::string(p.data(), p.size())));
        AnyHeader o2; put(o2, f, r); p.setHead(o2); VT_CHECK(std::string(p.data(), p.size()) == bytes, "head-change", "putting the head back does not give the same bytes"); vt::count("head_changes"); }
    bool etx = !json && r.chance(50); if (etx) { p.setEtx(); std::string b2(p.data(), p.size()); VT_CHECK(b2 == bytes + "\x03", "etx", "setEtx does not append one byte"); bytes = b2; }
    { vt::Exact e(bytes);
      try { if (json) { if (r.chance(50)) q.decodeJSON(e.p, e.n); else q.decodeJSON((unsigned char *)e.p, e.n); } else { if (r.chance(50)) q.decode(e.p, e.n); else q.decode((unsigned char *)e.p, e.n); }
        check_fields(q.head(), f, "decoder");
        if (!json) VT_CHECK(eq(read(q.getRoot()), t), "body", "body arrives as " + dump(read(q.getRoot())) + " instead of " + dump(t));
        else { Tree w = JsonReader(bytes.substr(H)).doc(); VT_CHECK(eq(read(q.getRoot()), w), "body-json", "body arrives as " + dump(read(q.getRoot())) + " instead of " + dump(w)); }
      } catch (std::exception &x) { vt::fail("decode-throws", std::string("own package rejected: ") + x.what() + " " + vt::hex(bytes)); } }
    if (r.chance(10)) { // a package that is only a head: the receiver has no body, whatever it held before
        Fields g = gen_fields(r); vt::Exact e(wire(g)); CAnyPackage z(q);
        try { if (json) z.decodeJSON(e.p, e.n); else z.decode(e.p, e.n); check_fields(z.head(), g, "head only"); VT_CHECK(read(z.getRoot()).k == NUL && z.getBodySize() == 0, "head-only", "a package without body leaves " + dump(read(z.getRoot())) + " in the receiver"); }
        catch (std::exception &x) { vt::fail("head-only", std::string("a package without body is refused: ") + x.what()); } vt::count("head_only"); }
    // answer built on the received package: new head, same body
    if (!json && r.chance(40)) { Fields g = gen_fields(r); put(q.head(), g, r); q.encode(); VT_CHECK(std::string(q.data(), q.size()) == wire(g) + bytes.substr(H, bytes.size() - H - (etx ? 1 : 0)), "forward", "forwarded package differs"); vt::count("forwarded"); }
    // raw body
    if (r.chance(20)) { std::string raw = r.bytes(r.below(60)); if (r.chance(50)) q.setBodyData(raw.data(), raw.size()); else q.setBodyData((unsigned char *)raw.data(), raw.size()); VT_CHECK(std::string(q.getBodyData(), q.getBodySize()) == raw && q.size() == H + raw.size(), "raw-body", "setBodyData"); vt::count("raw"); }
    // everything shorter is an error
    if (!json) for (int k = 0; k < 3; k++) { size_t body = bytes.size() - H - (etx ? 1 : 0); size_t n = r.chance(30) ? r.below(H) : (body > 1 ? H + r.range(1, body - 1) : 0); if (n == H) continue; vt::Exact e(bytes.substr(0, n)); CAnyPackage z; bool ok = false; try { z.decode(e.p, e.n); ok = true; } catch (std::runtime_error &) {} VT_CHECK(!ok, "short-accepted", vt::fmt("the first %zu of %zu bytes are accepted: ", n, bytes.size()) + vt::hex(bytes)); vt::count("short"); }
    { CAnyPackage c(q), d; d = q; VT_CHECK(std::string(c.data(), c.size()) == std::string(q.data(), q.size()) && eq(read(c.getRoot()), read(q.getRoot())) && eq(read(d.getRoot()), read(q.getRoot())), "copy", "copied package differs"); c.getRoot() = 1; c.head().setCmd(1); VT_CHECK(eq(read(d.getRoot()), read(q.getRoot())), "copy", "copy shares its body"); }
    // the xml form
    if (r.chance(20) && json) { GenOpt ox; ox.utf8 = ox.xmlkeys = ox.xmltext = true; ox.nonfinite = false; Tree tx = gen(r, ox); build(tx, p.getRoot(), r); put(p.head(), f, r); p.encodeXML(); std::string s(p.data(), p.size()); static const std::string A = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>";
        VT_CHECK(s.size() > H + A.size() && s.substr(0, H) == wire(f) && s.substr(H, A.size()) == A, "xml", "xml package prefix");
        try { std::string x = s.substr(H + A.size()), why; Xml d = XmlReader(x).doc(); VT_CHECK(d.kids.size() == 1 && d.kids[0].name == "xmldata" && xml_eq(tx, d.kids[0], why), "xml", "xml body: " + why + " in " + vt::show(x, 500)); } catch (BadXml &e) { vt::fail("xml", "xml body malformed: " + e.why + vt::show(s.substr(H), 500)); } vt::count("xml"); }
    vt::distinct("shape", shape(t) ^ (f.stx == 2)); vt::count("packages"); if (sampled) vt::sample(vt::hex(bytes));
}
int main(int argc, char **argv) {
    vt::init(argc, argv);
    static CAnyPackage p, q;
    VT_CHECK(CAnyPackage().size() == 43 && CAnyPackage().getBodySize() == 0, "initial", "a new package is not an empty header");
    vt::cases([](vt::Rng &r, uint64_t i) { for (int k = 0; k < 10; k++) one(r, p, q, i == 0 && k < 2); CAnyPackage a, b; one(r, a, b, false); });
    return vt::done();
}
