// C06: fixed-header packages: write / read histories against a byte-vector model.
#include "anytree.h"
#include "CPackage.h"
using namespace lce;
#pragma pack(1)
struct H1 { uint8_t stx; };
struct H7 { uint8_t stx; uint16_t len; uint32_t x; };
struct H43 { uint8_t b[43]; };
#pragma pack()
static uint64_t num(vt::Rng &r) { return at::gen_u64(r); }
struct Item { int kind; uint64_t n; std::string s; };

template <class H> static void one(vt::Rng &r, bool sampled) {
    CPackage<H> p; std::string head(sizeof(H), 0), body; std::vector<Item> items; std::string log; uint64_t h = sizeof(H);
    if (r.chance(50)) { head = r.bytes(sizeof(H)); H x; memcpy(&x, head.data(), sizeof x); if (r.chance(50)) p.setPkgHead(x); else if (r.chance(50)) p.head() = x; else *p.getPkgHead() = x; }
    int n = (int)r.below(25); std::vector<std::pair<size_t, int> > ints;
    for (int k = 0; k < n; k++) {
        Item it; it.kind = (int)r.below(15); it.n = num(r); size_t pos = sizeof(H) + body.size(), got = pos; bool w = r.chance(50);
        #define W(T, NB) { T v = (T)it.n; it.n = (uint64_t)v; if (w) got = p.write(v); else p << v; at::be(body, (uint64_t)v, NB); ints.push_back(std::make_pair(pos, NB)); }
        switch (it.kind) {
        case 0: W(unsigned char, 1) break; case 1: W(char, 1) break; case 2: W(unsigned short, 2) break; case 3: W(short, 2) break; case 4: W(unsigned int, 4) break; case 5: W(int, 4) break;
        case 6: W(unsigned long, 8) break; case 7: W(long, 8) break; case 8: W(unsigned long long, 8) break; case 9: W(long long, 8) break;
        case 10: it.s = r.bytes(r.edge(2000)); if (w) p.write(it.s.data(), it.s.size()); else p.write((const unsigned char *)it.s.data(), it.s.size()); body += it.s; break; // raw block
        case 11: { it.s = r.bytes(r.below(60)); for (size_t i = 0; i < it.s.size(); i++) if (!it.s[i]) it.s[i] = 'x'; if (w) p << it.s; else p << it.s.c_str(); p << (char)0; body += it.s + std::string(1, 0); break; } // zero terminated
        case 12: it.s = r.bytes(r.edge(255)); p << (unsigned char)it.s.size() << it.s; body += (char)it.s.size(); body += it.s; break;
        case 13: it.s = r.bytes(r.edge(3000)); p << (unsigned short)it.s.size() << it.s; at::be(body, it.s.size(), 2); body += it.s; break;
        case 14: it.s = r.bytes(r.edge(70000)); p << (unsigned int)it.s.size(); p << it.s; at::be(body, it.s.size(), 4); body += it.s; break;
        }
        if (it.kind < 10 && w && got != pos) vt::fail("write-pos", vt::fmt("write returns position %zu, value is at %zu", got, pos));
        items.push_back(it); h = h * 17 + it.kind; log += vt::fmt("%d ", it.kind); vt::count("writes");
    }
    vt::cur_append(vt::fmt("head %zu, items ", sizeof(H)) + log + "\n");
    // patch an integer in place
    if (!ints.empty() && r.chance(40)) { std::pair<size_t, int> z = ints[r.below(ints.size())]; uint64_t v = num(r); bool s = r.chance(50);
        switch (z.second) { case 1: if (s) p.writePos((char)v, z.first); else p.writePos((unsigned char)v, z.first); break; case 2: if (s) p.writePos((short)v, z.first); else p.writePos((unsigned short)v, z.first); break;
            case 4: if (s) p.writePos((int)v, z.first); else p.writePos((unsigned int)v, z.first); break; default: switch (r.below(4)) { case 0: p.writePos((long)v, z.first); break; case 1: p.writePos((unsigned long)v, z.first); break; case 2: p.writePos((long long)v, z.first); break; default: p.writePos((unsigned long long)v, z.first); } }
        std::string b; at::be(b, v, z.second); body.replace(z.first - sizeof(H), z.second, b);
        size_t off = sizeof(H); for (size_t i = 0; i < items.size(); i++) { size_t l = items[i].kind < 2 ? 1 : items[i].kind < 4 ? 2 : items[i].kind < 6 ? 4 : items[i].kind < 10 ? 8 : items[i].kind == 10 ? items[i].s.size() : items[i].kind == 11 ? items[i].s.size() + 1 : items[i].s.size() + (1 << (items[i].kind - 12)); if (off == z.first && items[i].kind < 10) { items[i].n = items[i].kind == 0 ? (uint64_t)(unsigned char)v : items[i].kind == 1 ? (uint64_t)(char)v : items[i].kind == 2 ? (uint64_t)(unsigned short)v : items[i].kind == 3 ? (uint64_t)(short)v : items[i].kind == 4 ? (uint64_t)(unsigned int)v : items[i].kind == 5 ? (uint64_t)(int)v : v; break; } off += l; } vt::count("patched"); }
    if (r.chance(30)) { head = r.bytes(sizeof(H)); H x; memcpy(&x, head.data(), sizeof x); p.setPkgHead(x); }
    std::string all(p.data(), p.size());
    VT_CHECK(all == head + body, "wire", "package bytes " + vt::hex(all) + " instead of " + vt::hex(head + body));
    VT_CHECK((size_t)p.getPkgLen() == all.size() && (size_t)p.getPkgBodyLen() == body.size() && std::string(p.getPkgBody(), body.size()) == body && p.getPkg() == p.data() && memcmp(p.getPkgHead(), head.data(), sizeof(H)) == 0 && memcmp(&p.head(), head.data(), sizeof(H)) == 0, "views", "head/body views disagree with the bytes");
    // read back from the bytes
    vt::Exact e(all); CPackage<H> q; CPackage<H> *rd = &q; CPackage<H> *own = 0;
    if (r.chance(20)) q << 1 << 2;
    switch (r.below(5)) { case 0: own = new CPackage<H>(e.p, (int)e.n); rd = own; break; case 1: q.setPkgData(e.p, (int)e.n); break; case 2: q.setPkgData((const unsigned char *)e.p, (int)e.n); break; case 3: q.setPkgData(all); break;
        default: { own = new CPackage<H>(p); rd = own; CPackage<H> z; z = *own; *own = z; } }
    VT_CHECK(std::string(rd->data(), rd->size()) == all, "received", "received package differs");
    try {
        int pass = r.chance(30) ? 2 : 1;
        while (pass--) {
            size_t pos = 0;
            for (size_t k = 0; k < items.size(); k++) {
                const Item &it = items[k]; std::string s = "old";
                #define RD(T) { T v = (T)~it.n; *rd >> v; if ((uint64_t)v != it.n) vt::fail("read:" #T, vt::fmt("item %zu read as %llx, written %llx", k, (unsigned long long)v, (unsigned long long)it.n)); pos += sizeof(T); }
                switch (it.kind) {
                case 0: RD(unsigned char) break; case 1: RD(char) break; case 2: RD(unsigned short) break; case 3: RD(short) break; case 4: RD(unsigned int) break; case 5: RD(int) break; case 6: RD(unsigned long) break; case 7: RD(long) break; case 8: RD(unsigned long long) break; case 9: RD(long long) break;
                case 10: if (r.chance(50)) rd->read(s, (int)it.s.size()); else { vt::Exact b(it.s); if (b.n) memset(b.p, 0x55, b.n); rd->read(b.p, (int)b.n); s.assign(b.p, b.n); } pos += it.s.size(); break;
                case 11: rd->readString(s); pos += it.s.size() + 1; break; case 12: rd->readString1(s); pos += it.s.size() + 1; break; case 13: rd->readString2(s); pos += it.s.size() + 2; break; case 14: rd->readString4(s); pos += it.s.size() + 4; break;
                }
                if (it.kind >= 10) VT_CHECK(s == it.s, "read:string", vt::fmt("item %zu (kind %d) read as ", k, it.kind) + vt::hex(s) + " written " + vt::hex(it.s));
                vt::count("reads");
                size_t left = body.size() - pos; if (left) VT_CHECK(!rd->isEnd((int)r.range(1, left)), "isEnd", "isEnd claims the end too early"); VT_CHECK(rd->isEnd((int)(left + r.range(1, 5))), "isEnd", "isEnd does not see the end");
                // a detour with the cursor
                if (r.chance(15) && pos < body.size()) { size_t to = r.below(body.size()); bool ok; int how = (int)r.below(3);
                    ok = how == 0 ? rd->seek((int)to, CPackage<H>::S_BEG) : how == 1 ? rd->seek((int)to - (int)pos, CPackage<H>::S_CUR) : rd->seek((int)to - (int)body.size(), CPackage<H>::S_END);
                    unsigned char c = 0; if (!ok) vt::fail("seek", vt::fmt("seek way %d to %zu of %zu from %zu refused", how, to, body.size(), pos)); else { *rd >> c; VT_CHECK(c == (unsigned char)body[to], "seek", vt::fmt("seek way %d to %zu of %zu from %zu is somewhere else", how, to, body.size(), pos)); }
                    VT_CHECK(rd->seek((int)pos, CPackage<H>::S_BEG), "seek", "cannot seek back"); vt::count("seeks"); }
                if (r.chance(10)) { int far = (int)(r.chance(50) ? body.size() + 1 + r.below(50) : 0x7ffffff0); VT_CHECK(!rd->seek(far, CPackage<H>::S_BEG) && !rd->seek(-1, CPackage<H>::S_BEG) && !rd->seek(1 + (int)r.below(9), CPackage<H>::S_END) && !rd->seek(-(int)body.size() - 1 - (int)r.below(50), CPackage<H>::S_END) && !rd->seek((int)(body.size() - pos) + 1 + (int)r.below(9), CPackage<H>::S_CUR) && !rd->seek(-(int)pos - 1 - (int)r.below(9), CPackage<H>::S_CUR), "seek-out", vt::fmt("a seek out of the %zu byte body (position %zu) succeeds", body.size(), pos)); vt::count("seeks"); }
            }
            bool err = false; try { char c; *rd >> c; } catch (std::runtime_error &) { err = true; } VT_CHECK(err, "past-end", "a read past the end succeeds");
            err = false; try { std::string s; rd->read(s, 1); } catch (std::runtime_error &) { err = true; } VT_CHECK(err, "past-end", "a read past the end succeeds");
            err = false; try { std::string s; rd->readString(s); } catch (std::runtime_error &) { err = true; } VT_CHECK(err, "past-end", "a string read past the end succeeds");
            if (pass) { if (body.empty()) break; rd->seek(0, CPackage<H>::S_BEG); }
        }
    } catch (std::exception &x) { vt::fail("read-throws", std::string("reading back what was written throws ") + x.what() + " items " + log); }
    VT_CHECK(std::string(rd->data(), rd->size()) == all, "read-modifies", "reading changed the package");
    // body replacement and clearing
    { std::string nb = r.bytes(r.below(80)); if (r.chance(50)) rd->setPkgBody(nb.data(), (int)nb.size()); else rd->setPkgBody((const unsigned char *)nb.data(), (int)nb.size()); VT_CHECK(std::string(rd->data(), rd->size()) == head + nb, "set-body", "setPkgBody"); rd->clearBody(); VT_CHECK(std::string(rd->data(), rd->size()) == head, "clear-body", "clearBody"); *rd << (int)7; int v = 0; *rd >> v; VT_CHECK(v == 7, "clear-body", "cursor after clearBody"); rd->clear(); VT_CHECK(std::string(rd->data(), rd->size()) == std::string(sizeof(H), 0), "clear", "clear"); }
    delete own; vt::count("packages"); vt::distinct("shape", h); if (sampled) vt::sample(log);
}
// any bytes as a package, any order of reads, seeks, copies and replacements; cut short everywhere
template <class H> struct Hostile {
    typedef CPackage<H> P; vt::Rng &r; P *p; std::string head, body, log; size_t cur; uint64_t h;
    Hostile(vt::Rng &r_) : r(r_), p(0), cur(0), h(sizeof(H)) {}
    std::string junk(size_t n) { std::string s; while (s.size() < n) s += r.chance(60) ? (char)r.below(4) : (char)r.next(); return s; }
    void fresh() { head = r.bytes(sizeof(H)); body = junk(r.chance(70) ? r.below(40) : r.edge(700)); std::string all = head + body; vt::Exact e(all); if (!p) p = new P(e.p, (int)e.n); else if (r.chance(50)) p->setPkgData(e.p, (int)e.n); else p->setPkgData(all); cur = 0; }
    void resync() { if (cur < body.size()) VT_CHECK(p->seek((int)cur, P::S_BEG), "seek", "a seek into the body was refused"); else fresh(); }
    template <class T> void rd(const char *n) { T v = (T)0x5a; bool threw = false; try { *p >> v; } catch (std::runtime_error &) { threw = true; } bool enough = body.size() - cur >= sizeof(T);
        VT_CHECK(threw == !enough, enough ? "read-refused" : "past-end", vt::fmt("%s with %zu bytes left: %s", n, body.size() - cur, threw ? "error" : "no error") + " " + log);
        if (enough && !threw) { uint64_t w = 0; for (size_t i = 0; i < sizeof(T); i++) w = w << 8 | (uint8_t)body[cur + i]; VT_CHECK(v == (T)w, "hostile-value", vt::fmt("%s read as %llx instead of %llx ", n, (unsigned long long)v, (unsigned long long)w) + log); cur += sizeof(T); } else { vt::count("cut_short"); resync(); } }
    void str(const char *n, bool good, const std::string &want, size_t used, bool threw, const std::string &got) {
        VT_CHECK(threw == !good, good ? "read-refused" : "past-end", vt::fmt("%s with %zu bytes left: %s ", n, body.size() - cur, threw ? "error" : "no error") + log);
        if (good && !threw) { VT_CHECK(got == want, "hostile-value", vt::fmt("%s read as ", n) + vt::hex(got) + " instead of " + vt::hex(want) + log); cur += used; } else { vt::count("cut_short"); resync(); } }
    void counted(int k) { size_t left = body.size() - cur, len = 0; bool good = left >= (size_t)k; if (good) { for (int i = 0; i < k; i++) len = len << 8 | (uint8_t)body[cur + i]; good = len <= left - k; } std::string s = "old"; bool threw = false; try { if (k == 1) p->readString1(s); else if (k == 2) p->readString2(s); else p->readString4(s); } catch (std::runtime_error &) { threw = true; } str(k == 1 ? "readString1" : k == 2 ? "readString2" : "readString4", good, good ? body.substr(cur + k, len) : "", k + len, threw, s); }
    void run() {
        fresh(); int steps = 10 + (int)r.below(50);
        for (int i = 0; i < steps; i++) {
            int op = (int)r.below(30); h = h * 31 + op; log += vt::fmt(" %d@%zu/%zu", op, cur, body.size()); if (i % 8 == 0) vt::cur(log); vt::count("hostile_ops"); size_t left = body.size() - cur;
            switch (op) {
            case 0: rd<unsigned char>("unsigned char"); break; case 1: rd<char>("char"); break; case 2: rd<unsigned short>("unsigned short"); break; case 3: rd<short>("short"); break; case 4: rd<unsigned int>("unsigned int"); break; case 5: rd<int>("int"); break;
            case 6: rd<unsigned long>("unsigned long"); break; case 7: rd<long>("long"); break; case 8: rd<unsigned long long>("unsigned long long"); break; case 9: rd<long long>("long long"); break;
            case 10: case 11: { int n = r.chance(10) ? (r.chance(50) ? -1 - (int)r.below(60) : r.chance(50) ? (int)0x80000000 : 0x7fffffff) : (int)r.below(left + 4); bool good = n >= 0 && (size_t)n <= left, threw = false; std::string s = "old"; try { if (op == 10) p->read(s, n); else { std::string z(good ? n : 64, 'z'); vt::Exact b(z); p->read(b.p, n); s.assign(b.p, b.n); } } catch (std::runtime_error &) { threw = true; } str("read", good, good ? body.substr(cur, n) : "", good ? n : 0, threw, s); break; }
            case 12: case 13: { std::string s = "old"; bool threw = false, good = left > 0; try { p->readString(s); } catch (std::runtime_error &) { threw = true; } size_t z = body.find('\0', cur); str("readString", good, !good ? "" : z == std::string::npos ? body.substr(cur) : body.substr(cur, z - cur), z == std::string::npos ? left : z - cur + 1, threw, s); break; }
            case 14: counted(1); break; case 15: case 16: counted(2); break; case 17: case 18: counted(4); break;
            case 19: case 20: { int dir = (int)r.below(3); long base = dir == 0 ? 0 : dir == 1 ? (long)cur : (long)body.size(), off = r.chance(10) ? (r.chance(50) ? -2147483647L - (long)r.below(2) : 2147483647L - (long)r.below(3)) : r.range(-(int64_t)body.size() - 4, body.size() + 4), to = base + off; bool ok = p->seek((int)off, dir == 0 ? P::S_BEG : dir == 1 ? P::S_CUR : P::S_END), in = to >= 0 && to <= (long)body.size();
                if (!in) VT_CHECK(!ok, "seek-out", vt::fmt("a seek to %ld of %zu succeeds ", to, body.size()) + log); else if (to < (long)body.size()) VT_CHECK(ok, "seek", vt::fmt("a seek to %ld of %zu was refused ", to, body.size()) + log); if (ok) cur = to; vt::count("seeks"); break; }
            case 21: { P *q = new P(*p); if (r.chance(50)) { P *z = new P; *z << 1 << 2; int v; *z >> v; *z = *q; delete q; q = z; } delete p; p = q; vt::count("copied"); break; }
            case 22: { P &self = *p; *p = self; break; }
            case 23: { std::string s = junk(r.below(sizeof(H))); vt::Exact e(s); bool threw = false; try { switch (r.below(4)) { case 0: p->setPkgData(e.p ? e.p : "", (int)e.n); break; case 1: p->setPkgData((const unsigned char *)(e.p ? e.p : ""), (int)e.n); break; case 2: p->setPkgData(s); break; default: { P z(e.p ? e.p : "", (int)e.n); } } } catch (std::runtime_error &) { threw = true; } VT_CHECK(threw, "short-package", vt::fmt("%zu bytes were taken as a package with a header of %zu", s.size(), sizeof(H))); vt::count("too_short"); break; }
            case 24: fresh(); break;
            case 25: { std::string s = junk(r.below(20)); p->write(s.data(), s.size()); body += s; if (r.chance(30)) { *p << (unsigned short)0x1234; body += "\x12\x34"; } break; }
            case 26: if (r.chance(30)) { p->clear(); head.assign(sizeof(H), 0); } else p->clearBody(); body.clear(); cur = 0; { bool e1 = false; try { char c; *p >> c; } catch (std::runtime_error &) { e1 = true; } VT_CHECK(e1, "past-end", "a read from an empty body succeeds"); } p->write("abcd", 4); body = "abcd"; rd<unsigned short>("unsigned short"); break;
            case 27: { size_t was = cur; std::string s = junk(r.below(r.chance(50) ? cur + 1 : 60)); p->setPkgBody(s.data(), (int)s.size()); body = s; unsigned char c = 0; bool threw = false; try { *p >> c; } catch (std::runtime_error &) { threw = true; } // the cursor stays or starts again, and is inside
                bool a = was < s.size() && !threw && c == (uint8_t)s[was], b = !s.empty() && !threw && c == (uint8_t)s[0], z = threw && (s.empty() || was >= s.size()); VT_CHECK(a || b || z, "stale-cursor", vt::fmt("with the cursor at %zu the body was replaced by %zu bytes, the next read gives %s%02x ", was, s.size(), threw ? "an error " : "", c) + log); cur = 0; vt::count("replaced"); resync(); break; }
            case 28: { size_t n = r.below(left + 5); VT_CHECK(p->isEnd((int)n) == (left < n), "isEnd", vt::fmt("isEnd(%zu) with %zu bytes left", n, left)); break; }
            default: { H x; std::string nh = r.bytes(sizeof(H)); memcpy(&x, nh.data(), sizeof x); p->setPkgHead(x); head = nh; }
            }
            VT_CHECK(std::string(p->data(), p->size()) == head + body && (size_t)p->getPkgBodyLen() == body.size(), "bytes", "the package is " + vt::hex(std::string(p->data(), p->size())) + " instead of " + vt::hex(head + body) + log);
            if (vt::st().violations) break;
        }
        delete p; vt::count("packages"); vt::distinct("hostile", h);
    }
};
int main(int argc, char **argv) {
    vt::init(argc, argv);
    if (vt::mode("hostile")) { vt::cases([](vt::Rng &r, uint64_t) { for (int k = 0; k < 10; k++) { Hostile<H1> a(r); a.run(); Hostile<H7> b(r); b.run(); Hostile<H43> c(r); c.run(); } }); return vt::done(); }
    vt::cases([](vt::Rng &r, uint64_t i) { for (int k = 0; k < 10; k++) { one<H1>(r, i == 0 && !k); one<H7>(r, i == 0 && !k); one<H43>(r, i == 0 && !k); } });
    return vt::done();
}
