// C19: bit maps store every element independently.
#include "shmemu.h"
#include <iostream>
#include <memory>
using namespace std;
#include "CBitMap.h"
using namespace vt;
using namespace lce;

template <size_t B> struct Obj { CBitmap<B> *b; int key; unsigned long n; bool live, ro; };
template <size_t B> static bool put(CBitmap<B> &b, unsigned long i, unsigned v) { return b.set(i, (unsigned char)v); }
static bool put(CBitmap<1> &b, unsigned long i, unsigned v) { return b.set(i, v != 0); }
static unsigned long far_index(Rng &r, unsigned long n) { switch (r.below(8)) { case 0: case 1: case 2: return n; case 3: return n + r.below(40); case 4: return n + r.below(100000); case 5: return ~0UL - r.below(100); case 6: return (1UL << 32) + r.below(n + 1); default: return n * 8 + r.below(9); } }

template <size_t B> static void run(Rng &r) {
    sh::reset(r.chance(20) ? 0 : 1 + (int)r.below(1000)); unsigned M = (1u << B) - 1;
    std::map<int, std::vector<unsigned> > mem;  // key -> elements of the segment's creator
    std::map<int, size_t> segn;
    std::vector<Obj<B> > o(1 + r.below(3)); uint64_t h = B;
    for (auto &x : o) { void *m = malloc(sizeof(CBitmap<B>)); memset(m, r.chance(50) ? 0xA5 : 0xFF, sizeof(CBitmap<B>)); x.b = new (m) CBitmap<B>; x.key = 0; x.n = 0; x.live = x.ro = false; }
    size_t sz = r.chance(25) ? 1 + r.below(17) : r.chance(60) ? 1 + r.below(200) : r.chance(50) ? 4096 * 8 / B - 64 / B - 8 + r.below(80) : 1 + r.below(40000);
    for (int step = 0; step < 250; step++) {
        Obj<B> &x = o[r.below(o.size())]; int k = (int)r.below(100);
        if (k < 6 || (!x.live && k < 60)) { // (re-)init, perhaps one that must fail
            int key = 100 + (int)r.below(2); bool create = r.chance(80); unsigned long n = r.chance(4) ? 0 : mem.count(key) ? (r.chance(80) ? segn[key] : segn[key] + r.below(200) * (r.chance(50) ? 1 : 0) - r.below(segn[key])) : r.chance(70) ? sz : 1 + r.below(sz * 2);
            if (mem.count(key) && n > segn[key] && n < segn[key] + 64) n += 64; // clearly larger
            bool exists = mem.count(key); if (!n && exists) continue;
            if (r.chance(8)) sh::g_fail_at = 1; if (r.chance(8)) sh::g_fail_get = 1; int failed = sh::g_failed;
            bool ro = exists && r.chance(10);
            bool ok = x.b->init(key, n, create, ro); sh::g_fail_at = sh::g_fail_get = 0; bool injected = sh::g_failed != failed;
            bool want = exists ? n <= segn[key] : create && n > 0; if (injected) want = false;
            if (n > 0 && (ok != want) && !(injected && ok)) { fail("init", fmt("width %zu: init(%lu, create %d) of %s segment gave %d", B, n, create, exists ? "an existing" : "a missing", ok)); break; }
            if (ok && n > 0) { if (!exists) { mem[key].assign(n, 0); segn[key] = n; } x.live = true; x.key = key; x.n = n; x.ro = ro; count("inits"); if (exists) count("attached"); if (x.b->size() != n) { fail("size", fmt("size() %zu after init of %lu", x.b->size(), n)); break; } }
            else { // the segment may or may not have come into being
                x.live = false; x.n = 0; count("init_failed"); if (!exists && sh::g_key.count(key)) { sh::remove(key); }
            }
            h = h * 31 + n * 2 + ok;
        } else if (!x.live) { // nothing there: everything is refused
            unsigned long i = r.chance(50) ? r.below(10) : far_index(r, 0); bool s = put(*x.b, i, 1); int g = x.b->get(i);
            if (s || g) { fail("dead-object", fmt("width %zu: a map that was never set up: set(%lu) %d get %d", B, i, s, g)); break; } count("dead_uses");
        } else if (k < 60) {
            if (x.ro) continue;
            std::vector<unsigned> &m = mem[x.key]; unsigned long i = r.chance(70) ? r.below(x.n) : r.chance(50) ? x.n - 1 - r.below(std::min<unsigned long>(x.n, 9)) : far_index(r, x.n);
            unsigned v = B == 1 ? r.below(2) : r.chance(80) ? r.below(M + 1) : r.below(256); bool ok = put(*x.b, i, v);
            if (i >= x.n) { if (ok) { fail("set-range", fmt("width %zu: set(%lu) on %lu elements accepted", B, i, x.n)); break; } count("range_refused"); }
            else if (v > M) { if (ok) m[i] = v & M; count("over_wide"); }
            else { if (!ok) { fail("set", fmt("width %zu: set(%lu, %u) on %lu elements refused", B, i, v, x.n)); break; } m[i] = v; count("sets"); }
            h = h * 37 + i * 3 + v;
        } else if (k < 80) {
            unsigned long i = r.chance(80) ? r.below(x.n) : far_index(r, x.n); unsigned g = (unsigned)x.b->get(i);
            if (i >= x.n ? g != 0 : g != mem[x.key][i]) { fail("get", fmt("width %zu: get(%lu) of %lu gave %u, expected %u", B, i, x.n, g, i >= x.n ? 0 : mem[x.key][i])); break; } count("gets");
        } else if (k < 82) { if (x.ro || x.n != segn[x.key]) continue; x.b->clear(); mem[x.key].assign(segn[x.key], 0); count("clears"); }
        else if (k < 85) { // copies stay usable when the original goes
            CBitmap<B> *c = new CBitmap<B>(*x.b); x.b->~CBitmap<B>(); memset((void *)x.b, 0xDD, sizeof *x.b); free(x.b); x.b = (CBitmap<B> *)malloc(sizeof *c); new (x.b) CBitmap<B>; *x.b = *c; delete c; count("copies");
        } else if (k < 87 && o.size() > 1) { Obj<B> &y = o[r.below(o.size())]; *y.b = *x.b; y.key = x.key; y.n = x.n; y.live = true; y.ro = x.ro; count("copies"); }
        else if (k < 90 && o.size() > 1) { x.b->~CBitmap<B>(); new (x.b) CBitmap<B>; x.live = false; x.n = 0; count("destroyed"); }
        // every element of every map, near and (for large ones sampled) far
        bool bad = false;
        for (auto &y : o) if (y.live && !bad) {
            std::vector<unsigned> &m = mem[y.key]; size_t stride = y.n > 400 ? 1 + r.below(y.n / 100) : 1;
            for (size_t i = stride > 1 ? r.below(stride) : 0; i < y.n; i += stride) if ((unsigned)y.b->get(i) != m[i]) { fail("content", fmt("width %zu, %lu elements: element %zu reads %u, expected %u", B, y.n, i, (unsigned)y.b->get(i), m[i])); bad = true; break; }
            if (!bad && (y.b->size() != y.n || y.b->shm_size() * 8 < segn[y.key] * B)) { fail("size", fmt("size() %zu shm_size() %zu for %lu elements", y.b->size(), y.b->shm_size(), y.n)); bad = true; }
        }
        if (bad) break;
    }
    // a full pass over the large ones
    for (auto &y : o) if (y.live) for (size_t i = 0; i < y.n; i++) if ((unsigned)y.b->get(i) != mem[y.key][i]) { fail("content", fmt("width %zu, %lu elements: at the end element %zu reads %u, expected %u", B, y.n, i, (unsigned)y.b->get(i), mem[y.key][i])); break; }
    for (auto &y : o) { y.b->~CBitmap<B>(); free(y.b); }
    VT_CHECK(sh::attachments() == 0, "attach-leak", fmt("%d attachments left when all objects are gone", sh::attachments()));
    VT_CHECK(sh::g_bad_dt == 0, "double-detach", "something was detached that was not attached"); sh::g_bad_dt = 0;
    distinct("history", h); count("maps");
}
// every index and every value of small maps
template <size_t B> static void sweep() {
    unsigned M = (1u << B) - 1;
    for (unsigned long n = 1; n <= 33; n++) for (int back = 0; back < 2; back++) {
        sh::reset(1); CBitmap<B> b; if (!b.init(5, n)) { fail("init", "init failed"); return; }
        for (unsigned long i = 0; i < n; i++) for (unsigned v = 0; v <= M; v += (v + 3 < M && M > 15 ? 3 : 1)) {
            unsigned bg = back ? M : 0; for (unsigned long j = 0; j < n; j++) put(b, j, bg);
            put(b, i, v); for (unsigned long j = 0; j < n; j++) if ((unsigned)b.get(j) != (j == i ? v : bg)) { fail("sweep", fmt("width %zu, %lu elements of %u: after set(%lu, %u) element %lu reads %u", B, n, bg, i, v, j, (unsigned)b.get(j))); return; }
            count("swept");
        }
    }
}
static void one(Rng &r, uint64_t) {
    switch (r.below(7)) { case 0: run<1>(r); break; case 1: run<2>(r); break; case 2: run<3>(r); break; case 3: run<4>(r); break; case 4: run<5>(r); break; case 5: run<6>(r); break; default: run<8>(r); }
}
int main(int argc, char **argv) {
    init(argc, argv);
    if (mode("sweep")) { sweep<1>(); sweep<2>(); sweep<3>(); sweep<4>(); sweep<5>(); sweep<6>(); sweep<8>(); return done(); }
    cases(one); return done();
}
