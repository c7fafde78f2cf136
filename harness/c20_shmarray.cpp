// C20: shared-memory arrays share one consistent content.
#include "shmemu.h"
#include <iostream>
#include <memory>
#include <atomic>
using namespace std;
#include "CShmArray.h"
using namespace vt;
using namespace lce;

struct Rec { uint64_t a; uint32_t b; unsigned char c[9]; bool operator==(const Rec &o) const { return a == o.a && b == o.b && !memcmp(c, o.c, 9); } };
static void mk(unsigned char &v, uint64_t x) { v = (unsigned char)x; }
static void mk(int &v, uint64_t x) { v = (int)x; }
static void mk(uint64_t &v, uint64_t x) { v = x; }
static void mk(Rec &v, uint64_t x) { memset(&v, 0, sizeof v); v.a = x; v.b = (uint32_t)(x * 7); for (int i = 0; i < 9; i++) v.c[i] = (unsigned char)(x >> i); }
template <class T> struct Obj { CShmArray<T> *a; int key; size_t n; bool live, ro; };

static int g_race_key; static std::vector<int> g_race_vals; static CShmArray<int> *g_other;
static void race(int key) { delete g_other; g_other = new CShmArray<int>; if (!g_other->init(key, g_race_vals.size())) { fail("init", "the other creator failed"); return; } for (size_t i = 0; i < g_race_vals.size(); i++) (*g_other)[i] = g_race_vals[i]; }

template <class T> static void run(Rng &r) {
    sh::reset(r.chance(20) ? 0 : 1 + (int)r.below(1000)); uint64_t h = sizeof(T), id = 0;
    std::map<int, std::vector<T> > mem; std::vector<Obj<T> > o(1 + r.below(4)); T zero; memset(&zero, 0, sizeof zero);
    for (auto &x : o) { void *m = malloc(sizeof(CShmArray<T>)); memset(m, 0xA5, sizeof(CShmArray<T>)); x.a = new (m) CShmArray<T>; x.key = 0; x.n = 0; x.live = x.ro = false; }
    size_t sz = r.chance(25) ? 1 + r.below(5) : r.chance(60) ? 1 + r.below(300) : r.chance(50) ? (4096 - 48) / sizeof(T) - 1 + r.below(3) : 1 + r.below(20000);
    for (int step = 0; step < 200; step++) {
        Obj<T> &x = o[r.below(o.size())]; int k = (int)r.below(100);
        if (k < 8 || (!x.live && k < 60)) {
            int key = 100 + (int)r.below(3); bool exists = mem.count(key), create = r.chance(80), ro = r.chance(15); size_t have = exists ? mem[key].size() : 0;
            size_t n = exists ? (r.chance(70) ? have : r.chance(50) ? have + 1 + r.below(100) : 1 + r.below(have)) : r.chance(5) ? 0 : r.chance(70) ? sz : 1 + r.below(sz * 2);
            bool absurd = r.chance(5); if (absurd) n = sizeof(T) > 1 && r.chance(50) ? ~(size_t)0 / sizeof(T) + 1 + r.below(3) : ~(size_t)0 - r.below(100);
            if (r.chance(8)) sh::g_fail_at = 1; if (r.chance(8)) sh::g_fail_get = 1; int failed = sh::g_failed;
            bool ok = x.a->init(key, n, create, ro); sh::g_fail_at = sh::g_fail_get = 0; bool injected = sh::g_failed != failed;
            bool want = absurd ? false : exists ? n <= have : create && n > 0;
            if ((injected || n == 0) ? (ok && !want) : ok != want) { fail("init", fmt("element %zu bytes: init(%zu, create %d, read-only %d) of %s segment of %zu gave %d", sizeof(T), n, create, ro, exists ? "an existing" : "a missing", have, ok)); break; }
            if (ok) {
                if (x.a->isCreate() == exists) { fail("isCreate", fmt("isCreate() %d for %s segment", x.a->isCreate(), exists ? "an existing" : "a new")); break; }
                if (!exists) { mem[key].assign(n, zero); count("created"); } else count("attached"); x.live = true; x.key = key; x.n = mem[key].size(); x.ro = ro;
                if (x.a->size() != x.n) { fail("size", fmt("size() %zu, the array was made for %zu", x.a->size(), x.n)); break; }
                if (exists && sh::writable(&(*x.a)[0]) == ro) { fail("read-only", fmt("attached with read-only %d, the memory can %sbe written", ro, ro ? "" : "not ")); break; } if (exists && ro) count("read_only");
            } else {
                x.live = false; count("init_failed"); if (!exists && sh::g_key.count(key)) sh::remove(key);
                if (x.a->size() != 0) { fail("failed-size", fmt("after a failed init size() is %zu", x.a->size())); break; }
                if (strnlen(x.a->getErrMsg(), 1024) >= 1024 || !*x.a->getErrMsg()) { fail("error-text", "a failed init gives no error text"); break; }
            }
            h = h * 31 + n * 2 + ok;
        } else if (!x.live) { if (x.a->size() != 0) { fail("dead-size", fmt("size() of an array that was never set up is %zu", x.a->size())); break; } count("dead_uses"); }
        else if (k < 60) { if (x.ro) continue; size_t i = r.chance(70) ? r.below(x.n) : r.chance(50) ? 0 : x.n - 1; T v; mk(v, ++id * 0x9E3779B97F4A7C15ULL); (*x.a)[i] = v; mem[x.key][i] = v; h = h * 37 + i; count("sets"); }
        else if (k < 80) { size_t i = r.below(x.n); const CShmArray<T> &c = *x.a; if (!(c[i] == mem[x.key][i])) { fail("get", fmt("element %zu reads differently", i)); break; } count("gets"); }
        else if (k < 84) { CShmArray<T> *c = new CShmArray<T>(*x.a); x.a->~CShmArray<T>(); memset((void *)x.a, 0xDD, sizeof *x.a); free(x.a); x.a = (CShmArray<T> *)malloc(sizeof *c); new (x.a) CShmArray<T>; *x.a = *c; delete c; count("copies"); }
        else if (k < 87) { Obj<T> &y = o[r.below(o.size())]; *y.a = *x.a; y.key = x.key; y.n = x.n; y.live = true; y.ro = x.ro; count("copies"); }
        else if (k < 91) { x.a->~CShmArray<T>(); new (x.a) CShmArray<T>; x.live = false; count("destroyed"); }
        bool bad = false;
        for (auto &y : o) if (y.live && !bad) { const std::vector<T> &m = mem[y.key]; const CShmArray<T> &c = *y.a; size_t stride = y.n > 300 ? 1 + r.below(y.n / 60) : 1; if (c.size() != m.size()) { fail("size", fmt("size() %zu of %zu", c.size(), m.size())); bad = true; break; }
            for (size_t i = stride > 1 ? r.below(stride) : 0; i < y.n; i += stride) if (!(c[i] == m[i])) { fail("content", fmt("element size %zu, %zu elements: element %zu differs", sizeof(T), y.n, i)); bad = true; break; } }
        if (bad) break;
    }
    for (auto &y : o) { if (y.live) for (size_t i = 0; i < y.n; i++) if (!((*y.a)[i] == mem[y.key][i])) { fail("content", fmt("at the end element %zu of %zu differs", i, y.n)); break; } }
    for (auto &y : o) { y.a->~CShmArray<T>(); free(y.a); }
    VT_CHECK(sh::attachments() == 0, "attach-leak", fmt("%d attachments left when all objects are gone", sh::attachments())); VT_CHECK(sh::g_bad_dt == 0, "double-detach", "something was detached that was not attached"); sh::g_bad_dt = 0;
    distinct("history", h); count("arrays");
    { // another process creates the segment at the worst moment
        sh::reset(1); g_race_vals.clear(); size_t n = 1 + r.below(40); for (size_t i = 0; i < n; i++) g_race_vals.push_back((int)r.next()); sh::g_race = race; CShmArray<int> a; bool ok = a.init(7, n); sh::g_race = 0;
        if (!ok) fail("race-init", "init failed because another process created the segment meanwhile"); else { VT_CHECK(!a.isCreate(), "race-created", "both processes are told they created the segment"); VT_CHECK(a.size() == n, "race-size", "wrong size"); for (size_t i = 0; i < n; i++) if (a[i] != g_race_vals[i]) { fail("race-content", "the other process' content is gone"); break; } }
        delete g_other; g_other = 0; count("create_races");
    }
    { // its creator has not come to setting it up
        sh::reset(1); CShm s; size_t n = 1 + r.below(40); if (!s.create(8, 48 + n * sizeof(T))) fail("shm-create", "create failed"); CShmArray<T> a, b;
        if (r.chance(70)) { if (a.init(8, n, r.chance(50), true)) fail("unset-read-only", "a read-only attachment to a segment nobody has set up says it is an array"); else VT_CHECK(a.size() == 0, "failed-size", "a failed init leaves a size"); }
        if (b.init(8, n, r.chance(50))) { VT_CHECK(b.size() == n, "size", "wrong size"); for (size_t i = 0; i < n; i++) if (!(b[i] == zero)) { fail("content", "not zeroed"); break; } mk(b[n - 1], ++id); VT_CHECK(a.init(8, n, false, true) && a.size() == n && a[n - 1] == b[n - 1], "content", "a read-only attachment shows something else"); }
        else fail("init", "a segment that was created but not set up cannot be used");
        count("unset_segments");
    }
}
static void raw(Rng &r) { // CShm itself
    sh::reset(1 + (int)r.below(5)); CShm *s[3]; std::string mem; size_t n = 1 + r.below(9000); bool there = false, live[3] = {0, 0, 0}, had[3] = {0, 0, 0}, ro[3] = {0, 0, 0};
    for (int i = 0; i < 3; i++) s[i] = new CShm;
    for (int step = 0; step < 60; step++) {
        int i = (int)r.below(3), k = (int)r.below(10); CShm &x = *s[i];
        if (k < 3) { size_t m = r.chance(80) ? n : n + 1 + r.below(10); bool create = r.chance(80), inj = r.chance(10); if (inj) sh::g_fail_at = 1; int f0 = sh::g_failed; bool wro = r.chance(25), ok = x.create(9, m, create, wro); inj = sh::g_failed != f0; sh::g_fail_at = 0; bool want = there ? m <= n : create; if (inj ? ok : ok != want) { fail("shm-create", fmt("create(%zu, %d) gave %d", m, create, ok)); break; }
            if (sh::g_key.count(9) && !there) { there = true; n = m; mem.assign(n, 0); if (ok && !x.isCreate()) fail("shm-iscreate", "isCreate() false for a new segment"); } else if (ok && x.isCreate()) fail("shm-iscreate", "isCreate() for an existing segment");
            live[i] = ok; if (ok) { had[i] = true; ro[i] = wro; if (!x.isCreate() && sh::writable(x.getShmBuf()) == wro) fail("read-only", fmt("created with read-only %d, the memory can %sbe written", wro, wro ? "" : "not ")); if (x.getShmKey() != 9 || x.getShmSize() != m) fail("shm-info", "key or size wrong"); } else { had[i] = false; if (!*x.getErrMsg()) fail("error-text", "a failed create gives no error text"); } count("shm_creates"); }
        else if (k < 5) { if (!x.detach()) fail("shm-detach", "detach failed"); live[i] = false; count("shm_detaches"); }
        else if (k < 7 && had[i]) { bool inj = r.chance(15); if (inj) sh::g_fail_at = 1; bool ok = x.attach(); sh::g_fail_at = 0; if (ok == inj) { fail("shm-attach", fmt("attach gave %d", ok)); break; } live[i] = ok; if (ok && sh::writable(x.getShmBuf()) == ro[i]) { fail("read-only", "attached again with other rights"); break; } count("shm_attaches"); }
        else if (k < 9) { int j = (int)r.below(3); if (r.chance(50)) { *s[j] = x; } else { CShm *c = new CShm(x); delete s[j]; s[j] = c; } if (j != i) { live[j] = live[i]; had[j] = had[i]; ro[j] = ro[i]; } count("shm_copies"); }
        else if (live[i] && sh::writable(x.getShmBuf())) { size_t p = r.below(n); char c = (char)r.next(); ((char *)x.getShmBuf())[p] = c; mem[p] = c; }
        for (int j = 0; j < 3; j++) { if (live[j] ? memcmp(s[j]->getShmBuf(), mem.data(), n) != 0 : s[j]->getShmBuf() != NULL) { fail("shm-content", live[j] ? "an attachment shows other bytes" : "a detached object still shows a buffer"); step = 1000; break; } }
    }
    for (int i = 0; i < 3; i++) delete s[i];
    VT_CHECK(sh::attachments() == 0, "attach-leak", fmt("%d attachments left when all objects are gone", sh::attachments())); VT_CHECK(sh::g_bad_dt == 0, "double-detach", "something was detached that was not attached"); sh::g_bad_dt = 0;
}
// real segments, real processes
struct Bar { std::atomic<int> in, out, creators, failed, bad; };
static void wait_all(std::atomic<int> &a, int n) { a.fetch_add(1); uint64_t e = now_us() + 20000000; while (a.load() < n) { if (now_us() > e) _exit(7); sched_yield(); } }
static void real(Rng &r) {
    sh::g_real = true; int key = 0; for (int t = 0; t < 200; t++) { key = 0x4c434500 ^ (int)(r.next() & 0xffff) ^ (getpid() << 8); if (__real_shmget(key, 0, 0666) < 0 && errno == ENOENT) break; }
    Bar *b = (Bar *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); new (b) Bar(); b->in = b->out = b->creators = b->failed = b->bad = 0;
    int P = 2 + (int)r.below(5); size_t n = P * (1 + r.below(50)); uint64_t salt = r.next(); std::vector<pid_t> kids;
    for (int p = 0; p < P; p++) {
        pid_t k = fork(); if (k) { kids.push_back(k); continue; }
        Rng q(salt + p); sh::g_rng = &q; CShmArray<uint64_t> a; wait_all(b->in, P);
        if (!a.init(key, n)) { b->failed++; _exit(0); }
        if (a.isCreate()) b->creators++;
        if (a.size() == n) { for (size_t i = p; i < n; i += P) { if (a[i] != 0) b->bad = 1; a[i] = salt + i; } } else b->bad = 2;
        wait_all(b->out, P); const CShmArray<uint64_t> &c = a;
        if (a.size() == n) for (size_t i = 0; i < n; i++) if (c[i] != salt + i) b->bad = 3;
        CShmArray<uint64_t> z; if (!z.init(key, n, false, true) || z.isCreate() || z.size() != n || z[n - 1] != salt + n - 1) b->bad = 4;
        CShmArray<uint64_t> w; if (w.init(key, n + 1000, false)) b->bad = 5;
        _exit(0);
    }
    for (pid_t k : kids) { int w; waitpid(k, &w, 0); if (!WIFEXITED(w) || WEXITSTATUS(w)) fail("process", fmt("a process sharing the array ended with status %x", w)); }
    { CShmArray<uint64_t> a; bool ok = a.init(key, n, false); int id = __real_shmget(key, 0, 0666);
    VT_CHECK(b->failed == 0, "real-init", fmt("%d of %d processes could not set the array up", (int)b->failed, P)); VT_CHECK(b->creators == 1, "real-creators", fmt("%d of %d processes were told they created the array", (int)b->creators, P));
    VT_CHECK(b->bad == 0, "real-content", fmt("processes disagree about the content (%d)", (int)b->bad)); VT_CHECK(ok && !a.isCreate() && a.size() == n, "real-late", "a late process does not find the array");
    if (ok) for (size_t i = 0; i < n && i < a.size(); i++) if (a[i] != salt + i) { fail("real-late", "a late process finds other content"); break; }
    if (id >= 0) shmctl(id, IPC_RMID, 0); }
    count("real_processes", P); munmap(b, 4096); sh::g_real = false;
}
static void one(Rng &r, uint64_t i) {
    switch (r.below(4)) { case 0: run<unsigned char>(r); break; case 1: run<int>(r); break; case 2: run<uint64_t>(r); break; default: run<Rec>(r); }
    raw(r); if (i % 8 == 0) real(r);
}
int main(int argc, char **argv) { init(argc, argv); cases(one); return done(); }
