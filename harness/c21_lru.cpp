// C21: the LRU cache equals a least-recently-used map with expiry.
#include "schedinj.h"
#include <iostream>
#include <list>
#include "CLruCache.h"
using namespace vt;
using namespace lce;

static std::atomic<uint64_t> g_now(1000000);
extern "C" time_t __wrap_time(time_t *t) { time_t n = (time_t)g_now.load(std::memory_order_relaxed); if (t) *t = n; return n; }
static void mkkey(int &k, int i) { k = i * 7919; }
static void mkkey(std::string &k, int i) { k = fmt("key-with-memory-%d-%s", i, std::string(i % 40, 'x').c_str()); }
static void rndkey(int &k, Rng &r) { k = (int)r.next(); }
static void rndkey(std::string &k, Rng &r) { k.clear(); for (int i = 0; i < 12; i++) k += (char)r.next(); }
static std::string val(int id) { return fmt("value-%d-%s", id, std::string(id % 60, 'v').c_str()); }
// a value that counts its instances
struct TV { std::string s; static std::atomic<long> live; TV() { live.fetch_add(1, std::memory_order_relaxed); } TV(const char *c) : s(c) { live.fetch_add(1, std::memory_order_relaxed); } TV(const std::string &c) : s(c) { live.fetch_add(1, std::memory_order_relaxed); } TV(const TV &o) : s(o.s) { live.fetch_add(1, std::memory_order_relaxed); } TV &operator=(const TV &o) { s = o.s; return *this; } ~TV() { live.fetch_sub(1, std::memory_order_relaxed); } };
std::atomic<long> TV::live(0);
struct Ent { int key; std::string v; uint64_t at; uint32_t exp; };
// model: list from most to least recently used
struct Model { std::list<Ent> l; typedef std::list<Ent>::iterator It; It find(int k) { for (It i = l.begin(); i != l.end(); ++i) if (i->key == k) return i; return l.end(); } };

template <class K> static void seq(Rng &r) {
    size_t max = r.chance(50) ? 1 + r.below(8) : r.chance(60) ? 40 + r.below(70) : r.chance(10) ? 0 : 1 + r.below(600); g_now = r.chance(20) ? 0xFFFFFFFFull - r.below(30) : 1000 + r.below(1u << 30);
    CLruCache<K, TV> *c = new CLruCache<K, TV>(max); Model m; long live0 = TV::live; uint64_t h = max; int id = 0, keys = (int)(max ? max * 2 / (1 + r.below(3)) + 2 : 3);
    if (c->getMaxSize() != max) { fail("max-size", fmt("getMaxSize() %zu, created for %zu", c->getMaxSize(), max)); delete c; return; }
    int n = (int)std::min<size_t>(400 + max * 8, 2500); bool expire = r.chance(60);
    for (int s = 0; s < n; s++) {
        int k = r.chance(10) && !m.l.empty() ? m.l.back().key : (int)r.below(keys), a = (int)r.below(100); K key; mkkey(key, k); typename Model::It it = m.find(k);
        if (r.chance(expire ? 10 : 1)) g_now = g_now + (r.chance(80) ? r.below(4) : r.below(100));
        uint64_t now = g_now;
        if (a < 50) {
            uint32_t e = !expire || r.chance(40) ? 0 : r.chance(80) ? 1 + (uint32_t)r.below(6) : r.chance(50) ? 0xFFFFFFFFu - (uint32_t)r.below(3) : (uint32_t)r.below(1000); std::string v = val(++id);
            bool ok = e || r.chance(50) ? c->set(key, v, e) : c->set(key, v);
            if (max == 0) { VT_CHECK(c->getSize() == 0, "size", "a cache for nothing holds something"); continue; }
            if (!ok) { fail("set", "set was refused"); break; }
            if (it != m.l.end()) m.l.erase(it); else if (m.l.size() >= max) { m.l.pop_back(); count("evictions"); }
            Ent x = {k, v, now, e}; m.l.push_front(x); count("sets");
        } else if (a < 90) {
            TV w("untouched"); bool ok = c->get(key, w); const std::string v = w.s;
            if (it == m.l.end()) { if (ok) { fail("get-foreign", fmt("max %zu: key %d is not there (deleted, expired or evicted), get gave %s", max, k, v.c_str())); break; } count("misses"); }
            else {
                uint64_t el = now - it->at; bool dead = it->exp && el > it->exp; if (it->exp && el == it->exp) count("last_second");
                if (dead && ok) { fail("get-expired", fmt("value with %u s returned after %llu s", it->exp, (unsigned long long)el)); break; }
                if (!dead && !ok) { fail("get-lost", fmt("max %zu, %zu entries: key %d (expiry %u, %llu s old, one of the most recently used) is gone", max, m.l.size(), k, it->exp, (unsigned long long)el)); break; }
                if (ok) { if (v != it->v) { fail("get-value", fmt("key %d: %s instead of %s", k, v.c_str(), it->v.c_str())); break; } m.l.splice(m.l.begin(), m.l, it); count("hits"); } else { m.l.erase(it); count("expired"); }
            }
            if (!ok && v != "untouched") { fail("get-out", "a miss changed the caller's value"); break; }
        } else if (a < 98) { if (!c->del(key)) { fail("del", "del failed"); break; } if (it != m.l.end()) { m.l.erase(it); count("dels"); } }
        else if (r.chance(10)) { c->clear(); m.l.clear(); count("clears"); }
        h = h * 31 + a / 10 + m.l.size() * 7 + k;
        if (TV::live - live0 > 2 * (long)m.l.size() + 8) { fail("hoard", fmt("%ld values in memory, %zu in the cache", (long)TV::live - live0, m.l.size())); break; }
        if (c->getSize() != m.l.size()) { fail("size", fmt("max %zu: getSize() %zu, %zu entries are there", max, c->getSize(), m.l.size())); break; }
    }
    // finally every key
    if (!st().violations) for (int k = 0; k < keys; k++) { K key; mkkey(key, k); TV w; typename Model::It it = m.find(k); bool ok = c->get(key, w); const std::string &v = w.s; if (it == m.l.end() ? ok : ok ? v != it->v : !(it->exp && g_now - it->at > it->exp)) { fail("content", fmt("at the end key %d: %d %s", k, ok, v.c_str())); break; } }
    distinct("history", h); delete c; if (TV::live != live0) fail("leak", fmt("%ld values left when the cache is gone", (long)TV::live - live0));
}
// the sharded variant: exact values, bounded size, a miss needs enough more recently used keys
template <class K> static void sharded(Rng &r) {
    size_t max = r.chance(40) ? 1 + r.below(40) : 33 + r.below(900); g_now = 5000; CLruCacheV2<K, TV> *c = new CLruCacheV2<K, TV>(max); Model m; int keys = (int)(max * 3 / (1 + r.below(4)) + 2), id = 0; size_t share = std::max<size_t>(1, max / 32); long live0 = TV::live; uint64_t h = max, sets = 0; std::map<int, uint64_t> used; // set() calls up to the key's last use
    if (c->getMaxSize() != max) fail("max-size", "sharded: wrong getMaxSize()");
    for (int s = 0; s < 800; s++) {
        int k = (int)r.below(keys), a = (int)r.below(100); K key; mkkey(key, k); typename Model::It it = m.find(k); if (r.chance(4)) g_now = g_now + r.below(5); uint64_t now = g_now;
        if (a < 55) { std::string v = val(++id); TV g; uint32_t e = r.chance(70) ? 0 : 1 + (uint32_t)r.below(20); if (!c->set(key, v, e)) { fail("set", "sharded: set was refused"); break; } if (it != m.l.end()) m.l.erase(it); Ent x = {k, v, now, e}; m.l.push_front(x); used[k] = ++sets; if (!c->get(key, g) || g.s != v) { fail("get-lost", fmt("sharded, max %zu: a value just set is not there", max)); break; } count("v2_sets"); }
        else if (a < 92) { TV w; bool ok = c->get(key, w); const std::string &v = w.s;
            if (it == m.l.end()) { if (ok) { fail("get-foreign", "sharded: a deleted or never set key was found"); break; } }
            else { uint64_t el = now - it->at; uint64_t newer = sets - used[k]; if (ok) { used[k] = sets; if (it->exp && el > it->exp) { fail("get-expired", "sharded: an expired value was returned"); break; } if (v != it->v) { fail("get-value", "sharded: wrong value"); break; } m.l.splice(m.l.begin(), m.l, it); count("v2_hits"); }
                else { if (!(it->exp && el > it->exp) && newer < share) { fail("get-lost", fmt("sharded, max %zu: key gone after only %llu others were stored", max, (unsigned long long)newer)); break; } m.l.erase(it); count("v2_misses"); } } }
        else if (a < 98) { c->del(key); if (it != m.l.end()) m.l.erase(it); } else if (r.chance(10)) { c->clear(); m.l.clear(); }
        size_t z = c->getSize(); if (z > max || z > m.l.size()) { fail("size", fmt("sharded: getSize() %zu, maximum %zu, at most %zu keys alive", z, max, m.l.size())); break; }
        h = h * 31 + k + a;
    }
    g_now = g_now + 1; if (!st().violations) { size_t hit = 0; for (int k = 0; k < keys; k++) { K key; mkkey(key, k); TV v; if (c->get(key, v)) hit++; } VT_CHECK(hit == c->getSize(), "size", fmt("sharded: getSize() %zu, %zu keys can be read", c->getSize(), hit)); }
    if (!st().violations && r.chance(30)) { c->clear(); VT_CHECK(c->getSize() == 0, "size", "sharded: something left after clear()"); for (size_t k = 0; k < max * 8 + 4000 && c->getSize() < max; k++) { K key; rndkey(key, r); TV v("x"); c->set(key, v); } VT_CHECK(c->getSize() == max, "capacity", fmt("sharded: made for %zu, holds %zu however many are stored", max, c->getSize())); count("filled"); }
    distinct("history", h); delete c; if (TV::live != live0) fail("leak", fmt("sharded: %ld values left when the cache is gone", (long)TV::live - live0));
}
// threads: is there an order of the operations that fits the model?
typedef CLruCache<int, std::string> TC;
enum { SET, GET, DEL, CLEAR, SIZE };
struct Op { int kind, key, id; bool ok; std::string v; size_t z; uint64_t inv, res; int th; };
static std::atomic<uint64_t> g_clock;
static void run_op(TC &c, Op &o) {
    int key; mkkey(key, o.key); o.inv = g_clock.fetch_add(1, std::memory_order_relaxed);
    switch (o.kind) { case SET: o.ok = c.set(key, val(o.id)); break; case GET: o.ok = c.get(key, o.v); break; case DEL: c.del(key); break; case CLEAR: c.clear(); break; case SIZE: o.z = c.getSize(); break; }
    o.res = g_clock.fetch_add(1, std::memory_order_relaxed);
}
typedef std::vector<std::pair<int, int> > S; // (key, id), most recent first
static bool apply(const Op &o, S &s, size_t max) {
    size_t i = 0; while (i < s.size() && s[i].first != o.key) i++;
    switch (o.kind) {
    case SET: if (i < s.size()) s.erase(s.begin() + i); else if (s.size() >= max) s.pop_back(); s.insert(s.begin(), std::make_pair(o.key, o.id)); return true;
    case GET: if (i == s.size()) return !o.ok; if (!o.ok || o.v != val(s[i].second)) return false; { std::pair<int, int> p = s[i]; s.erase(s.begin() + i); s.insert(s.begin(), p); } return true;
    case DEL: if (i < s.size()) s.erase(s.begin() + i); return true;
    case CLEAR: s.clear(); return true;
    default: return o.z == s.size();
    }
}
struct Lin { const std::vector<Op> &v; size_t max; std::unordered_set<std::string> seen; uint64_t steps; Lin(const std::vector<Op> &a, size_t m) : v(a), max(m), steps(0) {}
    bool go(uint32_t done, const S &s) {
        if (done == (1u << v.size()) - 1) return true;
        std::string k((char *)&done, 4); for (auto &x : s) { k += (char)x.first; k += (char)x.second; }
        if (!seen.insert(k).second) return false; if (++steps > 2000000) return true;
        uint64_t mr = ~0ULL; for (size_t i = 0; i < v.size(); i++) if (!(done >> i & 1)) mr = std::min(mr, v[i].res);
        for (size_t i = 0; i < v.size(); i++) if (!(done >> i & 1) && v[i].inv <= mr) { S n = s; if (apply(v[i], n, max) && go(done | 1u << i, n)) return true; }
        return false; } };
struct Th { TC *c; std::vector<Op> ops; uint64_t salt; std::atomic<int> *start; };
static void *th_main(void *p) { Th *t = (Th *)p; Rng r(t->salt); while (!t->start->load(std::memory_order_relaxed)) ; for (auto &o : t->ops) { run_op(*t->c, o); if (r.chance(20)) sched_yield(); } return 0; }
static void small(Rng &r) {
    size_t max = 1 + r.below(4); int T = 2 + (int)r.below(3), keys = 2 + (int)r.below(4), id = 0; TC *c = new TC(max); std::vector<Th> th(T); std::atomic<int> start(0); std::vector<pthread_t> t(T);
    for (int i = 0; i < T; i++) { th[i].c = c; th[i].salt = r.next(); th[i].start = &start; for (int k = 0; k < (T == 2 ? 8 : T == 3 ? 6 : 5); k++) { int z = (int)r.below(100); Op o = {z < 45 ? SET : z < 80 ? GET : z < 90 ? DEL : z < 97 ? SIZE : CLEAR, (int)r.below(keys), ++id, false, "", 0, 0, 0, i}; th[i].ops.push_back(o); } }
    for (int i = 0; i < T; i++) __real_pthread_create(&t[i], 0, th_main, &th[i]);
    start = 1; for (auto x : t) pthread_join(x, 0);
    std::vector<Op> v; for (auto &x : th) for (auto &o : x.ops) v.push_back(o);
    for (int k = 0; k < keys; k++) { Op o = {GET, k, 0, false, "", 0, 0, 0, 9}; run_op(*c, o); v.push_back(o); } { Op o = {SIZE, 0, 0, false, "", 0, 0, 0, 9}; run_op(*c, o); v.push_back(o); }
    Lin l(v, max); if (!l.go(0, S())) { std::string s; for (auto &o : v) s += fmt(" t%d[%llu,%llu]%s(%d,%d)=%d %s %zu", o.th, (unsigned long long)o.inv, (unsigned long long)o.res, o.kind == SET ? "set" : o.kind == GET ? "get" : o.kind == DEL ? "del" : o.kind == CLEAR ? "clear" : "size", o.key, o.id, o.ok, o.v.substr(0, 9).c_str(), o.z); fail("not-linearizable", fmt("max %zu:", max) + s); }
    count("lin_histories"); count("small_ops", v.size()); uint64_t h = 0; std::vector<const Op *> ord; for (auto &o : v) ord.push_back(&o); std::sort(ord.begin(), ord.end(), [](const Op *a, const Op *b) { return a->res < b->res; }); for (auto o : ord) h = h * 131 + o->kind * 8 + o->th; distinct("history", h); delete c;
}
struct BigTh { CLruCacheV2<int, std::string> *a; CLruCache<std::string, std::string> *b; int id; uint64_t salt; };
static void *big_main(void *p) { // own keys: what this thread stored last, or nothing; foreign keys: a value made for that key
    BigTh *t = (BigTh *)p; Rng r(t->salt); std::map<int, std::string> mine; int n = 0;
    for (int s = 0; s < 400; s++) {
        bool own = r.chance(60); int slot = (int)r.below(20), k = own ? t->id * 1000 + slot : (int)r.below(4) * 1000 + slot, a = (int)r.below(100); std::string sk, g; mkkey(sk, k);
        if (own && a < 45) { std::string v = fmt("v%d-%d-%d", k, t->id, ++n); t->a->set(k, v, r.chance(10) ? 3 : 0); t->b->set(sk, v); mine[k] = v; }
        else if (a < 88) { bool o1 = t->a->get(k, g); if (o1 && (own ? g != mine[k] : g.compare(0, fmt("v%d-", k).size(), fmt("v%d-", k)) != 0)) fail("threads-value", fmt("key %d gave %s", k, g.c_str())); g = ""; bool o2 = t->b->get(sk, g); if (o2 && (own ? g != mine[k] : g.compare(0, fmt("v%d-", k).size(), fmt("v%d-", k)) != 0)) fail("threads-value", fmt("key %d gave %s", k, g.c_str())); count(o1 || o2 ? "thread_hits" : "thread_misses"); }
        else if (a < 94 && own) { t->a->del(k); t->b->del(sk); mine[k] = "(deleted)"; } else { size_t z = t->b->getSize(); if (z > 50) fail("size", fmt("getSize() %zu, maximum 50", z)); z = t->a->getSize(); if (z > 128) fail("size", "sharded: larger than its maximum"); if (r.chance(5)) g_now.fetch_add(1, std::memory_order_relaxed); }
    }
    return 0;
}
static void big(Rng &r) { CLruCacheV2<int, std::string> a(128); CLruCache<std::string, std::string> b(50); int T = 2 + (int)r.below(3); std::vector<BigTh> t(T); std::vector<pthread_t> p(T); for (int i = 0; i < T; i++) { t[i].a = &a; t[i].b = &b; t[i].id = i; t[i].salt = r.next(); __real_pthread_create(&p[i], 0, big_main, &t[i]); } for (auto x : p) pthread_join(x, 0); count("thread_runs"); }
static void one(Rng &r, uint64_t) {
    if (!mode("threads")) { seq<int>(r); seq<std::string>(r); sharded<int>(r); sharded<std::string>(r); }
    si::begin(r); for (int i = 0; i < 6; i++) small(r); big(r); si::end();
}
int main(int argc, char **argv) { init(argc, argv); cases(one); si::report(); return done(); }
