// C23: the file log keeps the newest records in order within its file budget.
#include "logfiles.h"
#include <netinet/in.h>
#include "CFileLog.h"
using namespace vt;
using namespace lce;

// what the files must look like: per day, the files from oldest to newest, each a list of lines
struct Model { std::map<std::string, std::deque<std::string> > days; };
static std::string textof(Rng &r, size_t n) { std::string s; while (s.size() < n) { char c = r.chance(92) ? (char)r.range(32, 126) : (char)(1 + r.below(255)); s += c == '\n' ? '%' : c; } return s; }
// the size decides before each record is written; what the files are called follows
static void model_write(Model &m, const std::string &date, const std::string &line, size_t max, unsigned num) {
    std::deque<std::string> &d = m.days[date]; if (d.empty()) d.push_back("");
    if (d.back().size() >= max) { d.push_back(""); while (d.size() > std::max(num, 1u)) d.pop_front(); }
    d.back() += line;
}
static bool compare(const Model &m, const std::string &dir, const char *when) {
    std::vector<std::string> strange; auto files = lf::read(dir, "f", &strange); if (!strange.empty()) { fail("strange-file", std::string(when) + ": unexpected file " + strange[0]); return false; }
    std::map<std::string, std::vector<lf::File> > got; for (auto &f : files) got[f.date].push_back(f);
    for (auto &d : m.days) {
        auto &g = got[d.first]; std::string all, have; for (auto &x : d.second) all += x; for (auto &f : g) have += f.data;
        if (g.size() != d.second.size() && !(have.empty() && all.empty())) { fail(g.size() > d.second.size() ? "too-many-files" : "files-missing", fmt("%s: %s: %zu files, expected %zu; %zu bytes, expected %zu", when, d.first.c_str(), g.size(), d.second.size(), have.size(), all.size())); return false; }
        for (size_t i = 0; i < g.size() && i < d.second.size(); i++) {
            if (g[i].num != d.second.size() - 1 - i) { fail("file-number", fmt("%s: found %s where number %zu was expected", when, g[i].name.c_str(), d.second.size() - 1 - i)); return false; }
            if (g[i].data != d.second[i]) { size_t k = 0; while (k < g[i].data.size() && k < d.second[i].size() && g[i].data[k] == d.second[i][k]) k++; fail("content", fmt("%s: %s has %zu bytes, expected %zu; first difference at %zu: %s instead of %s", when, g[i].name.c_str(), g[i].data.size(), d.second[i].size(), k, show(g[i].data.substr(k), 50).c_str(), show(d.second[i].substr(k), 50).c_str())); return false; }
        }
    }
    for (auto &g : got) if (!m.days.count(g.first)) for (auto &f : g.second) if (!f.data.empty()) { fail("wrong-day", std::string(when) + ": unexpected file " + f.name); return false; }
    if (m.days.size() > 2) sample(fmt("%s: %zu days compared", when, m.days.size()));
    count("comparisons"); return true;
}
static void seq(Rng &r) {
    std::string dir = lf::new_dir(), base = dir + "/f"; int fds = open_fds(); size_t max = r.chance(60) ? 1 + r.below(400) : r.chance(50) ? r.below(5000) : 1 << 20; unsigned num = r.chance(10) ? (unsigned)r.below(2) : r.chance(80) ? 2 + (unsigned)r.below(5) : 2 + (unsigned)r.below(30); Model m; uint64_t h = max * 31 + num;
    g_wall = 1600000000 + (int64_t)r.below(200000000); CFileLog *l = new CFileLog(); bool up = false, bad = false;
    if (r.chance(15)) { if (l->write(std::string("early")) || l->writeRaw("early") || l->write("%s", "early")) { fail("before-init", "a record was accepted before init"); bad = true; } count("before_init"); }
    if (r.chance(20)) { // what an earlier run left behind
        std::string d = lf::date_of(g_wall); int k = 1 + (int)r.below(num ? num : 1); for (int i = 0; i < k && (i == 0 || num > 1); i++) { std::string t = textof(r, max < 10000 ? max + r.below(50) : 100) + "\n"; std::ofstream((base + "_" + d + (i ? fmt("_%d", i) : "") + ".log").c_str(), std::ios::binary) << t; m.days[d].push_front(t); } count("leftovers");
    }
    int n = 60 + (int)r.below(200);
    for (int s = 0; s < n && !bad; s++) {
        if (!up) { if (!l->init(base, max, num)) { fail("init", "init failed"); bad = true; break; } up = true; count("inits"); }
        int a = (int)r.below(100); if (r.chance(10)) g_wall += r.chance(70) ? 1 + (int64_t)r.below(1000) : 86400 * (int64_t)(1 + r.below(3)); std::string stamp = "[" + lf::stamp_of(g_wall) + "]", date = lf::date_of(g_wall);
        if (a < 85) {
            size_t len = r.chance(70) ? r.below(60) : r.chance(60) ? r.below(max < 10000 ? max * 2 + 2 : 3000) : r.chance(50) ? 10200 + r.below(80) : r.below(20000); std::string t = textof(r, len), line; bool ok; int kind = (int)r.below(4);
            if (kind == 0) { ok = l->write("%s|%d", t.c_str(), s); line = stamp + ":" + t + fmt("|%d", s); }
            else if (kind == 1) { if (r.chance(5)) t += std::string(2, '\0') + "z"; ok = l->write(t); line = stamp + t; }
            else if (kind == 2) { if (r.chance(5)) t += std::string(2, '\0') + "z"; ok = l->writeRaw(t); line = t; }
            else { int k = (int)r.below(3); if (k == 0) { *l << t << std::endl; line = stamp + ":" + t; } else if (k == 1) { *l << s << "-" << t << std::endl; line = stamp + ":" + fmt("%d-", s) + t; } else { *l << 'c' << s << std::endl; line = stamp + ":c" + fmt("%d", s); } ok = true; count("streamed"); }
            if (!ok) { fail("refused", fmt("record %d (%zu bytes, kind %d) was refused: %s", s, len, kind, l->getErrMsg())); bad = true; break; }
            model_write(m, date, line + "\n", max, num); count("records"); h = h * 131 + len * 4 + kind;
            if (r.chance(25)) bad = !compare(m, dir, fmt("after record %d (max %zu, %u files)", s, max, num).c_str());
        } else if (a < 90) { delete l; l = new CFileLog(); up = false; count("restarts"); }
        else if (a < 94) { if (r.chance(50)) { max = 1 + r.below(1000); } if (!l->init(base, max, num)) { fail("init", "init again failed"); bad = true; } count("reinits"); }
        else if (a < 96) { // another base for a while: its records must not end up here
            std::string other = dir + "2"; mkdir(other.c_str(), 0700); l->init(other + "/f", 1 << 20, 3); std::string x = textof(r, 20); bool ok = l->writeRaw(x); auto v = lf::read(other, "f"); if (!ok || v.size() != 1 || v[0].data != x + "\n") { fail("reinit-path", "after init with another path the record is not there"); bad = true; } l->init(base, max, num); lf::remove_dir(other); count("moves");
        } else if (a < 98) { // the files cannot be written for a while
            std::string full = dir + "/full_" + date + ".log"; if (symlink("/dev/full", full.c_str()) == 0) { CFileLog f; f.init(dir + "/full", 1000, 3); if (f.writeRaw(textof(r, r.chance(50) ? 30 : 20000))) { fail("write-failed", "a record that could not be written was reported as written"); bad = true; } unlink(full.c_str()); if (!f.writeRaw("again") || lf::slurp(full) != "again\n") { fail("write-recovery", "once the file can be written again the log stays silent"); bad = true; } unlink(full.c_str()); count("disk_full"); }
        } else { CFileLog f; if (f.init(dir + "/no/such/f", 100, 3) && f.writeRaw("x")) { fail("open-failed", "a record for a file that cannot be opened was reported as written"); bad = true; } mkdir((dir + "/no").c_str(), 0700); mkdir((dir + "/no/such").c_str(), 0700); if (!f.writeRaw("y")) { fail("open-recovery", "once the directory exists the log stays silent"); bad = true; } lf::remove_dir(dir + "/no/such"); rmdir((dir + "/no").c_str()); count("no_directory"); }
    }
    delete l; if (!bad && up) compare(m, dir, "at the end"); distinct("history", h); VT_CHECK(open_fds() <= fds, "descriptors", fmt("%d descriptors before, %d after", fds, open_fds())); lf::remove_dir(dir);
}
struct Th { CFileLog *l; int tid, n; uint64_t salt; std::vector<std::string> lines; std::vector<int64_t> t0, t1; std::atomic<int> *go; };
static void *th_main(void *p) {
    Th *t = (Th *)p; Rng r(t->salt); while (!t->go->load(std::memory_order_relaxed)) sched_yield();
    for (int i = 0; i < t->n; i++) {
        std::string x = fmt("T%d.%d:", t->tid, i) + textof(r, r.below(80)); int k = (int)r.below(3); t->t0.push_back(g_wall); bool ok = k == 0 ? t->l->write("%s", x.c_str()) : k == 1 ? t->l->write(x) : t->l->writeRaw(x); t->t1.push_back(g_wall);
        if (!ok) fail("refused", "a record was refused"); t->lines.push_back(fmt("%d", k) + x); if (r.chance(2)) g_wall.fetch_add(r.chance(80) ? 1 : 86400, std::memory_order_relaxed);
        if (r.chance(5)) sched_yield();
    }
    return 0;
}
static void threads(Rng &r) {
    std::string dir = lf::new_dir(); g_wall = 1600000000 + (int64_t)r.below(200000000); size_t max = r.chance(70) ? 200 + r.below(2000) : 1 << 20; unsigned num = r.chance(60) ? 10000 : 2 + (unsigned)r.below(6); CFileLog l; l.init(dir + "/f", max, num); int T = 2 + (int)r.below(5); std::atomic<int> go(0); std::vector<Th> th(T); std::vector<pthread_t> p(T);
    si::begin(r); for (int i = 0; i < T; i++) { th[i].l = &l; th[i].tid = i; th[i].n = 60; th[i].salt = r.next(); th[i].go = &go; __real_pthread_create(&p[i], 0, th_main, &th[i]); } go = 1; for (auto x : p) pthread_join(x, 0); si::end();
    auto files = lf::read(dir, "f"); std::vector<int> next(T, -1); uint64_t h = 0; std::map<std::string, unsigned> per; bool bad = false; std::string prev; std::vector<bool> fresh(T, true);
    for (auto &f : files) {
        if (++per[f.date] > num) { fail("too-many-files", f.date); break; } if (f.num && f.data.size() < max) { fail("rotated-early", fmt("%s was closed with %zu bytes, the limit is %zu", f.name.c_str(), f.data.size(), max)); break; }
        if (f.date != prev) { fresh.assign(T, true); prev = f.date; } // each day has a budget of its own, within it the oldest files go
        if (!f.data.empty() && f.data[f.data.size() - 1] != '\n') { fail("torn-line", f.name); break; } size_t lastlen = 0;
        for (size_t q = 0; q < f.data.size() && !bad;) {
            size_t e = f.data.find('\n', q); std::string x = f.data.substr(q, e - q), b = x, st; lastlen = x.size() + 1; q = e + 1; int k = 2; if (b.size() > 21 && b[0] == '[' && b[20] == ']') { st = b.substr(1, 19); if (b[21] == ':') { k = 0; b = b.substr(22); } else { k = 1; b = b.substr(21); } }
            int t, s; if (sscanf(b.c_str(), "T%d.%d:", &t, &s) != 2 || t < 0 || t >= T || s < 0 || s >= 60) { fail("mixed-line", "no record: " + show(x)); bad = true; break; }
            if (th[t].lines[s] != fmt("%d", k) + b) { fail("changed", "written " + show(th[t].lines[s]) + ", found " + show(x)); bad = true; break; }
            if (next[t] >= 0 && (num == 10000 || !fresh[t] || s < next[t]) && s != next[t]) { fail(s < next[t] ? "twice-or-disordered" : "lost", fmt("thread %d: record %d follows, expected %d", t, s, next[t])); bad = true; break; }
            if (next[t] < 0 && s != 0 && num == 10000) { fail("lost", fmt("thread %d starts with record %d", t, s)); bad = true; break; }
            if (k != 2 && (st < lf::stamp_of(th[t].t0[s]) || st > lf::stamp_of(th[t].t1[s]))) { fail("time-stamp", show(x)); bad = true; break; }
            fresh[t] = false; next[t] = s + 1; h = h * 131 + t; count("thread_records");
        }
        if (!bad && f.num && f.data.size() - lastlen >= max) { fail("rotated-late", fmt("%s has %zu bytes, %zu before its last record, the limit is %zu", f.name.c_str(), f.data.size(), f.data.size() - lastlen, max)); bad = true; }
        if (bad) break;
    }
    if (!bad && num == 10000) for (int t = 0; t < T; t++) if (next[t] != 60) { fail("lost", fmt("thread %d ends with record %d", t, next[t] - 1)); break; }
    distinct("history", h); count("thread_runs"); lf::remove_dir(dir);
}
static void one(Rng &r, uint64_t) { if (!mode("threads")) { seq(r); seq(r); } threads(r); }
int main(int argc, char **argv) { init(argc, argv); { Rng z(st().seed * 31 + st().shard); lf::set_zone(z); } cases(one); si::report(); return done(); }
