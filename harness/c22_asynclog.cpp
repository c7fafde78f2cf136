// C22: the asynchronous log writes every accepted record, whole and once, in each thread's order.
#include "logfiles.h"
#include <netinet/in.h>
#include "CAsyncLog.h"
#include "CLog.h"
using namespace vt;
using namespace lce;

// one record: what was asked for, what came back
struct Rec { int kind; std::string text; bool ok; int64_t t0, t1; bool before_flush; };
enum { FMT, STR, RAW };
static std::string payload(Rng &r, int tid, int seq, size_t len) {
    std::string s = fmt("T%d.%d:", tid, seq); while (s.size() < len) { char c = r.chance(92) ? (char)r.range(32, 126) : (char)(1 + r.below(255)); if (c == '\n') c = '%'; s += c; } return s;
}
struct Wr { CAsyncLog *log; int tid, n; uint64_t salt; size_t bufsize; int maxlen, flushpct; std::vector<Rec> recs; std::atomic<int> *go; std::atomic<int64_t> *clock; };
static bool put(CAsyncLog &l, const Rec &x) { return x.kind == FMT ? l.write("%s", x.text.c_str()) : x.kind == STR ? l.write(x.text) : l.writeRaw(x.text); }
static void *writer(void *p) {
    Wr *w = (Wr *)p; Rng r(w->salt); while (!w->go->load(std::memory_order_relaxed)) sched_yield();
    for (int i = 0; i < w->n; i++) {
        Rec x; x.kind = (int)r.below(3); size_t len = r.chance(90) ? r.below(w->maxlen) : r.chance(70) ? w->bufsize / 2 + r.below(w->bufsize) : r.below(12000);
        x.text = payload(r, w->tid, i, len); if (x.kind != FMT && r.chance(3)) x.text += std::string(1 + r.below(3), '\0') + "x";
        x.before_flush = false; x.t0 = g_wall.load(); x.ok = put(*w->log, x); x.t1 = g_wall.load(); w->recs.push_back(x); count(x.ok ? "accepted" : "refused");
        if ((int)r.below(1000) < w->flushpct) { w->log->flush(); count("flushes"); }
        if (r.chance(1)) g_wall.fetch_add(r.chance(80) ? 1 : 86400 * (int64_t)(1 + r.below(3)), std::memory_order_relaxed);
        if (r.chance(4)) sleep_us(r.below(300)); else if (r.chance(10)) sched_yield();
    }
    return 0;
}
// one line of a file: which record is it
struct Line { int tid, seq, kind; int64_t stamp; std::string text; };
static bool parse(const std::string &l, Line &o) {
    std::string b = l; o.kind = RAW; o.stamp = -1;
    if (b.size() >= 21 && b[0] == '[' && b[20] == ']') {
        struct tm m; memset(&m, 0, sizeof m); m.tm_isdst = -1; if (strptime(b.substr(1, 19).c_str(), "%Y-%m-%d %H:%M:%S", &m) == 0) return false;
        o.stamp = mktime(&m); if (b.size() > 21 && b[21] == ':') { o.kind = FMT; b = b.substr(22); } else { o.kind = STR; b = b.substr(21); }
    }
    int n = 0; if (sscanf(b.c_str(), "T%d.%d:%n", &o.tid, &o.seq, &n) != 2 || n == 0) return false;
    o.text = b; return true;
}
static std::vector<std::string> lines(const std::vector<lf::File> &v, std::vector<std::string> &dates, bool &torn) {
    std::vector<std::string> out; torn = false;
    for (auto &f : v) { size_t p = 0; while (p < f.data.size()) { size_t q = f.data.find('\n', p); if (q == std::string::npos) { torn = true; q = f.data.size(); } out.push_back(f.data.substr(p, q - p)); dates.push_back(f.date); p = q + 1; } }
    return out;
}
// compare the files with what the threads did; limited: old files may have been discarded
static bool check(const std::string &dir, const std::vector<Wr> &w, size_t filemax, unsigned filenum, bool limited, bool complete, const char *when, size_t bufsize) {
    std::vector<std::string> strange, dates; auto files = lf::read(dir, "app", &strange); bool torn; auto ls = lines(files, dates, torn); int T = (int)w.size();
    if (!strange.empty()) { fail("strange-file", "unexpected file " + strange[0]); return false; }
    if (torn) { fail("torn-line", fmt("%s: a record without its line end", when)); return false; }
    std::vector<size_t> next(T, 0); std::vector<bool> started(T, false); uint64_t h = 0; std::string today = lf::date_of(g_wall.load());
    for (size_t i = 0; i < ls.size(); i++) {
        Line l; if (!parse(ls[i], l) || l.tid < 0 || l.tid >= T || l.seq < 0 || l.seq >= (int)w[l.tid].recs.size()) { fail("mixed-line", fmt("%s: line %zu is no record: %s", when, i, show(ls[i]).c_str())); return false; }
        const Rec &x = w[l.tid].recs[l.seq];
        if (!x.ok) { fail("refused-written", fmt("%s: record %d of thread %d was refused and is in the file", when, l.seq, l.tid)); return false; }
        if (l.kind != x.kind || l.text != x.text) { fail("changed", fmt("%s: record %d of thread %d: %s, written as %s", when, l.seq, l.tid, show(x.text).c_str(), show(ls[i]).c_str())); return false; }
        if (x.kind != RAW && (l.stamp < x.t0 || l.stamp > x.t1)) { fail("time-stamp", fmt("%s: record written between %s and %s is stamped %s", when, lf::stamp_of(x.t0).c_str(), lf::stamp_of(x.t1).c_str(), ls[i].substr(0, 21).c_str())); return false; }
        if (dates[i] < lf::date_of(x.t0) || dates[i] > today) { fail("file-date", fmt("%s: record of %s in the file of %s", when, lf::date_of(x.t0).c_str(), dates[i].c_str())); return false; }
        size_t n = next[l.tid]; while (n < w[l.tid].recs.size() && !w[l.tid].recs[n].ok) n++;
        if (limited && i && dates[i] != dates[i - 1]) started.assign(T, false); // each day has a budget of its own
        if (limited && !started[l.tid] && (size_t)l.seq > n) { n = l.seq; // older ones were discarded
            bool full = filenum <= 1; for (auto &f : files) if (f.date <= dates[i] && f.num + 1 == filenum) full = true;
            if (!full) { fail("discarded-early", fmt("%s: records of thread %d before %d were discarded, and %u files are not there yet", when, l.tid, l.seq, filenum)); return false; } count("discards"); }
        if ((int)n != l.seq) { fail((size_t)l.seq < n ? "twice-or-disordered" : "lost", fmt("%s: thread %d: record %d follows, expected %zu", when, l.tid, l.seq, n)); return false; }
        started[l.tid] = true; next[l.tid] = n + 1; h = h * 131 + l.tid;
    }
    for (int t = 0; t < T; t++) {
        if (limited) continue; // all of a thread may be in discarded files
        for (size_t n = next[t]; n < w[t].recs.size(); n++) if (w[t].recs[n].ok && (complete || w[t].recs[n].before_flush)) { fail("lost", fmt("%s: record %zu of thread %d (%s) was accepted and is not in the files", when, n, t, show(w[t].recs[n].text, 40).c_str())); return false; }
    }
    std::map<std::string, unsigned> per; for (auto &f : files) if (f.data.size() >= filemax + 2 * bufsize + 2) { fail("too-large", fmt("%s: %s has %zu bytes, the limit is %zu and a buffer has %zu", when, f.name.c_str(), f.data.size(), filemax, bufsize)); return false; }
    for (auto &f : files) { per[f.date]++;  if (f.num && f.num >= std::max(filenum, 1u)) { fail("too-many-files", fmt("%s: %s with %u files allowed", when, f.name.c_str(), filenum)); return false; }
        if (f.num && f.data.size() < filemax) { fail("rotated-early", fmt("%s: %s was closed with %zu bytes, the limit is %zu", when, f.name.c_str(), f.data.size(), filemax)); return false; } if (f.num) count("rotated_files"); }
    if (files.size() > 2 && T > 2) sample(fmt("%s: %d threads, %zu records in %zu files of %zu days, limit %zu", when, T, ls.size(), files.size(), per.size(), filemax));
    count("lines", ls.size()); count("days", per.size()); distinct("history", h); return true;
}
static void one(Rng &r, uint64_t) {
    int fds = open_fds(); std::string dir = lf::new_dir(); g_scale = r.chance(80) ? 50 + (int)r.below(400) : 2000000; g_wall = 1600000000 + (int64_t)r.below(200000000);
    if (r.chance(50)) { int64_t day = g_wall - (g_wall % 86400); g_wall = day + 86400 - (int64_t)r.below(3); }
    size_t bufsize = r.chance(50) ? 120 + r.below(600) : r.chance(60) ? 600 + r.below(8000) : 65536; size_t filemax = r.chance(40) ? 1 + r.below(2000) : r.chance(50) ? 20000 : 1 << 30; bool limited = r.chance(15); unsigned filenum = limited ? (unsigned)r.below(5) : 10000; int secs = (int)r.below(3);
    bool late = r.chance(15); std::string base = dir + "/app"; if (late) lf::remove_dir(dir);
    CAsyncLog *log = new CAsyncLog();
    if (r.chance(10)) { if (log->write(std::string("early")) || log->writeRaw("early")) fail("before-init", "a record was accepted before init"); log->flush(); count("before_init"); if (r.chance(30)) { delete log; VT_CHECK(open_fds() <= fds, "descriptors", "leaked"); lf::remove_dir(dir); return; } }
    si::begin(r); if (r.chance(6)) si::fail_create() = 100;
    bool up = log->init(base, secs, filemax, filenum, false, bufsize); if (si::fail_create()) { si::fail_create() = 0; if (up) fail("init-failed", "init reported success without its thread"); up = false; count("start_failures"); } else if (!up) { fail("init", "init failed"); delete log; si::end(); return; }
    if (!up) { delete log; si::end(); lf::remove_dir(dir); VT_CHECK(open_fds() <= fds, "descriptors", "leaked"); return; }
    int T = 1 + (int)r.below(6); std::atomic<int> go(0); std::vector<Wr> w(T); std::vector<pthread_t> th(T); int flushpct = r.chance(40) ? 0 : r.chance(50) ? 20 : 200, total = 60 + (int)r.below(500); int maxlen = r.chance(50) ? 40 : (int)bufsize / 2;
    for (int i = 0; i < T; i++) { w[i].log = log; w[i].tid = i; w[i].n = total / T + 1; w[i].salt = r.next(); w[i].bufsize = bufsize; w[i].maxlen = maxlen; w[i].flushpct = flushpct; w[i].go = &go; __real_pthread_create(&th[i], 0, writer, &w[i]); }
    go = 1; bool fl = r.chance(30); if (fl) for (int i = 0; i < 20; i++) { log->flush(); count("flushes"); sleep_us(r.below(200)); }
    if (late) { sleep_us(r.below(2000)); mkdir(dir.c_str(), 0700); count("late_directories"); }
    for (auto t : th) pthread_join(t, 0);
    // now nothing else is going on
    int end = (int)r.below(4); bool bad = false; bool periodic = secs * 1000 / 100 * 100000 / g_scale < 200000;
    if (r.chance(60)) { // explicit flush: everything accepted so far is in the files, and there is room again
        log->flush(); count("flushes"); bad = !check(dir, w, filemax, filenum, limited, true, "after flush", bufsize);
        if (!bad) for (int k = 0; k < 3; k++) { // a record of any length that fits an empty buffer is accepted now
            Wr &z = w[0]; Rec x; x.kind = RAW; size_t len = k == 0 ? bufsize - 1 : r.below(bufsize); x.text = payload(r, 0, (int)z.recs.size(), len); if (x.text.size() > bufsize - 1) continue; x.t0 = g_wall; x.ok = put(*log, x); x.t1 = g_wall; x.before_flush = false; z.recs.push_back(x); count("into_empty");
            if (!x.ok) { fail("refused-empty", fmt("a record of %zu bytes was refused by the empty log with buffers of %zu: %s", x.text.size(), bufsize, log->getErrMsg())); bad = true; break; }
            if (r.chance(50)) break; log->flush(); if (!check(dir, w, filemax, filenum, limited, true, "after flush", bufsize)) { bad = true; break; }
        }
    }
    if (!bad && periodic && end == 0 && !limited) { // nobody flushes: the log does it on its own
        for (auto &z : w) for (auto &x : z.recs) x.before_flush = true;
        uint64_t t0 = now_us(), v0 = g_slept; size_t want = 0, have = 0; bool overdue = false; for (auto &z : w) for (auto &x : z.recs) want += x.ok; 
        while (now_us() - t0 < 8000000) { std::vector<std::string> d; bool t; uint64_t v = g_slept - v0; overdue = v > 3000000ull * (secs + 1); have = lines(lf::read(dir, "app"), d, t).size(); if (have >= want || overdue) break; sleep_us(g_scale > 1000 ? 3000 : 300); }
        if (have < want) { fail("not-written", fmt("flush period %d s (scaled 1:%d): after %s only %zu of %zu records are in the files", secs, (int)g_scale, overdue ? "three times that" : "8 s", have, want)); bad = true; } else count("periodic");
    }
    si::end(); delete log; count("destroyed");
    if (!bad && r.chance(30)) { // a later log goes on in the same files
        bad = !check(dir, w, filemax, filenum, limited, true, "after destruction", bufsize);
        if (!bad) { log = new CAsyncLog(); bool roomy = bufsize > 200 && r.chance(50); if (!log->init(base, roomy ? 100000 : secs, filemax, filenum, false, bufsize)) fail("init", "init failed"); else { Wr &z = w[0]; int m = roomy ? 2 : 1 + (int)r.below(6); for (int k = 0; k < m; k++) { Rec x; x.kind = roomy ? (int)RAW : (int)r.below(3); x.text = payload(r, 0, (int)z.recs.size(), roomy ? bufsize * 6 / 10 : r.below(bufsize / 2)); x.t0 = g_wall; x.ok = put(*log, x); x.t1 = g_wall; x.before_flush = false; z.recs.push_back(x); if (roomy) { count("both_buffers"); if (!x.ok) fail("refused-roomy", fmt("record %d of two of %zu bytes was refused by the empty log with two buffers of %zu", k + 1, x.text.size(), bufsize)); } else if (r.chance(50)) log->flush(); }
            if (roomy && g_scale < 1000 && !st().violations) { // the buffer that is full goes to the file without waiting for the period
                uint64_t v0 = g_slept, t0 = now_us(); std::string want = fmt("T0.%zu:", z.recs.size() - 2); bool there = false; while (!there && now_us() - t0 < 8000000) { uint64_t v = g_slept - v0; for (auto &f : lf::read(dir, "app")) there = there || f.data.find(want) != std::string::npos; if (there || v > 3000000) break; sleep_us(300); }
                if (!there && filenum > 1) fail("full-waits", "a full buffer is not written before the period is over"); count("full_written", there); } } delete log; count("reopened"); }
    }
    if (!bad) check(dir, w, filemax, filenum, limited, true, "after destruction", bufsize);
    VT_CHECK(open_fds() <= fds, "descriptors", fmt("%d descriptors before, %d after", fds, open_fds())); count("records", 0); lf::remove_dir(dir);
}
// the log with levels: a process of its own for every case, the log exists once per process
// what the log was told about sizes and numbers of files is what it does
static void budget(Rng &r) {
    std::string dir = lf::new_dir(), base = dir + "/app"; unsigned count_ = 1 + (unsigned)r.below(5); size_t size = 300 + r.below(3000), buf = 400 + r.below(3000); int n = (int)((count_ + 2) * (size + 200) / 40) + 10; bool cmd = r.chance(30); g_scale = 1 + (int)r.below(500);
    fflush(0); pid_t k = fork();
    if (!k) {
        int f = open((dir + "-out").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(f, 1);
        if (!CLog::init(base, 100000, buf, size, count_, cmd, 15, false)) _exit(9);
        std::string big(buf + 10, 'b'); CLog::log(CLog::LEVEL_INFO, "x", 1, "%s", big.c_str()); // does not fit
        for (int i = 0; i < n; i++) { CLog::log(CLog::LEVEL_INFO, "x", 1, "T0.%d:%s", i, "some text"); if (i % 3 == 2) CLog::flush(); }
        CLog::flush(); fflush(0); std::cout.flush(); _exit(0);
    }
    int s; waitpid(k, &s, 0); std::string out = lf::slurp(dir + "-out"); unlink((dir + "-out").c_str()); if (!WIFEXITED(s) || WEXITSTATUS(s)) { fail("level-process", fmt("the logging process ended with status %#x", s)); lf::remove_dir(dir); return; }
    auto files = lf::read(dir, "app"); unsigned most = 0; size_t lines_ = 0; std::string all; for (auto &f : files) { most = std::max(most, f.num); all += f.data; VT_CHECK(f.data.size() < size + 2 * buf + 2 && (!f.num || f.data.size() >= size), "size-setting", fmt("%s has %zu bytes, the limit is %zu", f.name.c_str(), f.data.size(), size)); }
    lines_ = std::count(all.begin(), all.end(), '\n'); std::string last = fmt("T0.%d:some text\n", n - 1);
    VT_CHECK(files.size() == most + 1 && most + 1 == count_, "number-setting", fmt("%zu files, the highest number is %u, %u files were asked for", files.size(), most, count_));
    VT_CHECK(all.size() >= last.size() && all.compare(all.size() - last.size(), last.size(), last) == 0, "lost", "the last record is not at the end of the newest file"); VT_CHECK(all.find("bbbb") == std::string::npos, "buffer-setting", fmt("a record larger than the buffer of %zu was accepted", buf));
    size_t shown = std::count(out.begin(), out.end(), '\n'); VT_CHECK(cmd ? shown >= (size_t)n : shown == 0, "show-setting", fmt("%zu lines on the screen", shown)); count("budgets"); (void)lines_; lf::remove_dir(dir);
}
static void levels(Rng &r, uint64_t) {
    if (r.chance(25)) return budget(r);
    std::string dir = lf::new_dir(), base = dir + "/app"; uint32_t mask = (uint32_t)r.below(16); bool line = r.chance(50), dflt = r.chance(10); int T = 1 + (int)r.below(4), how = (int)r.below(3), per = 20 + (int)r.below(60); uint64_t salt = r.next(); size_t len = r.chance(30) ? 3990 + r.below(40) : r.chance(20) ? 10200 + r.below(100) : r.below(60); g_scale = 1 + (int)r.below(500);
    if (dflt) { mask = 15; line = true; len = std::min(len, (size_t)2500); } // all of it fits one buffer
    fflush(0); pid_t k = fork();
    if (!k) {
        CLog::log(CLog::LEVEL_ERROR, "x", 1, "before init"); CLog::flush();
        if (!(dflt ? CLog::init(base) : CLog::init(base, 1, 1 << 24, 1 << 30, 100, false, mask, line))) _exit(9);
        CLog::init(base + "-other", 1, 1 << 24, 1 << 30, 100, false, 15, true); // has no effect
        std::vector<std::pair<int, uint64_t> > a; for (int i = 0; i < T; i++) a.push_back(std::make_pair(i, salt + i)); std::vector<pthread_t> th(T);
        struct L { int tid, per; size_t len; };
        std::vector<L> l(T); for (int i = 0; i < T; i++) { l[i].tid = i; l[i].per = per; l[i].len = len; pthread_create(&th[i], 0, [](void *p) -> void * { L *l = (L *)p; std::string pad(l->len, 'a' + l->tid);
            for (int s = 0; s < l->per; s++) { switch (s % 4) { case 0: LOG_DEBUG("T%d.%d:%s", l->tid, s, pad.c_str()); break; case 1: LOG_INFO("T%d.%d:%s", l->tid, s, pad.c_str()); break; case 2: LOG_WARN("T%d.%d:%s", l->tid, s, pad.c_str()); break; default: LOG_ERROR("T%d.%d:%s", l->tid, s, pad.c_str()); } }
            return 0; }, &l[i]); }
        for (auto t : th) pthread_join(t, 0);
        if (how == 0) { CLog::flush(); _exit(0); }
        if (how == 1) CLog::flush();
        exit(0);
    }
    int s; waitpid(k, &s, 0); if (!WIFEXITED(s) || WEXITSTATUS(s)) { fail("level-process", fmt("the logging process ended with status %#x", s)); return; }
    bool torn; std::vector<std::string> dates; auto ls = lines(lf::read(dir, "app"), dates, torn); std::vector<int> next(T, 0); static const char *N[] = {"DEBUG", "INFO", "WARN", "ERROR"}; size_t n = 0; bool bad = false;
    for (auto &x : ls) {
        size_t p = x.find("]:["); int t, q, m = 0; size_t b = x.find(std::string("T"), p == std::string::npos ? 0 : x.find("] ", p)); if (p == std::string::npos || b == std::string::npos || sscanf(x.c_str() + b, "T%d.%d:%n", &t, &q, &m) != 2 || t < 0 || t >= T || q < 0 || q >= per) { fail("mixed-line", "no record: " + show(x)); bad = true; break; }
        std::string lev = x.substr(p + 3, x.find(']', p + 3) - p - 3); if (lev != N[q % 4]) { fail("level-name", fmt("a record logged as %s is written as %s", N[q % 4], lev.c_str())); bad = true; break; }
        if (!(mask >> (q % 4) & 1)) { fail("level-off", fmt("mask %u: a record of level %s was written", mask, N[q % 4])); bad = true; break; }
        if (x.substr(b + m) != std::string(len, 'a' + t)) { fail("changed", fmt("record of %zu bytes was written with %zu", len, x.size() - b - m)); bad = true; break; }
        if (line != (x.find("c22_asynclog.cpp][line:") != std::string::npos)) { fail("show-line", fmt("source line %s: %s", line ? "missing" : "shown", show(x, 80).c_str())); bad = true; break; }
        while (next[t] < per && !(mask >> (next[t] % 4) & 1)) next[t]++;
        if (next[t] != q) { fail(q < next[t] ? "twice-or-disordered" : "lost", fmt("levels, mask %u: thread %d: record %d follows, expected %d", mask, t, q, next[t])); bad = true; break; }
        next[t] = q + 1; n++;
    }
    for (int t = 0; t < T && !bad; t++) { while (next[t] < per && !(mask >> (next[t] % 4) & 1)) next[t]++; if (next[t] < per) { fail("lost", fmt("levels, mask %u, end %d: record %d of thread %d is missing", mask, how, next[t], t)); bad = true; } }
    VT_CHECK(lf::read(dir, "app-other").empty(), "second-init", "a second init started another log");
    count("level_records", n); count("level_runs"); count(fmt("mask_%u", mask)); lf::remove_dir(dir);
}
int main(int argc, char **argv) { init(argc, argv); { Rng z(st().seed * 31 + st().shard); lf::set_zone(z); } if (mode("levels")) cases(levels); else cases(one); si::report(); return done(); }
