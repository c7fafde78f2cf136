// Reading back the files of a log: dates ascending, within a date the highest number first, then the file without one.
#ifndef LOGFILES_H
#define LOGFILES_H
#include "schedinj.h"
#include <dirent.h>
#include <fstream>
#include <time.h>
#include <sys/time.h>
// the wall clock is the monitor's; everything else is real
static std::atomic<int64_t> g_wall(1700000000);
extern "C" {
int __real_clock_gettime(clockid_t c, struct timespec *t); time_t __real_time(time_t *t); int __real_gettimeofday(struct timeval *t, void *z);
time_t __wrap_time(time_t *t) { time_t n = (time_t)g_wall.load(std::memory_order_relaxed); if (t) *t = n; return n; }
int __wrap_gettimeofday(struct timeval *t, void *) { t->tv_sec = g_wall.load(std::memory_order_relaxed); t->tv_usec = 0; return 0; }
int __wrap_clock_gettime(clockid_t c, struct timespec *t) { if (c != CLOCK_REALTIME && c != CLOCK_REALTIME_COARSE) return __real_clock_gettime(c, t); t->tv_sec = g_wall.load(std::memory_order_relaxed); t->tv_nsec = 0; return 0; }
int __real_usleep(useconds_t us);
static std::atomic<int> g_scale(1); // sleeps of the library are divided by this
static std::atomic<uint64_t> g_naps(0), g_slept(0); // g_slept: microseconds asked for
int __wrap_usleep(useconds_t us) { g_naps.fetch_add(1, std::memory_order_relaxed); uint64_t asked = us; int s = g_scale.load(std::memory_order_relaxed); us /= s; int rc = __real_usleep(us ? us : 1); g_slept.fetch_add(asked, std::memory_order_relaxed); return rc; }
}
namespace lf {
inline std::string date_of(time_t t) { struct tm m; localtime_r(&t, &m); char b[40]; strftime(b, sizeof b, "%Y-%m-%d", &m); return b; }
inline std::string stamp_of(time_t t) { struct tm m; localtime_r(&t, &m); char b[40]; strftime(b, sizeof b, "%Y-%m-%d %H:%M:%S", &m); return b; }
struct File { std::string name, date; unsigned num; std::string data; };
inline std::string slurp(const std::string &p) { std::string s; FILE *f = fopen(p.c_str(), "rb"); if (!f) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
// every file of the log base in dir; strange: names that are not of the form base_date[_n].log
inline std::vector<File> read(const std::string &dir, const std::string &base, std::vector<std::string> *strange = 0) {
    std::vector<File> v; DIR *d = opendir(dir.c_str()); if (!d) return v; struct dirent *e;
    while ((e = readdir(d))) {
        std::string n = e->d_name; if (n == "." || n == "..") continue;
        File f; f.name = n; f.num = 0; bool ok = n.size() >= base.size() + 15 && n.compare(0, base.size() + 1, base + "_") == 0 && n.compare(n.size() - 4, 4, ".log") == 0;
        if (ok) { std::string m = n.substr(base.size() + 1, n.size() - base.size() - 5); f.date = m.substr(0, 10); if (m.size() > 10) { ok = m[10] == '_' && m.size() > 11; char *z; if (ok) { f.num = (unsigned)strtoul(m.c_str() + 11, &z, 10); ok = *z == 0 && f.num > 0; } } }
        if (!ok) { if (strange) strange->push_back(n); continue; }
        f.data = slurp(dir + "/" + n); v.push_back(f);
    }
    closedir(d);
    std::sort(v.begin(), v.end(), [](const File &a, const File &b) { return a.date != b.date ? a.date < b.date : a.num > b.num; });
    return v;
}
inline void remove_dir(const std::string &dir) { DIR *d = opendir(dir.c_str()); if (d) { struct dirent *e; while ((e = readdir(d))) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) unlink((dir + "/" + e->d_name).c_str()); closedir(d); } rmdir(dir.c_str()); }
inline std::string new_dir() { static int n = 0; std::string d = vt::fmt("log.%d.%d", (int)getpid(), n++); remove_dir(d); mkdir(d.c_str(), 0700); return d; }
inline void set_zone(vt::Rng &r) { static const char *Z[] = {"UTC0", "CST-8", "EST5", "XYZ-13:45", "ABC11:30"}; setenv("TZ", Z[r.below(5)], 1); tzset(); }
}
#endif
