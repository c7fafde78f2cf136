// Monitor runtime shared by all harnesses: seeded randomness, case bookkeeping, violation
// reporting, measured coverage.  Everything here is thread safe.
#ifndef VT_H
#define VT_H
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <pthread.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <deque>
#include <algorithm>
#include <sstream>

#undef MAP_FILE // sys/mman.h macro, a type name in the library
namespace vt {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567ULL) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a) + 1); }
    bool chance(int pct) { return (int)below(100) < pct; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
    std::string bytes(size_t n) { std::string r(n, 0); for (size_t i = 0; i < n; i++) r[i] = (char)next(); return r; }
    std::string ascii(size_t n) { std::string r(n, 0); for (size_t i = 0; i < n; i++) r[i] = (char)range(32, 126); return r; }
    std::string alnum(size_t n) {
        static const char *A = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
        std::string r(n, 0); for (size_t i = 0; i < n; i++) r[i] = A[below(62)]; return r;
    }
    // sizes biased to boundaries
    uint64_t edge(uint64_t max) {
        static const uint64_t E[] = {0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 129, 255, 256, 257, 1023, 1024, 4095, 4096, 65535, 65536};
        if (chance(50)) { uint64_t e = E[below(sizeof(E) / sizeof(E[0]))]; if (e <= max) return e; }
        if (chance(50)) return below(std::min<uint64_t>(max, 20) + 1);
        return below(max + 1);
    }
};

inline uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ULL) {
    const unsigned char *c = (const unsigned char *)p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; }
    return h;
}
inline uint64_t fnv(const std::string &s) { return fnv(s.data(), s.size()); }

inline std::string hex(const void *p, size_t n, size_t max = 96) {
    const unsigned char *c = (const unsigned char *)p; std::string r; char b[4];
    for (size_t i = 0; i < n && i < max; i++) { snprintf(b, sizeof b, "%02x", c[i]); r += b; }
    if (n > max) { char t[40]; snprintf(t, sizeof t, "..(%zu bytes)", n); r += t; }
    return r;
}
inline std::string hex(const std::string &s, size_t max = 96) { return hex(s.data(), s.size(), max); }
inline std::string show(const std::string &s, size_t max = 160) {
    std::string r = "\""; char b[8];
    for (size_t i = 0; i < s.size() && i < max; i++) {
        unsigned char c = s[i];
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c >= 32 && c < 127) r += c;
        else { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
    }
    r += "\"";
    if (s.size() > max) { char t[40]; snprintf(t, sizeof t, "..(%zu bytes)", s.size()); r += t; }
    return r;
}
inline uint64_t now_us() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (uint64_t)t.tv_sec * 1000000 + t.tv_nsec / 1000; }
inline void sleep_us(uint64_t us) { timespec t; t.tv_sec = us / 1000000; t.tv_nsec = (us % 1000000) * 1000; while (nanosleep(&t, &t) && errno == EINTR) ; }
inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...) {
    char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}

struct State {
    pthread_mutex_t mu;
    int report_fd;
    char *cur;            // mmapped current-case text, survives a crash
    uint64_t seed; int shard; uint64_t cases; int64_t only; bool thorough; std::string mode;
    uint64_t violations;
    std::map<std::string, uint64_t> counts;
    std::map<std::string, std::unordered_set<uint64_t> > distinct;
    std::vector<std::string> samples;
    std::set<std::string> keys;
    State() : report_fd(-1), cur(0), seed(1), shard(0), cases(1), only(-1), thorough(false), violations(0) { pthread_mutex_init(&mu, 0); }
};
inline State &st() { static State *s = new State(); return *s; }

inline int &in_runtime() { static __thread int n = 0; return n; } // memory the monitors keep is not the library's
struct Guard { Guard() { in_runtime()++; pthread_mutex_lock(&st().mu); } ~Guard() { pthread_mutex_unlock(&st().mu); in_runtime()--; } };

inline void emit(const std::string &line) {
    std::string l = line;
    for (size_t i = 0; i < l.size(); i++) if (l[i] == '\n' || l[i] == '\r') l[i] = ' ';
    l += "\n";
    if (st().report_fd >= 0) { ssize_t r = ::write(st().report_fd, l.data(), l.size()); (void)r; }
    else { ssize_t r = ::write(1, l.data(), l.size()); (void)r; }
}

const size_t CUR = 65536;
// Describe the running case; the text survives a crash and goes into the replay file.
inline void cur(const std::string &s) {
    if (!st().cur) return;
    size_t n = std::min(s.size(), CUR - 1);
    memcpy(st().cur, s.data(), n); st().cur[n] = 0;
}
inline void cur_append(const std::string &s) {
    if (!st().cur) return;
    size_t l = strnlen(st().cur, CUR); size_t n = std::min(s.size(), CUR - 1 - l);
    memcpy(st().cur + l, s.data(), n); st().cur[l + n] = 0;
}
inline void count(const std::string &k, uint64_t n = 1) { Guard g; st().counts[k] += n; }
inline uint64_t get_count(const std::string &k) { Guard g; return st().counts[k]; }
inline void distinct(const std::string &k, uint64_t h) {
    Guard g; std::unordered_set<uint64_t> &s = st().distinct[k]; if (s.size() < 400000) s.insert(h);
}
inline void sample(const std::string &s) { Guard g; if (st().samples.size() < 4) st().samples.push_back(s.size() > 400 ? s.substr(0, 400) + "..." : s); }

inline void finish_report();
inline void die_now() { finish_report(); _exit(3); }
// key: short stable identifier of what is violated (matched against known findings); msg: witness.
inline void fail(const std::string &key, const std::string &msg) {
    bool stop;
    {
        Guard g;
        st().violations++;
        bool fresh = st().keys.insert(key).second;
        if (fresh || st().violations < 20) {
            std::string c = st().cur ? std::string(st().cur, strnlen(st().cur, 2000)) : "";
            emit("V\t" + key + "\t" + msg + "\t" + c);
        }
        stop = st().violations >= 2000;
    }
    if (stop) die_now();
}
#define VT_CHECK(cond, key, msg) do { if (!(cond)) vt::fail(key, msg); } while (0)

inline std::string jstr(const std::string &s) {
    std::string r = "\""; char b[8];
    for (size_t i = 0; i < s.size(); i++) {
        unsigned char c = s[i];
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
inline void finish_report() {
    Guard g; std::string j = "{\"counts\":{"; bool first = true; char b[64];
    for (std::map<std::string, uint64_t>::iterator i = st().counts.begin(); i != st().counts.end(); ++i) {
        snprintf(b, sizeof b, "%llu", (unsigned long long)i->second);
        j += (first ? "" : ",") + jstr(i->first) + ":" + b; first = false;
    }
    if (const char *rp = getenv("VT_REPORT")) { // the hashes themselves, so that shards can be merged exactly
        FILE *df = fopen((std::string(rp) + ".d").c_str(), "w");
        if (df) {
            for (std::map<std::string, std::unordered_set<uint64_t> >::iterator i = st().distinct.begin(); i != st().distinct.end(); ++i)
                for (std::unordered_set<uint64_t>::iterator k = i->second.begin(); k != i->second.end(); ++k) fprintf(df, "%s %llx\n", i->first.c_str(), (unsigned long long)*k);
            fclose(df);
        }
    }
    j += "},\"distinct\":{"; first = true;
    for (std::map<std::string, std::unordered_set<uint64_t> >::iterator i = st().distinct.begin(); i != st().distinct.end(); ++i) {
        snprintf(b, sizeof b, "%llu", (unsigned long long)i->second.size());
        j += (first ? "" : ",") + jstr(i->first) + ":" + b; first = false;
    }
    j += "},\"samples\":["; first = true;
    for (size_t i = 0; i < st().samples.size(); i++) { j += (first ? "" : ",") + jstr(st().samples[i]); first = false; }
    j += "]}";
    emit("S\t" + j);
}

// args: --seed S --shard K --cases N --only I --mode M --thorough
inline void init(int argc, char **argv) {
    State &s = st();
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--seed" && i + 1 < argc) s.seed = strtoull(argv[++i], 0, 10);
        else if (a == "--shard" && i + 1 < argc) s.shard = atoi(argv[++i]);
        else if (a == "--cases" && i + 1 < argc) s.cases = strtoull(argv[++i], 0, 10);
        else if (a == "--only" && i + 1 < argc) s.only = atoll(argv[++i]);
        else if (a == "--mode" && i + 1 < argc) s.mode = argv[++i];
        else if (a == "--thorough") s.thorough = true;
    }
    const char *r = getenv("VT_REPORT");
    if (r) s.report_fd = open(r, O_CREAT | O_WRONLY | O_APPEND | O_CLOEXEC, 0644);
    const char *c = getenv("VT_CUR");
    if (c) {
        int fd = open(c, O_CREAT | O_RDWR | O_CLOEXEC, 0644);
        if (fd >= 0) { if (ftruncate(fd, CUR) == 0) { void *p = mmap(0, CUR, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (p != MAP_FAILED) s.cur = (char *)p; } close(fd); }
    }
}
inline Rng case_rng(uint64_t i) { return Rng(st().seed * 1000003ULL + (uint64_t)st().shard * 7919ULL * 131 + i * 0x51ED270BULL + 17); }
inline int done() { finish_report(); emit("DONE"); return st().violations ? 3 : 0; }
inline bool mode(const char *m) { return st().mode == m; }

// for each case: fn(rng, index)
template <class F> void cases(F fn) {
    State &s = st();
    for (uint64_t i = 0; i < s.cases; i++) {
        if (s.only >= 0 && (uint64_t)s.only != i) continue;
        Rng r = case_rng(i);
        cur(fmt("mode=%s seed=%llu shard=%d case=%llu\n", s.mode.c_str(), (unsigned long long)s.seed, s.shard, (unsigned long long)i));
        fn(r, i);
        count("cases");
    }
}

// Copies of byte strings in exactly-sized heap blocks so that ASan sees any access outside them.
struct Exact {
    char *p; size_t n; char *base;
    explicit Exact(const std::string &s) : n(s.size()) {
        if (n) { base = p = (char *)malloc(n); memcpy(p, s.data(), n); }
        else { base = (char *)malloc(16); p = base + 16; }
    }
    ~Exact() { free(base); }
private:
    Exact(const Exact &); Exact &operator=(const Exact &);
};

inline int open_fds() { // the sanitizer's own thread opens files of /proc now and then
    int m = 1 << 30;
    for (int k = 0; k < 2; k++) {
        int n = 0; char p[64], b[64];
        for (int i = 0; i < 4096; i++) {
            if (fcntl(i, F_GETFD) < 0) continue;
            snprintf(p, sizeof p, "/proc/self/fd/%d", i); ssize_t l = readlink(p, b, sizeof b);
            if (l > 0 && !(l > 6 && memcmp(b, "/proc/", 6) == 0)) n++;
        }
        m = std::min(m, n);
    }
    return m;
}
} // namespace vt
#endif
