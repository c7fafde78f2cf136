// C35: becoming a daemon and raising limits. Everything happens in children of the harness.
#include "vt.h"
#include <sys/prctl.h>
#include <sys/resource.h>
#include "Utils.h"
using namespace vt;

// runs f in a child; what it writes to the descriptor is returned
template <class F> static std::string in_child(F f, int *status, int timeout_ms = 20000) {
    int p[2]; if (pipe(p)) _exit(9);
    pid_t c = fork();
    if (c == 0) { close(p[0]); f(p[1]); _exit(0); }
    close(p[1]); std::string s; char b[4096]; ssize_t n; (void)timeout_ms;
    while ((n = read(p[0], b, sizeof b)) > 0 || (n < 0 && errno == EINTR)) if (n > 0) s.append(b, n);
    close(p[0]); int st = 0; while (waitpid(c, &st, 0) < 0 && errno == EINTR) ; if (status) *status = st;
    return s;
}
static void put(int fd, const std::string &s) { size_t o = 0; while (o < s.size()) { ssize_t k = ::write(fd, s.data() + o, s.size() - o); if (k <= 0) return; o += k; } }
static std::string lim(rlim_t v) { return v == RLIM_INFINITY ? "unlimited" : fmt("%llu", (unsigned long long)v); }

static rlim_t pick_lim(Rng &r, bool core) {
    static const uint64_t E[] = {0, 1, 3, 16, 64, 256, 1023, 1024, 1025, 4096, 20000, 65535, 65536, 100000, 524288, 1048575, 1048576};
    if (core && r.chance(20)) return RLIM_INFINITY;
    if (core && r.chance(20)) return r.next() >> r.below(40);
    uint64_t v = r.chance(70) ? E[r.below(sizeof E / sizeof *E)] : r.below(1048577);
    return v;
}
static void limits(Rng &r) {
    bool core = r.chance(50); int which = core ? RLIMIT_CORE : RLIMIT_NOFILE; const char *name = core ? "SetCoreLimit" : "SetFileLimit";
    struct rlimit now; getrlimit((__rlimit_resource_t)which, &now);
    rlim_t hard = pick_lim(r, core), soft = pick_lim(r, core), want = pick_lim(r, core);
    if (!core) { if (hard < 64) hard = 64; if (soft < 64) soft = 64; } // enough for this child itself
    if (hard > now.rlim_max) hard = now.rlim_max;
    if (soft > hard) soft = r.chance(70) ? hard : hard / 2; 
    if (r.chance(20)) want = r.chance(50) ? hard : soft; else if (r.chance(20)) want = hard + 1;
    if (r.chance(2)) want = (rlim_t)-1 - (rlim_t)r.below(2);
    bool drop = r.chance(60); int calls = 1 + (int)r.below(3); uint64_t more = r.next();
    std::string where = fmt("%s, limits %s/%s, wanted %s, %s", name, lim(soft).c_str(), lim(hard).c_str(), lim(want).c_str(), drop ? "unprivileged" : "privileged");
    cur_append(where + "\n"); distinct("call", fnv(where));
    int st; std::string s = in_child([&](int fd) {
        struct rlimit rl = {soft, hard}; Rng q(more);
        if (setrlimit((__rlimit_resource_t)which, &rl)) { put(fd, "SKIP"); return; }
        if (drop && (setgid(65534) || setuid(65534))) { put(fd, "SKIP"); return; }
        rlim_t w = want;
        for (int i = 0; i < calls; i++) {
            struct rlimit before; getrlimit((__rlimit_resource_t)which, &before);
            // what the system allows, found out in a child of its own
            struct rlimit t = before; if (t.rlim_cur < w) { t.rlim_cur = w; if (t.rlim_max < w) t.rlim_max = w; }
            pid_t c = fork(); if (c == 0) _exit(setrlimit((__rlimit_resource_t)which, &t) == 0 ? 0 : 1);
            int cs = 0; waitpid(c, &cs, 0); bool allowed = WIFEXITED(cs) && WEXITSTATUS(cs) == 0;
            bool got = core ? lce::SetCoreLimit(w) : lce::SetFileLimit(w);
            struct rlimit after; getrlimit((__rlimit_resource_t)which, &after);
            bool need = before.rlim_cur < w; bool want_ok = !need || allowed;
            struct rlimit exp = want_ok ? t : before;
            put(fd, got ? "T" : "F");
            if (got != want_ok) put(fd, fmt("\nV result\twanted %s with %s/%s: returned %d, the system %s it\n", lim(w).c_str(), lim(before.rlim_cur).c_str(), lim(before.rlim_max).c_str(), got, allowed ? "allows" : "refuses"));
            else if (got && after.rlim_cur < w) put(fd, fmt("\nV not-set\twanted %s, reported as done, the limit is %s\n", lim(w).c_str(), lim(after.rlim_cur).c_str()));
            else if (after.rlim_max < before.rlim_max || after.rlim_cur < before.rlim_cur) put(fd, fmt("\nV lowered\twanted %s: limits went from %s/%s to %s/%s\n", lim(w).c_str(), lim(before.rlim_cur).c_str(), lim(before.rlim_max).c_str(), lim(after.rlim_cur).c_str(), lim(after.rlim_max).c_str()));
            else if (after.rlim_cur != exp.rlim_cur || after.rlim_max != exp.rlim_max) put(fd, fmt("\nV other\twanted %s: limits %s/%s became %s/%s\n", lim(w).c_str(), lim(before.rlim_cur).c_str(), lim(before.rlim_max).c_str(), lim(after.rlim_cur).c_str(), lim(after.rlim_max).c_str()));
            if (need && got) put(fd, "R");
            w = q.chance(50) ? before.rlim_max : pick_lim(q, core);
        }
    }, &st);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { fail("limit/crash", where + fmt(": ended with status %x", st)); return; }
    if (s == "SKIP") { count("skipped"); return; }
    size_t p = 0; while ((p = s.find("\nV ", p)) != std::string::npos) { size_t t = s.find('\t', p), e = s.find('\n', t); fail(std::string(core ? "core" : "file") + "-limit/" + s.substr(p + 3, t - p - 3), s.substr(t + 1, e - t - 1) + " (" + where + ")"); p = e; }
    for (size_t i = 0; i < s.size(); i++) { if (s[i] == 'T') count("limit_true"); if (s[i] == 'F') count("limit_false"); if (s[i] == 'R') count("limit_raised"); }
    count("limit_calls", calls); if (r.chance(1)) sample(where + ": " + s);
}


static std::string g_destroyed_path;
static void at_exit_handler() { int fd = open(g_destroyed_path.c_str(), O_WRONLY | O_APPEND | O_CREAT, 0600); if (fd >= 0) { put(fd, fmt("%d\n", (int)getpid())); close(fd); } }
static void daemon(Rng &r) {
    char dir[] = "/tmp/vt-daemon-XXXXXX"; if (!mkdtemp(dir)) _exit(9);
    g_destroyed_path = std::string(dir) + "/exits"; std::string out = std::string(dir) + "/out";
    bool text = r.chance(60), tty_sess = r.chance(50), handler = r.chance(60), starve = r.chance(15); std::string payload = r.alnum(r.below(3000)); std::string line = r.alnum(1 + r.below(200));
    int sigs_before = (int)r.below(3); bool masks = r.chance(30);
    cur_append(fmt("text %d, exit handler %d, starve %d\n", text, handler, starve));
    uint64_t seed = r.next();
    int st; std::string s = in_child([&](int fd) { // the reaper
        prctl(PR_SET_CHILD_SUBREAPER, 1);
        int p[2]; if (pipe(p)) _exit(9);
        pid_t me = fork();
        if (me == 0) { // the program
            close(p[0]); close(fd); if (tty_sess) setsid(); 
            Rng q(seed); void *heap = malloc(payload.size() + 1); memcpy(heap, payload.c_str(), payload.size() + 1);
            if (sigs_before == 1) { signal(SIGUSR1, SIG_IGN); } 
            sigset_t m; sigemptyset(&m); if (masks) { sigaddset(&m, SIGUSR2); sigprocmask(SIG_BLOCK, &m, 0); }
            FILE *f = fopen(out.c_str(), "w"); if (!f) _exit(8);
            if (text) fputs(line.c_str(), f); // still in the buffer
            if (handler) atexit(at_exit_handler);
            int orig = getpid(); put(p[1], fmt("O %d\n", orig));
            if (starve) { struct rlimit rl = {0, 0}; if (setgid(65534) || setuid(65534) || setrlimit(RLIMIT_NPROC, &rl)) { put(p[1], "SKIP\n"); _exit(0); } }
            char cwd0[4096], cwd1[4096]; char *c0 = getcwd(cwd0, sizeof cwd0);
            lce::InitDaemon();
            std::string o = fmt("D %d %d %d %d", (int)getpid(), (int)getsid(0), (int)getpgrp(), orig);
            int S[] = {SIGINT, SIGHUP, SIGQUIT, SIGPIPE, SIGTTOU, SIGTTIN, SIGCHLD, SIGTERM, SIGIO};
            for (size_t i = 0; i < sizeof S / sizeof *S; i++) { struct sigaction sa; sigaction(S[i], 0, &sa); o += sa.sa_handler == SIG_IGN ? " i" : " -"; }
            struct sigaction sa; sigaction(SIGUSR1, 0, &sa); o += (sa.sa_handler == SIG_IGN) == (sigs_before == 1) ? " k" : " -";
            sigset_t m2; sigprocmask(SIG_SETMASK, 0, &m2); o += sigismember(&m2, SIGUSR2) == (int)masks ? " k" : " -";
            o += !memcmp(heap, payload.c_str(), payload.size() + 1) ? " k" : " -";
            char *c1 = getcwd(cwd1, sizeof cwd1); o += c0 && c1 && !strcmp(c0, c1) ? " k" : " -";
            int tty = open("/dev/tty", O_RDWR | O_NOCTTY); o += tty < 0 ? " k" : " -"; if (tty >= 0) close(tty);
            for (size_t i = 0; i < sizeof S / sizeof *S; i++) kill(getpid(), S[i]); // must all be survived
            o += " alive\n"; put(p[1], o); free(heap);
            fflush(f); fclose(f); _exit(0);
        }
        close(p[1]);
        std::string t; char b[4096]; ssize_t n; while ((n = read(p[0], b, sizeof b)) > 0 || (n < 0 && errno == EINTR)) if (n > 0) t.append(b, n);
        put(fd, t); int cs; pid_t w; int reaped = 0;
        while ((w = waitpid(-1, &cs, 0)) > 0) { reaped++; if (w == me) put(fd, fmt("X %x\n", cs)); }
        put(fd, fmt("R %d\n", reaped));
    }, &st);
    std::string file, exits; { FILE *f = fopen(out.c_str(), "r"); if (f) { char b[8192]; size_t n = fread(b, 1, sizeof b, f); file.assign(b, n); fclose(f); } f = fopen(g_destroyed_path.c_str(), "r"); if (f) { char b[8192]; size_t n = fread(b, 1, sizeof b, f); exits.assign(b, n); fclose(f); } }
    unlink(out.c_str()); unlink(g_destroyed_path.c_str()); rmdir(dir);
    if (s.find("SKIP") != std::string::npos) { count("skipped"); return; }
    unsigned long long status = 99; { size_t p = s.find("\nX "); if (p != std::string::npos) status = strtoull(s.c_str() + p + 3, 0, 16); else { fail("daemon/original", "the original process was not seen to end: " + s); return; } }
    size_t d = s.find("\nD "), d2 = d == std::string::npos ? d : s.find("\nD ", d + 1);
    if (starve) { // no process can be made
        if (d == std::string::npos) { VT_CHECK(WIFEXITED((int)status) && WEXITSTATUS((int)status) != 0, "daemon/fork-fails", fmt("no daemon could be made and the program ended with status %llx, as if all were well", status)); count("starved"); }
        else count("starve_ineffective");
        return;
    }
    VT_CHECK(d != std::string::npos, "daemon/none", "no process went on after InitDaemon: " + s);
    VT_CHECK(d2 == std::string::npos, "daemon/several", "more than one process went on after InitDaemon: " + s);
    VT_CHECK(WIFEXITED((int)status) && WEXITSTATUS((int)status) == 0, "daemon/status", fmt("the original process ended with status %llx", status));
    if (d == std::string::npos) return;
    int pid, sid, pgrp, orig; char si[9], k[5]; char alive[16] = "";
    int n = sscanf(s.c_str() + d, "\nD %d %d %d %d %c %c %c %c %c %c %c %c %c %c %c %c %c %c %15s", &pid, &sid, &pgrp, &orig, si, si + 1, si + 2, si + 3, si + 4, si + 5, si + 6, si + 7, si + 8, k, k + 1, k + 2, k + 3, k + 4, alive);
    if (n != 19) { fail("daemon/died", "the daemon did not survive the signals it is to ignore: " + s); return; }
    VT_CHECK(pid != orig, "daemon/same", "the original process went on itself");
    VT_CHECK(sid != pid && pgrp != pid, "daemon/leader", "the daemon leads its session, and could get a terminal");
    VT_CHECK(sid != orig, "daemon/session", "the daemon still is in the session of the original process");
    VT_CHECK(sid == pgrp, "daemon/group", "the daemon is not in the process group of its session");
    static const char *SN[] = {"SIGINT", "SIGHUP", "SIGQUIT", "SIGPIPE", "SIGTTOU", "SIGTTIN", "SIGCHLD", "SIGTERM", "SIGIO"};
    for (int i = 0; i < 9; i++) VT_CHECK(si[i] == 'i', "daemon/signal", fmt("%s is not ignored in the daemon", SN[i]));
    static const char *KN[] = {"the disposition of an unrelated signal", "the signal mask", "memory", "the working directory", "the missing terminal"};
    for (int i = 0; i < 5; i++) VT_CHECK(k[i] == 'k', "daemon/kept", fmt("%s changed", KN[i]));
    size_t rp = s.find("\nR "); int reaped = rp == std::string::npos ? -1 : atoi(s.c_str() + rp + 3);
    VT_CHECK(reaped == 3 || reaped == 2 /* the middle one ignores SIGCHLD */, "daemon/processes", fmt("%d processes were made of one", reaped));
    if (text) { VT_CHECK(file == line, "daemon/buffered-text", fmt("text that was still buffered (%zu bytes) was written %s, %zu bytes", line.size(), file.size() > line.size() ? "more than once" : "wrongly", file.size())); count("buffered"); }
    if (handler) { VT_CHECK(exits.empty(), "daemon/exit-handler", "exit handlers of the program ran although it goes on as a daemon"); count("exit_handlers"); }
    count("daemons"); distinct("call", seed); if (vt::get_count("daemons") < 3) sample(fmt("daemon: buffered text %d, exit handler %d, own session before %d", text, handler, tty_sess));
}
int main(int argc, char **argv) {
    init(argc, argv); signal(SIGPIPE, SIG_IGN);
    cases([](Rng &r, uint64_t i) { if (i % 4 == 0) daemon(r); else limits(r); });
    return done();
}
