// Fault and schedule injection at the system-call boundary of the library's threads.
// The definitions here take precedence over libc's (and the sanitizers') and forward to them.
#ifndef NETINJ_H
#define NETINJ_H
#include "vt.h"
#include <dlfcn.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/epoll.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <atomic>

namespace ni {
// threads of the harness (peers, monitors) are never disturbed
inline int &harness_thread() { static __thread int v = 0; return v; }
struct AsHarness { int o; AsHarness() : o(harness_thread()) { harness_thread() = 1; } ~AsHarness() { harness_thread() = o; } };

struct Cfg {
    std::atomic<int> recv_max;      // 0: no limit; else each receive returns at most 1..recv_max bytes
    std::atomic<int> send_max;      // likewise for sends
    std::atomic<int> send_again;    // percent of sends answered with EAGAIN
    std::atomic<int> recv_again;    // percent of receives answered with EAGAIN
    std::atomic<int> recv_eintr, send_eintr;
    std::atomic<int> accept_fail;   // percent of accepts answered with EMFILE / ECONNABORTED
    std::atomic<int> setup_fail;    // the next such call fails: 1 socket, 2 bind, 3 listen
    std::atomic<int> epoll_add_fail;// percent of EPOLL_CTL_ADD answered with ENOSPC
    std::atomic<int> connect_now;   // connects of the library complete at once
    std::atomic<int> jitter;        // percent of calls that sleep a little
    std::atomic<uint64_t> seed;
    std::atomic<void (*)()> on_fail; // called right after a call of the library failed, may change errno
    std::atomic<uint64_t> n_recv_cut, n_send_cut, n_again, n_eintr, n_accept_fail, n_epoll_fail, n_bad_close, n_foreign_close, n_connect_now;
};
inline Cfg &cfg() { static Cfg *c = new Cfg(); return *c; }
inline uint64_t rnd(uint64_t n) {
    uint64_t z = cfg().seed.fetch_add(0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; z ^= z >> 31;
    return n ? z % n : 0;
}
inline void failed() { void (*f)() = cfg().on_fail.load(); if (f) f(); }
inline bool pct(std::atomic<int> &p) { int v = p.load(); return v > 0 && (int)rnd(100) < v; }
inline void jit() { if (pct(cfg().jitter)) vt::sleep_us(rnd(200)); }
inline void calm() {
    Cfg &c = cfg(); c.recv_max = 0; c.send_max = 0; c.send_again = 0; c.recv_again = 0; c.recv_eintr = 0; c.send_eintr = 0; c.accept_fail = 0; c.epoll_add_fail = 0; c.setup_fail = 0; c.connect_now = 0; c.jitter = 0;
}
// descriptors owned by the harness: the library must never close one of these
const int MAXFD = 65536;
inline std::atomic<char> *owned() { static std::atomic<char> *t = new std::atomic<char>[MAXFD](); return t; }
inline void own(int fd) { if (fd >= 0 && fd < MAXFD) owned()[fd] = 1; }
inline void disown(int fd) { if (fd >= 0 && fd < MAXFD) owned()[fd] = 0; }
inline std::atomic<uint64_t> *sent() { static std::atomic<uint64_t> *t = new std::atomic<uint64_t>[MAXFD](); return t; } // bytes the library sent on a descriptor
template <class F> F real(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
inline bool is_sock(int fd) { struct stat st; return fstat(fd, &st) == 0 && S_ISSOCK(st.st_mode); }
inline bool tcp(int fd) { int e = errno, d = 0, t = 0; socklen_t l = sizeof d, m = sizeof t; bool r = getsockopt(fd, SOL_SOCKET, SO_DOMAIN, &d, &l) == 0 && d == AF_INET && getsockopt(fd, SOL_SOCKET, SO_TYPE, &t, &m) == 0 && t == SOCK_STREAM; errno = e; return r; }
} // namespace ni

extern "C" {
ssize_t recv(int fd, void *b, size_t n, int fl) {
    static ssize_t (*f)(int, void *, size_t, int) = ni::real<ssize_t (*)(int, void *, size_t, int)>("recv");
    if (!ni::harness_thread() && !(fl & MSG_PEEK)) {
        ni::jit();
        if (ni::pct(ni::cfg().recv_again)) { ni::cfg().n_again++; errno = EAGAIN; ni::failed(); return -1; }
        if (ni::pct(ni::cfg().recv_eintr)) { ni::cfg().n_eintr++; errno = EINTR; ni::failed(); return -1; }
        int m = ni::cfg().recv_max;
        if (m > 0 && n > 1) { size_t k = 1 + ni::rnd(m); if (k < n) { n = k; ni::cfg().n_recv_cut++; } }
        ssize_t k = f(fd, b, n, fl);
        if (k < 0) ni::failed();
        return k;
    }
    return f(fd, b, n, fl);
}
ssize_t send(int fd, const void *b, size_t n, int fl) {
    static ssize_t (*f)(int, const void *, size_t, int) = ni::real<ssize_t (*)(int, const void *, size_t, int)>("send");
    if (!ni::harness_thread()) {
        ni::jit();
        if (ni::pct(ni::cfg().send_again)) { ni::cfg().n_again++; errno = EAGAIN; ni::failed(); return -1; }
        if (ni::pct(ni::cfg().send_eintr)) { ni::cfg().n_eintr++; errno = EINTR; ni::failed(); return -1; }
        int m = ni::cfg().send_max;
        if (m > 0 && n > 1) { size_t k = 1 + ni::rnd(m); if (k < n) { n = k; ni::cfg().n_send_cut++; } }
        ssize_t k = f(fd, b, n, fl);
        if (k > 0 && fd >= 0 && fd < ni::MAXFD) ni::sent()[fd] += k;
        if (k < 0) ni::failed();
        return k;
    }
    return f(fd, b, n, fl);
}
int accept(int fd, struct sockaddr *a, socklen_t *l) {
    static int (*f)(int, struct sockaddr *, socklen_t *) = ni::real<int (*)(int, struct sockaddr *, socklen_t *)>("accept");
    if (!ni::harness_thread()) {
        ni::jit();
        if (ni::pct(ni::cfg().accept_fail)) { ni::cfg().n_accept_fail++; errno = ni::rnd(2) ? EMFILE : ECONNABORTED; ni::failed(); return -1; }
        int r = f(fd, a, l);
        if (r < 0) ni::failed();
        return r;
    }
    return f(fd, a, l);
}
// other ways to say the same
int accept4(int fd, struct sockaddr *a, socklen_t *l, int fl) {
    static int (*f)(int, struct sockaddr *, socklen_t *, int) = ni::real<int (*)(int, struct sockaddr *, socklen_t *, int)>("accept4");
    if (!ni::harness_thread()) {
        ni::jit();
        if (ni::pct(ni::cfg().accept_fail)) { ni::cfg().n_accept_fail++; errno = ni::rnd(2) ? EMFILE : ECONNABORTED; ni::failed(); return -1; }
        int r = f(fd, a, l, fl);
        if (r < 0) ni::failed();
        return r;
    }
    return f(fd, a, l, fl);
}
ssize_t read(int fd, void *b, size_t n) {
    static ssize_t (*f)(int, void *, size_t) = ni::real<ssize_t (*)(int, void *, size_t)>("read");
    if (!ni::harness_thread() && ni::tcp(fd)) return recv(fd, b, n, 0);
    return f(fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n) {
    static ssize_t (*f)(int, const void *, size_t) = ni::real<ssize_t (*)(int, const void *, size_t)>("write");
    if (!ni::harness_thread() && ni::tcp(fd)) return send(fd, b, n, 0);
    return f(fd, b, n);
}
int close(int fd) {
    static int (*f)(int) = ni::real<int (*)(int)>("close");
    if (!ni::harness_thread()) {
        if (fd >= 0 && fd < ni::MAXFD && ni::owned()[fd]) { ni::cfg().n_foreign_close++; return 0; } // recorded, not done
        int r = f(fd);
        if (r < 0 && errno == EBADF) ni::cfg().n_bad_close++;
        return r;
    }
    return f(fd);
}
int connect(int fd, const struct sockaddr *a, socklen_t l) {
    static int (*f)(int, const struct sockaddr *, socklen_t) = ni::real<int (*)(int, const struct sockaddr *, socklen_t)>("connect");
    if (!ni::harness_thread() && ni::pct(ni::cfg().connect_now)) {
        int fl = fcntl(fd, F_GETFL); fcntl(fd, F_SETFL, fl & ~O_NONBLOCK);
        int r = f(fd, a, l); int e = errno; fcntl(fd, F_SETFL, fl); errno = e;
        ni::cfg().n_connect_now++;
        if (r < 0) ni::failed();
        return r;
    }
    int r = f(fd, a, l);
    if (r < 0 && !ni::harness_thread()) ni::failed();
    return r;
}
#ifndef NI_OWN_SOCKET
int socket(int d, int t, int p) {
    static int (*f)(int, int, int) = ni::real<int (*)(int, int, int)>("socket");
    int one = 1; if (!ni::harness_thread() && ni::cfg().setup_fail == 1 && ni::cfg().setup_fail.compare_exchange_strong(one, 0)) { errno = EMFILE; return -1; }
    return f(d, t, p);
}
#endif
int bind(int fd, const struct sockaddr *a, socklen_t l) {
    static int (*f)(int, const struct sockaddr *, socklen_t) = ni::real<int (*)(int, const struct sockaddr *, socklen_t)>("bind");
    int two = 2; if (!ni::harness_thread() && ni::cfg().setup_fail == 2 && ni::cfg().setup_fail.compare_exchange_strong(two, 0)) { errno = EACCES; return -1; }
    return f(fd, a, l);
}
int listen(int fd, int n) {
    static int (*f)(int, int) = ni::real<int (*)(int, int)>("listen");
    int three = 3; if (!ni::harness_thread() && ni::cfg().setup_fail == 3 && ni::cfg().setup_fail.compare_exchange_strong(three, 0)) { errno = EADDRINUSE; return -1; }
    return f(fd, n);
}
int epoll_ctl(int ep, int op, int fd, struct epoll_event *ev) {
    static int (*f)(int, int, int, struct epoll_event *) = ni::real<int (*)(int, int, int, struct epoll_event *)>("epoll_ctl");
    if (!ni::harness_thread() && op == EPOLL_CTL_ADD && ni::pct(ni::cfg().epoll_add_fail)) { ni::cfg().n_epoll_fail++; errno = ENOSPC; return -1; }
    return f(ep, op, fd, ev);
}
}

// ---- peers -------------------------------------------------------------------------------
namespace ni {
inline int pclose(int fd) { AsHarness h; disown(fd); return ::close(fd); }
// an address of 127/8 that no other run uses
inline const std::string &my_ip() {
    static std::string s = vt::fmt("127.%d.%d.%d", 1 + (int)(getpid() >> 16) % 250, (int)(getpid() >> 8) & 255, 1 + (int)(getpid() & 255) % 254);
    return s;
}
inline sockaddr_in addr(const std::string &ip, int port) {
    sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = inet_addr(ip.c_str()); return a;
}
inline int free_port(uint64_t r, int type = SOCK_STREAM) { // outside the ephemeral range
    AsHarness h;
    for (int i = 0; i < 1000; i++) {
        int port = 10000 + (int)((r + i * 7919ULL) % 22000);
        int fd = socket(AF_INET, type, 0); sockaddr_in a = addr(my_ip(), port);
        int on = 1; if (type == SOCK_STREAM) setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &on, sizeof on);
        int ok = bind(fd, (sockaddr *)&a, sizeof a); ::close(fd);
        if (ok == 0) return port;
    }
    return -1;
}
inline int dial(int port, int rcvbuf = 0, int sndbuf = 0) {
    AsHarness h;
    int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    if (fd < 0) return -1;
    own(fd);
    if (rcvbuf) setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &rcvbuf, sizeof rcvbuf);
    if (sndbuf) setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &sndbuf, sizeof sndbuf);
    int on = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &on, sizeof on);
    sockaddr_in a = addr(my_ip(), port);
    for (int i = 0; i < 100; i++) {
        if (::connect(fd, (sockaddr *)&a, sizeof a) == 0) return fd;
        if (errno != EINTR && errno != EAGAIN) break;
    }
    pclose(fd);
    return -1;
}
// 1 readable, 0 time-out
inline int readable(int fd, int ms) { AsHarness h; pollfd p = {fd, POLLIN, 0}; int r; do r = poll(&p, 1, ms); while (r < 0 && errno == EINTR); return r > 0; }
inline bool send_all(int fd, const std::string &s, int ms = 20000) {
    AsHarness h; size_t o = 0; uint64_t end = vt::now_us() + (uint64_t)ms * 1000;
    while (o < s.size()) {
        ssize_t k = ::send(fd, s.data() + o, s.size() - o, MSG_NOSIGNAL | MSG_DONTWAIT);
        if (k > 0) { o += k; continue; }
        if (k < 0 && errno != EAGAIN && errno != EINTR) return false;
        if (vt::now_us() > end) return false;
        pollfd p = {fd, POLLOUT, 0}; poll(&p, 1, 50);
    }
    return true;
}
// >0 bytes appended, 0 end of stream, -1 time-out, -2 error (reset)
inline int recv_some(int fd, std::string &out, size_t max, int ms) {
    AsHarness h;
    if (!readable(fd, ms)) return -1;
    std::vector<char> b(max);
    ssize_t k; do k = ::recv(fd, &b[0], max, 0); while (k < 0 && errno == EINTR);
    if (k > 0) { out.append(&b[0], k); return (int)k; }
    return k == 0 ? 0 : -2;
}
// reads until size bytes are there, the stream ends or time is up; returns last status
inline int recv_n(int fd, std::string &out, size_t size, int ms = 20000) {
    uint64_t end = vt::now_us() + (uint64_t)ms * 1000; int st = 1;
    while (out.size() < size) {
        uint64_t n = vt::now_us(); if (n >= end) return -1;
        st = recv_some(fd, out, std::min<size_t>(65536, size - out.size()), (int)((end - n) / 1000) + 1);
        if (st == 0 || st == -2) return st;
    }
    return 1;
}
inline int recv_eof(int fd, std::string &out, int ms = 20000) { return recv_n(fd, out, (size_t)-1, ms); }
inline void reset_close(int fd) { struct linger l = {1, 0}; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); pclose(fd); }
template <class P> bool wait_for(P p, int ms = 20000) {
    uint64_t end = vt::now_us() + (uint64_t)ms * 1000;
    for (int i = 0; ; i++) { if (p()) return true; if (vt::now_us() > end) return p(); vt::sleep_us(i < 50 ? 50 : 500); }
}
inline void count_injected() {
    Cfg &c = cfg();
    vt::count("inj_recv_cut", c.n_recv_cut); vt::count("inj_send_cut", c.n_send_cut); vt::count("inj_again", c.n_again); vt::count("inj_eintr", c.n_eintr);
    vt::count("inj_accept_fail", c.n_accept_fail); vt::count("inj_epoll_fail", c.n_epoll_fail); vt::count("inj_connect_now", c.n_connect_now);
}
} // namespace ni
#endif
