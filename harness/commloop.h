// The communication manager in its own thread, and a monitor of the life cycle of its sessions.
#ifndef COMMLOOP_H
#define COMMLOOP_H
#include "netinj.h"
#include <unordered_map>
#include "Utils.h"
#include "CCommMgr.h"

namespace cl {
using lce::StSession;
inline lce::CCommMgr &mgr() { return lce::CCommMgr::getInstance(); }
inline void *loop_main(void *) { mgr().start(); return 0; }
struct Loop {
    pthread_t t; bool on;
    Loop() : on(false) {}
    void start() { on = true; pthread_create(&t, 0, loop_main, 0); }
    void stop() { if (on) { mgr().stop(); pthread_join(t, 0); on = false; } }
};
inline int make_srv(int type, uint64_t r, int &port, uint32_t ri, uint32_t rm, uint32_t si, uint32_t sm) {
    for (int i = 0; i < 200; i++) {
        port = 10000 + (int)((r + i * 7919ULL) % 22000);
        int id = mgr().createSrv(type, ni::my_ip(), port, ri, rm, si, sm);
        if (id >= 0) return id;
    }
    return -1;
}

// runs f on the loop thread and waits for it
struct Call : lce::CProcessor {
    std::function<void()> f; std::atomic<int> done;
    Call() : done(0) {}
    void onMessage(int, void *) { f(); done = 1; }
};
template <class F> bool on_loop(F f, int ms = 20000) {
    Call *c = new Call; c->f = f;
    if (mgr().sendMessage(1, c) < 0) { return false; }
    bool ok = ni::wait_for([c]() { return c->done.load() == 1; }, ms);
    if (ok) delete c;
    return ok;
}

struct Conn {
    int fd; uint64_t id; bool ok; void *data; StSession session;
    std::vector<std::string> packets; std::string bytes; uint64_t nbytes;
    bool live; int closes, errors, errcode; bool app_closed; int tag;
    Conn() : fd(-1), id(0), ok(false), data(0), nbytes(0), live(true), closes(0), errors(0), errcode(0), app_closed(false), tag(0) {}
};
typedef std::shared_ptr<Conn> ConnP;

// Life-cycle automaton: connect, then data, then at most one terminating notification.
struct Monitor : lce::CProcessor {
    pthread_mutex_t mu; std::map<int, ConnP> live, ending; std::vector<ConnP> all; uint64_t next; bool keep_packets;
    std::map<std::string, uint64_t> bad; // violated rules
    std::string first_bad; uint64_t n_connect, n_max, n_not_ready, n_other_err; std::map<int, uint64_t> by_port; // by peer port
    Monitor() : next(1), keep_packets(true), n_connect(0), n_max(0), n_not_ready(0), n_other_err(0) { pthread_mutex_init(&mu, 0); }
    struct L { Monitor *m; L(Monitor *a) : m(a) { pthread_mutex_lock(&m->mu); } ~L() { pthread_mutex_unlock(&m->mu); } };
    void wrong(const std::string &k, const std::string &m) { bad[k]++; if (first_bad.empty()) first_bad = k + ": " + m; }
    // hooks for the workload
    virtual void act_connect(StSession &, ConnP, bool, void *) {}
    virtual void act_read(StSession &, ConnP, const char *, int) {}
    virtual void act_close(StSession &, ConnP) {}
    virtual void act_error(StSession &, ConnP, int) {}

    void onConnect(StSession &s, bool ok, void *data) {
        ConnP c(new Conn);
        { L l(this);
          n_connect++;
          ending.erase(s.iFd);
          if (live.count(s.iFd)) wrong("connect-on-live", vt::fmt("connect notification for descriptor %d which is still in use", s.iFd));
          c->fd = s.iFd; c->id = next++; c->ok = ok; c->data = data; c->session = s; c->live = ok;
          if (ok) live[s.iFd] = c;
          all.push_back(c);
          by_port[s.getPort()] = c->id; }
        act_connect(s, c, ok, data);
    }
    ConnP find(const StSession &s) { std::map<int, ConnP>::iterator i = live.find(s.iFd); return i == live.end() ? ConnP() : i->second; }
    void onRead(StSession &s, const char *p, const int n) {
        ConnP c;
        { L l(this); c = find(s);
          if (!c && ending.count(s.iFd)) return;
          if (!c) { wrong("read-on-dead", vt::fmt("data for descriptor %d which has no open session", s.iFd)); return; }
          if (c->session.getIp() != s.getIp() || c->session.getPort() != s.getPort()) wrong("foreign-session", "peer address of the session changed");
          c->nbytes += n;
          if (keep_packets) c->packets.push_back(std::string(p, n)); }
        act_read(s, c, p, n);
    }
    void onClose(StSession &s) {
        ConnP c;
        { L l(this); c = find(s);
          if (!c && ending.erase(s.iFd)) return;
          if (!c) { wrong("close-on-dead", vt::fmt("close notification for descriptor %d which has no open session", s.iFd)); return; }
          c->live = false; c->closes++; live.erase(s.iFd); }
        act_close(s, c);
    }
    void onError(StSession &s, const char *msg, int code) {
        ConnP c;
        { L l(this);
          if (code == lce::ERR_MAX_CLIENT) { n_max++; return; }
          if (s.iFd == 0) { n_other_err++; return; } // accept failed
          c = find(s);
          if (!c && ending.count(s.iFd)) { if (code != lce::ERR_NOT_READY) ending.erase(s.iFd); return; }
          if (code == lce::ERR_NOT_READY) { n_not_ready++; if (!c) wrong("error-on-dead", vt::fmt("notification for descriptor %d which has no open session", s.iFd)); return; }
          if (!c) { wrong("error-on-dead", vt::fmt("error %d (%s) for descriptor %d which has no open session", code, msg, s.iFd)); return; }
          c->live = false; c->errors++; c->errcode = code; live.erase(s.iFd); }
        act_error(s, c, code);
    }
    void app_close(StSession &s) { // to be called right before the application closes a session itself
        L l(this); ConnP c = find(s); if (c) { c->live = false; c->app_closed = true; live.erase(s.iFd); }
    }
    void app_write_close(StSession &s) { // after a write that asks for closing was accepted: closed now, or after the rest went out
        L l(this); ConnP c = find(s); if (c) { c->live = false; c->app_closed = true; live.erase(s.iFd); ending[s.iFd] = c; }
    }
    size_t n_live() { L l(this); return live.size(); }
    uint64_t n_conn() { L l(this); return n_connect; }
    ConnP get(uint64_t id) { L l(this); for (size_t i = all.size(); i-- > 0;) if (all[i]->id == id) return all[i]; return ConnP(); }
    ConnP by_peer(int port) { L l(this); std::map<int, uint64_t>::iterator i = by_port.find(port); if (i == by_port.end()) return ConnP(); for (size_t k = all.size(); k-- > 0;) if (all[k]->id == i->second) return all[k]; return ConnP(); }
    void forget() { L l(this); std::vector<ConnP> k; for (size_t i = 0; i < all.size(); i++) if (all[i]->live) k.push_back(all[i]); all.swap(k); by_port.clear(); }
    void report(const std::string &prefix) { L l(this); for (std::map<std::string, uint64_t>::iterator i = bad.begin(); i != bad.end(); ++i) vt::fail(prefix + i->first, first_bad); bad.clear(); first_bad.clear(); }
};
inline int local_port(int fd) { sockaddr_in a; socklen_t l = sizeof a; if (getsockname(fd, (sockaddr *)&a, &l)) return -1; return ntohs(a.sin_port); }
} // namespace cl
#endif
