// Peers: forked processes that execute commands sent by the case.
#pragma once
#include "pbt.hpp"
#include <sys/socket.h>
namespace rpc {
struct Msg {
    int op = 0; std::vector<int64_t> v; std::string s;
    Msg() {}
    Msg(int o, std::vector<int64_t> a = {}, std::string t = "") : op(o), v(std::move(a)), s(std::move(t)) {}
};
inline bool wr(int fd, const void *p, size_t n) { const char *b = (const char *)p; while (n) { ssize_t r = write(fd, b, n); if (r <= 0) { if (r < 0 && errno == EINTR) continue; return false; } b += r; n -= r; } return true; }
inline bool rd(int fd, void *p, size_t n) { char *b = (char *)p; while (n) { ssize_t r = read(fd, b, n); if (r <= 0) { if (r < 0 && errno == EINTR) continue; return false; } b += r; n -= r; } return true; }
inline bool put(int fd, const Msg &m) {
    int64_t h[3] = {m.op, (int64_t)m.v.size(), (int64_t)m.s.size()};
    return wr(fd, h, sizeof h) && wr(fd, m.v.data(), 8 * m.v.size()) && wr(fd, m.s.data(), m.s.size());
}
inline bool get(int fd, Msg &m) {
    int64_t h[3]; if (!rd(fd, h, sizeof h)) return false;
    m.op = (int)h[0]; m.v.resize(h[1]); m.s.resize(h[2]);
    return rd(fd, m.v.data(), 8 * m.v.size()) && rd(fd, &m.s[0], m.s.size());
}
struct Peer { pid_t pid = 0; int fd = -1; bool pending = false; bool dead = false; };
using Handler = std::function<Msg(const Msg &)>;
struct Pool {
    pbt::Ctx &c; std::vector<Peer> p;
    Pool(pbt::Ctx &cc) : c(cc) {}
    // mk: run in the child, returns the command handler
    int spawn(std::function<Handler(int)> mk) {
        int sv[2]; if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, sv)) c.fail("harness: socketpair");
        int idx = (int)p.size(); fflush(nullptr);
        pid_t pid = fork(); if (pid < 0) c.discard();
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            close(sv[0]); for (auto &q : p) close(q.fd);
            Handler h = mk(idx); Msg m;
            while (get(sv[1], m)) { Msg r = h(m); if (!put(sv[1], r)) break; }
            fflush(nullptr); _exit(0);
        }
        close(sv[1]); Peer q; q.pid = pid; q.fd = sv[0]; p.push_back(q);
        return idx;
    }
    void post(int i, const Msg &m) { if (!put(p[i].fd, m)) died(i); p[i].pending = true; }
    [[noreturn]] void died(int i) {
        int st = 0; for (int k = 0; k < 400 && waitpid(p[i].pid, &st, WNOHANG) == 0; ++k) usleep(5000);
        std::string e = pbt::Engine::slurp("/proc/self/fd/2", 3000);
        if (WIFSIGNALED(st)) c.fail("process %d crashed: signal %d\n%s", i, WTERMSIG(st), e.c_str());
        c.fail("process %d exited with status %d\n%s", i, WEXITSTATUS(st), e.c_str());
    }
    bool ready(int i, double timeout_s) {
        struct pollfd f = {p[i].fd, POLLIN, 0};
        double t0 = pbt::now_s();
        for (;;) { double left = timeout_s - (pbt::now_s() - t0); int r = poll(&f, 1, left > 0 ? (int)(left * 1000) : 0); if (r > 0) return true; if (r == 0) return false; if (errno != EINTR) return false; }
    }
    Msg wait(int i, double timeout_s = 20) {
        if (!ready(i, timeout_s)) c.fail("hang: process %d does not return", i);
        Msg r; if (!get(p[i].fd, r)) died(i);
        p[i].pending = false; return r;
    }
    Msg call(int i, const Msg &m, double timeout_s = 20) { post(i, m); return wait(i, timeout_s); }
    void kill9(int i) { if (p[i].dead) return; ::kill(p[i].pid, SIGKILL); int st; waitpid(p[i].pid, &st, 0); close(p[i].fd); p[i].dead = true; p[i].fd = -1; }
    ~Pool() { for (auto &q : p) if (!q.dead) { shutdown(q.fd, SHUT_RDWR); } for (auto &q : p) if (!q.dead) { int st; ::kill(q.pid, SIGKILL); waitpid(q.pid, &st, 0); } }
};
}
