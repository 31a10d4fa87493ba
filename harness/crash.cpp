// C12: processes that die, shared memory segments that appear and disappear.
//   --mode race : the segment functions by several free-running processes with delays and deaths
//   --mode solo : deaths inside critical sections, incompatible segments
//   --mode api  : histories of real DLB processes, some of which die between or inside calls
#include "rpc.hpp"
#include <stdarg.h>
#include <atomic>
#include <mutex>
#include <dirent.h>
#include <sys/mman.h>
extern "C" {
#include "apis/dlb.h"
#include "apis/dlb_drom.h"
#include "apis/dlb_talp.h"
#include "LB_comm/shmem.h"
#include "LB_comm/shmem_async.h"
#include "LB_core/spd.h"
#include "LB_core/DLB_kernel.h"
#include "support/mask_utils.h"
int __real_shm_open(const char *, int, mode_t); int __real_shm_unlink(const char *); int __real_ftruncate64(int, off_t); void *__real_mmap64(void *, size_t, int, int, int, off_t); int __real_munmap(void *, size_t);
int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_timedlock(pthread_mutex_t *, const struct timespec *); int __real_pthread_mutex_trylock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *); int __real_pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *);
int __real_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *); int __real_pthread_rwlock_wrlock(pthread_rwlock_t *); int __real_pthread_rwlock_rdlock(pthread_rwlock_t *); int __real_pthread_rwlock_trywrlock(pthread_rwlock_t *); int __real_pthread_rwlock_tryrdlock(pthread_rwlock_t *); int __real_pthread_rwlock_timedrdlock(pthread_rwlock_t *, const struct timespec *); int __real_pthread_rwlock_timedwrlock(pthread_rwlock_t *, const struct timespec *); int __real_pthread_rwlock_unlock(pthread_rwlock_t *);
}
using pbt::Ctx; using rpc::Msg; typedef int64_t i64;
// ---- points where a process is delayed or dies
enum Pt { P_OPEN, P_TRUNC, P_MMAP, P_MUNMAP, P_UNLINK, P_LOCK, P_UNLOCK, P_MINIT, P_TLOCK, NPT };
static const char *PN[] = {"shm_open", "ftruncate", "mmap", "munmap", "shm_unlink", "lock", "unlock", "mutex_init", "timedlock"};
static thread_local bool victim; static thread_local int depth; static long points, dieat; static bool dieheld; static std::atomic<int> held{0}; static std::atomic<bool> dying{false};
static unsigned jit; static int jprob, jmax; struct Death { std::atomic<int> at; }; static volatile int *deathnote; static bool inminit, mode_api;
static unsigned rnd() { jit = jit * 1664525u + 1013904223u; return jit >> 8; }
static void die(int pt, bool after) {
    dying = true; int own = depth; for (int k = 0; k < 2000 && held.load() > own; ++k) usleep(50);
    if (deathnote) *deathnote = (mode_api ? *deathnote & 1 : 0) | (mode_api ? inminit : 1 + pt * 4 + after * 2 + inminit); raise(SIGKILL);
}
static void point(int pt, bool after) {
    if (!victim) return; if (jprob && (int)(rnd() & 255) < jprob) usleep(rnd() % jmax);
    if (dieat && (dieheld ? depth > 0 : depth == 0) && ++points >= dieat) die(pt, after);
}
static bool shared(pthread_mutex_t *m) { return m->__data.__kind & 128; }
static void enter() { if (dying && !victim) for (;;) pause(); ++held; if (dying && !victim) { --held; for (;;) pause(); } }
static void leave() { --held; }
extern "C" {
int __wrap_shm_open(const char *n, int f, mode_t m) { point(P_OPEN, false); int r = __real_shm_open(n, f, m); point(P_OPEN, true); return r; }
int __wrap_shm_unlink(const char *n) { point(P_UNLINK, false); int r = __real_shm_unlink(n); int e = errno; point(P_UNLINK, true); errno = e; return r; }
int __wrap_ftruncate64(int f, off_t o) { point(P_TRUNC, false); int r = __real_ftruncate64(f, o); point(P_TRUNC, true); return r; }
void *__wrap_mmap64(void *a, size_t n, int p, int fl, int fd, off_t o) { if (!(fl & MAP_SHARED)) return __real_mmap64(a, n, p, fl, fd, o); point(P_MMAP, false); void *r = __real_mmap64(a, n, p, fl, fd, o); point(P_MMAP, true); return r; }
int __wrap_munmap(void *a, size_t n) { point(P_MUNMAP, false); int r = __real_munmap(a, n); point(P_MUNMAP, true); return r; }
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { int ps = 0; if (a) pthread_mutexattr_getpshared(a, &ps); if (ps != PTHREAD_PROCESS_SHARED) return __real_pthread_mutex_init(m, a); inminit = true; point(P_MINIT, false); int r = __real_pthread_mutex_init(m, a); point(P_MINIT, true); inminit = false; return r; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { if (!shared(m)) return __real_pthread_mutex_lock(m); point(P_LOCK, false); enter(); int r = __real_pthread_mutex_lock(m); ++depth; point(P_LOCK, true); return r; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { if (!shared(m)) return __real_pthread_mutex_trylock(m); enter(); int r = __real_pthread_mutex_trylock(m); if (r) leave(); else ++depth; return r; }
int __wrap_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t) { if (!shared(m)) return __real_pthread_mutex_timedlock(m, t); point(P_TLOCK, false); enter(); int r = __real_pthread_mutex_timedlock(m, t); if (r) leave(); else ++depth; point(P_TLOCK, true); return r; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { if (!shared(m)) return __real_pthread_mutex_unlock(m); point(P_UNLOCK, false); int r = __real_pthread_mutex_unlock(m); --depth; leave(); point(P_UNLOCK, true); return r; }
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (!shared(m)) return __real_pthread_cond_wait(c, m); leave(); --depth; int r = __real_pthread_cond_wait(c, m); ++depth; enter(); return r; }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *l) { enter(); int r = __real_pthread_rwlock_wrlock(l); if (r) leave(); else ++depth; return r; }
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { enter(); int r = __real_pthread_rwlock_tryrdlock(l); if (r) leave(); else ++depth; return r; }
int __wrap_pthread_rwlock_timedrdlock(pthread_rwlock_t *l, const struct timespec *t) { enter(); int r = __real_pthread_rwlock_timedrdlock(l, t); if (r) leave(); else ++depth; return r; }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t *l) { enter(); int r = __real_pthread_rwlock_trywrlock(l); if (r) leave(); else ++depth; return r; }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *l) { enter(); int r = __real_pthread_rwlock_rdlock(l); if (r) leave(); else ++depth; return r; }
int __wrap_pthread_rwlock_timedwrlock(pthread_rwlock_t *l, const struct timespec *t) { enter(); int r = __real_pthread_rwlock_timedwrlock(l, t); if (r) leave(); else ++depth; return r; }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *l) { int r = __real_pthread_rwlock_unlock(l); --depth; leave(); return r; }
}
static std::vector<std::string> segments(const std::string &key) { std::vector<std::string> r; DIR *d = opendir("/dev/shm"); while (auto *e = readdir(d)) if (std::string(e->d_name).find(key) != std::string::npos) r.push_back(e->d_name); closedir(d); return r; }

// ------------------------------------------------------------ race
struct Page {
    std::atomic<int> nextid, err, ndead, started, stop; int dead[64]; struct W { std::atomic<int> seg; std::atomic<int> entry; volatile int death; } w[24]; char msg[400];
};
static Page *pg; static int cleaned[64], ncleaned;
static void race_cleanup(void *, int pid) { if (ncleaned < 64) cleaned[ncleaned++] = pid; }
struct Data { int id; int count; int user[24]; char pad[500]; };
static void bad(const char *f, ...) { int z = 0; if (!pg->err.compare_exchange_strong(z, 1)) return; va_list a; va_start(a, f); vsnprintf(pg->msg, sizeof pg->msg, f, a); va_end(a); pg->err = 2; }
static void cycle(int me, const char *key, unsigned ver, int nlock, int color) {
    int nd = pg->ndead; Data *d = nullptr; shmem_props_t p = {}; p.size = sizeof(Data); p.name = "pbt"; p.key = key; p.color = color; p.version = ver; p.cleanup_fn = race_cleanup; ncleaned = 0;
    shmem_handler_t *h = shmem_init((void **)&d, &p); auto &w = pg->w[me];
    for (int k = 0; k < ncleaned; ++k) { if (kill(cleaned[k], 0) == 0) bad("process %d cleaned up process %d, which is alive", me, cleaned[k]); for (int j = 0; j < k; ++j) if (cleaned[j] == cleaned[k]) bad("process %d cleaned up process %d twice", me, cleaned[k]); }
    bool v = victim; victim = false; shmem_lock(h);
    if (!d->id) d->id = ++pg->nextid; int id = d->id; w.seg = id; for (int j = 0; j < 24; ++j) { int o = pg->w[j].seg; if (o && o != id) bad("processes %d and %d are attached to different segments of the same name at the same time", me, j); }
    bool found = false; int n = mu_get_system_size(); for (int j = 0; j < n; ++j) { pid_t x = h->shsync->pidlist[j]; if (x == getpid()) found = true; for (int k = 0; k < nd; ++k) if (x == pg->dead[k]) bad("process %d attached and dead process %d is still listed", me, (int)x); }
    if (!found) bad("process %d is attached and not listed", me); int c0 = ++d->count; d->user[me]++;
    shmem_unlock(h); victim = v;
    for (int k = 0; k < nlock; ++k) { shmem_lock(h); v = victim; victim = false; int c1 = d->count; if (c1 < c0 || d->id != id) bad("process %d: the contents of the segment were reset while attached", me); d->count = c1 + 1; c0 = c1 + 1; victim = v; shmem_unlock(h); }
    shmem_lock(h); v = victim; victim = false; if (d->id != id || d->count < c0) bad("process %d: the contents of the segment were reset while attached", me); d->user[me]--; victim = v; shmem_unlock(h);
    w.seg = 0; shmem_finalize(h, nullptr);
}
static void race(Ctx &c) {
    int n = c.range(2, 6), rounds = c.range(1, 3); bool kills = c.chance(1, 2); std::string key = c.key; mu_testing_set_sys_size(n); unsetenv("DLB_ARGS"); setenv("DLB_ARGS", "--quiet=yes", 1);
    pg = (Page *)__real_mmap64(nullptr, sizeof(Page), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); int slot = 0, nk = 0, ncyc = 0, done = 0; bool creator = false;
    struct K { pid_t pid; int slot; bool victim; }; auto err = [&]() { if (pg->err == 2) { std::string m = pg->msg; for (auto &s : segments(key)) shm_unlink(("/" + s).c_str()); c.fail("%s", m.c_str()); } };
    int color = c.chance(1, 4) ? 3 : 0; c.note("%d slots%s", n, color ? ", color" : "");
    for (int rd = 0; rd < rounds; ++rd) {
        int k = c.range(1, n); std::vector<K> live; for (int i = 0; i < k && slot < 22; ++i) {
            bool vic = kills && c.chance(1, 3); long at = vic ? c.range(1, c.oneof<int>({8, 30, 60})) : 0; int cyc = c.range(1, 12), nl = c.range(0, 2), jp = c.oneof<int>({0, 40, 128}), jm = c.oneof<int>({30, 200}); unsigned s = c.draw(1u << 30); if (vic) { ++nk; cyc = 20; } ncyc += cyc; int me = slot++;
            c.note("process %d: attaches and detaches %d times%s", me, cyc, vic ? (" and dies at point " + std::to_string(at)).c_str() : ""); fflush(nullptr);
            pid_t pid = fork(); if (!pid) { prctl(PR_SET_PDEATHSIG, SIGKILL); jit = s; jprob = jp; jmax = jm; dieat = at; deathnote = &pg->w[me].death; victim = true; while (!pg->started) usleep(20); for (int j = 0; j < cyc; ++j) { if (at) { } cycle(me, key.c_str(), 7, nl, color); } _exit(0); }
            if (pid < 0) c.discard(); live.push_back({pid, me, vic});
        }
        pg->started = 1; double t0 = pbt::now_s();
        while (!live.empty()) {
            bool any = false; for (size_t i = 0; i < live.size(); ++i) { int st; pid_t r = waitpid(live[i].pid, &st, WNOHANG); if (r <= 0) continue; any = true; auto x = live[i]; live.erase(live.begin() + i); --i; err();
                if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && x.victim) { pg->w[x.slot].seg = 0; int nd = pg->ndead; pg->dead[nd] = x.pid; pg->ndead = nd + 1; int dn = pg->w[x.slot].death; ++done; c.label(("death at " + std::string(PN[(dn - 1) / 4])).c_str()); if (dn & 1 || true) creator |= (dn - 1) % 2 == 1; c.note("process %d died %s %s", x.slot, (dn - 1) & 2 ? "after" : "before", PN[(dn - 1) / 4]); }
                else if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {}
                else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT && creator && pbt::Engine::slurp("/proc/self/fd/2", 6000).find("dlb_shm --delete") != std::string::npos) { pg->w[x.slot].seg = 0; for (auto &y : live) { kill(y.pid, SIGKILL); waitpid(y.pid, &st, 0); } for (auto &s : segments(key)) __real_shm_unlink(("/" + s).c_str()); c.label("told to delete"); c.nontrivial(); return; }
                else c.fail("process %d ended with status %x\n%s", x.slot, st, pbt::Engine::slurp("/proc/self/fd/2", 2000).c_str()); }
            err(); if (!any) { usleep(100); if (pbt::now_s() - t0 > 15) { for (auto &x : live) kill(x.pid, SIGKILL); for (auto &s : segments(key)) __real_shm_unlink(("/" + s).c_str()); c.fail("hang: %zu processes do not finish", live.size()); } }
        }
        pg->started = 0; if (!nk || done == 0) PCHECK(c, segments(key).empty(), "everybody has left and segment %s exists", segments(key)[0].c_str());
    }
    if (!segments(key).empty()) { pg->started = 1; pid_t pid = fork(); if (!pid) { alarm(10); cycle(23, key.c_str(), 7, 1, color); _exit(0); } int st; waitpid(pid, &st, 0); err(); if (st) { auto s = pbt::Engine::slurp("/proc/self/fd/2", 6000); for (auto &x : segments(key)) __real_shm_unlink(("/" + x).c_str()); if (!(creator && s.find("dlb_shm --delete") != std::string::npos)) c.fail("a process that comes after the crashes ends with status %x\n%s", st, s.c_str()); }
        auto s = segments(key); for (auto &x : s) __real_shm_unlink(("/" + x).c_str()); PCHECK(c, s.empty(), "a process attached and left after the crashes and segment %s exists", s[0].c_str()); }
    c.count(ncyc); if (slot >= 2 && ncyc >= 6) c.nontrivial();
}
// ------------------------------------------------------------ solo
static void solo(Ctx &c) {
    std::string key = c.key; mu_testing_set_sys_size(c.range(2, 8)); setenv("DLB_ARGS", "--quiet=yes", 1); pg = (Page *)__real_mmap64(nullptr, sizeof(Page), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    static const char *what[] = {"dies while holding the lock", "dies while creating the segment", "has another version", "has another layout version", "leaves an empty file"}; int k = c.weighted({2, 2, 4, 3, 1}); c.note("a process %s", what[k]); c.label(what[k]); c.nontrivial(); bool live = c.flip();
    auto run = [&](std::function<void()> f, double tmax) { fflush(nullptr); pid_t p = fork(); if (!p) { prctl(PR_SET_PDEATHSIG, SIGKILL); f(); _exit(0); } double t0 = pbt::now_s(); int st; while (waitpid(p, &st, WNOHANG) == 0) { usleep(500); if (pbt::now_s() - t0 > tmax) { kill(p, SIGKILL); waitpid(p, &st, 0); return -1; } } return st; };
    auto errs = [&]() { return pbt::Engine::slurp("/proc/self/fd/2", 8000); };
    auto clean = [&]() { for (auto &s : segments(key)) __real_shm_unlink(("/" + s).c_str()); };
    auto refused = [&](int st, const char *w) { auto s = errs(); if (st == 0) { clean(); c.fail("%s, and a newcomer attaches as if nothing happened", w); } if (st == -1) { clean(); c.fail("hang: %s, and a newcomer does not return", w); } if (s.find("dlb_shm --delete") == std::string::npos) { clean(); c.fail("%s, and a newcomer ends with status %x without telling to delete the segment\n%s", w, st, s.c_str()); } };
    auto file = [&]() { auto s = segments(key); if (s.empty()) c.fail("the segment does not exist"); return "/" + s[0]; };
    if (k == 0 || k == 1) {
        int st = run([&] { victim = true; dieheld = k == 0; inminit = false; if (k == 0) { Data *d; shmem_props_t p = {}; p.size = sizeof(Data); p.name = "pbt"; p.key = key.c_str(); p.version = 7; p.cleanup_fn = race_cleanup; dieat = live ? 1 : 2; shmem_handler_t *h = shmem_init((void **)&d, &p); shmem_lock(h); } else { dieheld = false; dieat = 0; points = 0; /* the mutex is initialized by the creator only */ Data *d; shmem_props_t p = {}; p.size = sizeof(Data); p.name = "pbt"; p.key = key.c_str(); p.version = 7; deathnote = nullptr; dieat = live ? 7 : 8;  shmem_init((void **)&d, &p); } }, 5);
        if (!(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)) c.fail("harness: the victim ended with status %x", st); st = run([&] { cycle(1, key.c_str(), 7, 1, 0); }, 6); if (k == 0 || st != 0) refused(st, what[k]);
    } else if (k == 4) { int fd = __real_shm_open(("/DLB_pbt_" + key).c_str(), O_CREAT | O_RDWR, 0600); if (fd < 0) c.discard(); if (live) { int r = __real_ftruncate64(fd, c.range(1, 8000)); (void)r; } close(fd); int st = run([&] { cycle(1, key.c_str(), 7, 1, 0); }, 6); if (pg->err == 2) c.fail("%s", pg->msg); PCHECK(c, st == 0, "attaching to an empty file of the same name: status %x\n%s", st, errs().c_str()); PCHECK(c, segments(key).empty(), "the segment is not removed"); }
    else {
        // a live user of another version; it must keep working
        rpc::Pool P(c); P.spawn([&](int) { return [&](const Msg &m) { static shmem_handler_t *h; static Data *d; Msg r; if (m.op == 1) { shmem_props_t p = {}; p.size = sizeof(Data); p.name = "pbt"; p.key = key.c_str(); p.version = 7; p.cleanup_fn = race_cleanup; h = shmem_init((void **)&d, &p); d->count = 1234; if (m.v[0]) h->shsync->shsync_version += m.v[1]; } else if (m.op == 2) { shmem_lock(h); r.v = {d->count, 0}; shmem_unlock(h); } else shmem_finalize(h, nullptr); return r; }; });
        int dv = c.oneof<int>({1, -1, 5}); P.call(0, Msg(1, {k == 3, dv})); std::string f = file(); for (int t = c.range(1, 2); t-- > 0;) {
            int st = run([&] { cycle(1, key.c_str(), k == 2 ? 7 + dv : 7, 1, 0); }, 6); refused(st, what[k]);
            P.post(0, Msg(2)); if (!P.ready(0, 5)) { clean(); c.fail("hang: a process with an incompatible version was refused, and the user of the segment cannot lock it any more"); } auto r = P.wait(0); PCHECK(c, r.v[0] == 1234, "a refused process changed the contents of the segment"); PCHECK(c, segments(key).size() == 1, "a refused process removed the segment"); }
        if (k == 2) { int st = run([&] { cycle(1, key.c_str(), 7, 1, 0); }, 6); if (pg->err == 2) c.fail("%s", pg->msg); PCHECK(c, st == 0, "after a refused process, another one attaches: status %x\n%s", st, errs().c_str()); }
        P.call(0, Msg(3)); PCHECK(c, segments(key).empty(), "everybody has left and segment %s exists", segments(key)[0].c_str());
    }
    clean(); c.count(3);
}
#include "crash_api.hpp"
int main(int argc, char **argv) {
    const char *mode = "race"; for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], "--mode")) mode = argv[i + 1];
    pbt::Options o; o.property = "C12"; o.case_timeout = 60; o.quick_cases = !strcmp(mode, "race") ? 1500 : !strcmp(mode, "solo") ? 64 : 2500; o.thorough_cases = !strcmp(mode, "race") ? 60000 : !strcmp(mode, "solo") ? 600 : 100000;
    return pbt::run(argc, argv, o, [=](Ctx &c) { if (!strcmp(mode, "race")) race(c); else if (!strcmp(mode, "solo")) solo(c); else { mode_api = true; api(c); } });
}
