// C15: messages to the helper threads, several real processes, against a model of the queues.
#include "rpc.hpp"
#include <sys/mman.h>
extern "C" {
#include "apis/dlb.h"
#include "LB_core/spd.h"
#include "LB_comm/shmem_async.h"
#include "LB_numThreads/numThreads.h"
#include "support/mask_utils.h"
int __real_pthread_mutex_lock(pthread_mutex_t *);
}
// schedules: delays before taking any lock
extern "C" void yrt_set(int, int, unsigned) __attribute__((weak)); // present when the library is built to delay its memory accesses
static thread_local unsigned jit; static int jprob, jmax;
extern "C" int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { if (jprob) { jit = jit * 1664525u + 1013904223u + (unsigned)(uintptr_t)&jit; if ((int)(jit >> 24) < jprob) usleep((jit >> 8 & 0xffff) % jmax); } return __real_pthread_mutex_lock(m); }
using pbt::Ctx; using rpc::Msg; typedef int64_t i64;
static std::string strf(const char *f, ...) { char b[512]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
enum { ENABLE, DISABLE, ENABLE_SET, DISABLE_SET, NCPUS, ADDMASK, NKIND };
static const char *KN[] = {"enable", "disable", "enable-set", "disable-set", "ncpus", "add-mask"};
struct Rec { int kind; i64 val; };
enum { MAXREC = 6000, MAXLOG = 64 };
struct Log { volatile int n, delay, over; Rec r[MAXREC]; };          // one per incarnation of a target
static Log *logs; static int g_n;
static void put(void *arg, int k, i64 v) { Log *l = (Log *)arg; if (l->delay) usleep(l->delay); if (l->n >= MAXREC) { l->over = 1; return; } l->r[l->n] = Rec{k, v}; __sync_synchronize(); l->n = l->n + 1; }
static i64 tom(const cpu_set_t *s) { i64 m = 0; for (int i = 0; i < CPU_SETSIZE; ++i) if (CPU_ISSET(i, s)) { if (i >= 62) return -1; m |= 1ll << i; } return m; }
static void cb_en(int c, void *a) { put(a, ENABLE, c); }
static void cb_dis(int c, void *a) { put(a, DISABLE, c); }
static void cb_ens(const cpu_set_t *s, void *a) { put(a, ENABLE_SET, tom(s)); }
static void cb_diss(const cpu_set_t *s, void *a) { put(a, DISABLE_SET, tom(s)); }
static void cb_n(int c, void *a) { put(a, NCPUS, c); }
static void cb_add(const cpu_set_t *s, void *a) { put(a, ADDMASK, tom(s)); }

enum { INIT = 1, FIN, SEND, WAIT, FINRE };
static std::map<i64, pm_interface_t *> pms;
static int do_init(i64 pid, i64 log, i64 mode, const std::string &key) {
    auto *pm = new pm_interface_t(); pm_init(pm); void *a = &logs[log];
    if (mode == 0 || mode == 1) { pm_callback_set(pm, dlb_callback_enable_cpu, (dlb_callback_t)cb_en, a); pm_callback_set(pm, dlb_callback_disable_cpu, (dlb_callback_t)cb_dis, a); }
    if (mode == 0) { pm_callback_set(pm, dlb_callback_enable_cpu_set, (dlb_callback_t)cb_ens, a); pm_callback_set(pm, dlb_callback_disable_cpu_set, (dlb_callback_t)cb_diss, a); }
    if (mode == 2) pm_callback_set(pm, dlb_callback_add_active_mask, (dlb_callback_t)cb_add, a);
    pm_callback_set(pm, dlb_callback_set_num_threads, (dlb_callback_t)cb_n, a);
    cpu_set_t m; sched_getaffinity(0, sizeof m, &m); int e = shmem_async_init(pid, pm, &m, key.c_str()); if (!e) pms[pid] = pm; return e;
}
static int do_fin(i64 pid) { int e = shmem_async_finalize(pid); return e; }
static std::string g_key;
static Msg handle(const Msg &m) {
    Msg r; switch (m.op) {
        case INIT: r.v = {do_init(m.v[0], m.v[1], m.v[2], g_key)}; break;
        case FIN: if (m.v[1]) usleep(m.v[1]); r.v = {do_fin(m.v[0])}; break;
        case FINRE: { if (m.v[1]) usleep(m.v[1]); int e = do_fin(m.v[0]); r.v = {e, e ? e : do_init(m.v[2], m.v[3], m.v[4], g_key)}; break; }
        case WAIT: shmem_async_wait_for_completion(m.v[0]); r.v = {0}; break;
        case SEND: for (size_t k = 1; k + 2 < m.v.size(); k += 3) { i64 pid = m.v[k], kind = m.v[k + 1], v = m.v[k + 2]; if (m.v[0] && k % 5 == 0) usleep(m.v[0]); cpu_set_t s; CPU_ZERO(&s); for (int b = 0; b < 62; ++b) if (v >> b & 1) CPU_SET(b, &s);
                switch (kind) { case ENABLE: shmem_async_enable_cpu(pid, v); break; case DISABLE: shmem_async_disable_cpu(pid, v); break; case ENABLE_SET: shmem_async_enable_cpu_set(pid, &s); break; case DISABLE_SET: shmem_async_disable_cpu_set(pid, &s); break; case NCPUS: shmem_async_set_num_cpus(pid, v); break; } }
            r.v = {0}; break;
    }
    return r;
}
struct Target { i64 pid; int peer, log, mode; std::vector<std::vector<std::vector<Rec>>> sent; int pend = 0; size_t drop_ok = 0; bool cut = false; }; // sent[sender][message] = records
struct World {
    Ctx &c; rpc::Pool P; int np, n, w; std::vector<Target> t; int logn = 0; std::vector<int> att, seq; i64 nextpid = 1000; long delivered = 0; std::set<int> kinds;
    World(Ctx &cc) : c(cc), P(cc) {}
    int of(i64 pid) { for (size_t i = 0; i < t.size(); ++i) if (t[i].pid == pid) return i; return -1; }
    // the log is an interleaving of what each process sent, complete (or, after finalizing meanwhile, beginnings of it)
    void check(const Target &x, const char *when) {
        Log &l = logs[x.log]; PCHECK(c, !l.over, "%s: target %ld received more than %d messages", when, (long)x.pid, MAXREC); std::vector<size_t> at(np, 0), sub(np, 0); int open = -1;
        for (int i = 0; i < l.n; ++i) {
            Rec r = l.r[i]; int s = -1;
            for (int k = 0; k < np; ++k) { if (open >= 0 && k != open) continue; if (at[k] < x.sent[k].size()) { auto &q = x.sent[k][at[k]][sub[k]]; if (q.kind == r.kind && q.val == r.val) { s = k; break; } } }
            if (s < 0) { std::string ex; for (int k = 0; k < np; ++k) if (at[k] < x.sent[k].size()) ex += strf(" %s %ld from process %d,", KN[x.sent[k][at[k]][sub[k]].kind], (long)x.sent[k][at[k]][sub[k]].val, k); c.fail("%s: event %d of target %ld is %s %ld; could be:%s", when, i, (long)x.pid, KN[r.kind], (long)r.val, ex.empty() ? " nothing" : ex.c_str()); }
            if (++sub[s] == x.sent[s][at[s]].size()) { sub[s] = 0; ++at[s]; open = -1; while (at[s] < x.sent[s].size() && x.sent[s][at[s]].empty()) ++at[s]; } else open = s;
        }
        PCHECK(c, open < 0, "%s: target %ld received part of a message", when, (long)x.pid);
        if (!x.cut) for (int k = 0; k < np; ++k) { size_t miss = 0; for (size_t a = at[k]; a < x.sent[k].size(); ++a) miss += !x.sent[k][a].empty(); PCHECK(c, !miss, "%s: %zu messages of process %d to target %ld were not delivered", when, miss, k, (long)x.pid); }
        delivered += l.n;
    }
    void trim(Target &x) { // all delivered: start over
        for (auto &v : x.sent) v.clear(); logs[x.log].n = 0; x.pend = 0; }
    void init(int p) {
        if (logn + 2 >= MAXLOG) return; int mode = c.weighted({4, 2, 1}); i64 pid = nextpid++; int lg = logn++; logs[lg].n = 0; logs[lg].over = 0; logs[lg].delay = c.oneof<int>({0, 0, 0, 50, 500}); bool full = (int)t.size() >= n;
        auto r = P.call(p, Msg(INIT, {pid, lg, mode})); c.note("process %d: init target %ld, callbacks %d -> %ld", p, (long)pid, mode, (long)r.v[0]); PCHECK(c, r.v[0] == (full ? DLB_ERR_NOMEM : DLB_SUCCESS), "init returned %ld with %zu targets and room for %d", (long)r.v[0], t.size(), n);
        if (full) { c.label("full"); return; } add(pid, p, lg, mode);
    }
    void add(i64 pid, int p, int lg, int mode) { Target x; x.pid = pid; x.peer = p; x.log = lg; x.mode = mode; x.sent.resize(np); t.push_back(x); ++att[p]; }
    void fin(size_t i, bool chk = true) { auto r = P.call(t[i].peer, Msg(FIN, {t[i].pid, 0})); c.note("finalize target %ld with up to %d pending -> %ld", (long)t[i].pid, t[i].pend, (long)r.v[0]); PCHECK(c, r.v[0] == 0, "finalize returned %ld", (long)r.v[0]); if (t[i].pend) c.label("finalize with pending messages"); check(t[i], "after finalizing"); gone(i); }
    std::vector<std::pair<int, int>> old; // logs of finalized targets and their length
    void gone(size_t i) { --att[t[i].peer]; old.push_back({t[i].log, logs[t[i].log].n}); t.erase(t.begin() + i); }
    void olds() { for (auto &o : old) PCHECK(c, logs[o.first].n == o.second, "a finalized target received %d messages", logs[o.first].n - o.second); }
    std::vector<Rec> expand(const Target &x, int kind, i64 v) {
        auto each = [&](int k) { std::vector<Rec> r; for (int b = 0; b < 62; ++b) if (v >> b & 1) r.push_back(Rec{k, b}); return r; };
        switch (x.mode) { case 0: return {Rec{kind, v}}; case 1: if (kind == ENABLE_SET) return each(ENABLE); if (kind == DISABLE_SET) return each(DISABLE); return {Rec{kind, v}};
            default: if (kind == NCPUS) return {Rec{kind, v}}; if (kind == ENABLE) return {Rec{ADDMASK, (i64)1 << v}}; return {}; }
    }
    // builds what process p sends; pids of nobody included
    Msg batch(int p, int k, const std::vector<i64> &to, int &nmsg, std::map<i64, int> &room) {
        Msg m(SEND, {c.oneof<int>({0, 0, 30, 200})}); nmsg = 0;
        for (int a = 0; a < k; ++a) {
            i64 pid = c.chance(1, 12) ? 999 : c.pick(to); int ti = of(pid); if (ti >= 0 && room[pid] <= 0) continue; int md = ti >= 0 ? t[ti].mode : 0; int kind = c.range(0, NCPUS); if (md == 2) kind = c.oneof<int>({ENABLE, NCPUS}); i64 v; int q = seq[p]++;
            if (kind == NCPUS) v = 1 + (q % w) + p * w; else if (kind == ENABLE || kind == DISABLE) v = md == 2 ? p * w + q % w : 100000 * (p + 1) + q; else { v = 0; int cnt = c.range(1, w); for (int b = 0; b < cnt; ++b) v |= 1ll << (p * w + (q + b) % w); }
            m.v.push_back(pid); m.v.push_back(kind); m.v.push_back(v); ++nmsg; if (ti >= 0 && att[p] > 0) { kinds.insert(kind); t[ti].sent[p].push_back(expand(t[ti], kind, v)); --room[pid]; ++t[ti].pend; }
        }
        return m;
    }
};
static void one(Ctx &c) {
    World w(c); w.np = c.range(1, 4); w.n = c.flip() ? c.range(w.np, 6) : c.range(8, 40); w.w = std::max(1, w.n / w.np); mu_testing_set_sys_size(w.n); w.att.assign(w.np, 0); w.seq.assign(w.np, 0); g_key = c.key; unsetenv("DLB_ARGS");
    logs = (Log *)mmap(0, sizeof(Log) * MAXLOG, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    for (int i = 0; i < w.np; ++i) { int jp = c.oneof<int>({0, 0, 20, 100}), jm = c.oneof<int>({30, 300, 2000}); unsigned js = c.draw(1u << 31); int yp = yrt_set ? c.oneof<int>({10, 40, 200}) : 0, ym = yrt_set ? c.oneof<int>({1, 20, 200}) : 1; w.P.spawn([=](int) { if (yrt_set) yrt_set(yp, ym, js); jprob = jp; jmax = jm; jit = js; return [](const Msg &m) { return handle(m); }; }); }
    int steps = c.len(4, 24); c.note("%d processes, room for %d targets", w.np, w.n);
    for (int i = 0; i < w.np; ++i) if (c.chance(3, 4)) w.init(i);
    for (int st = 0; st < steps; ++st) {
        int p = c.range(0, w.np - 1);
        switch (c.weighted({3, 2, 10, 4, 3, 1})) {
            case 0: w.init(p); break;
            case 1: if (!w.t.empty()) w.fin(c.draw(w.t.size())); break;
            case 2: case 4: { // several processes send at the same time; maybe a target finalizes meanwhile
                if (w.t.empty()) break; bool cut = false; int victim = -1; std::vector<int> snd; for (int i = 0; i < w.np; ++i) if (c.chance(3, 4)) snd.push_back(i); if (snd.empty()) break;
                int kind = c.weighted({6, 3, 2}); if (kind && w.np > 1) { victim = c.draw(w.t.size()); cut = true; snd.erase(std::remove(snd.begin(), snd.end(), w.t[victim].peer), snd.end()); if (snd.empty()) break; }
                std::vector<i64> to; int nt = c.range(1, 3); for (int i = 0; i < nt; ++i) to.push_back(w.t[c.draw(w.t.size())].pid); if (cut) { to.push_back(w.t[victim].pid); to.push_back(w.t[victim].pid); } int k = c.oneof<int>({1, 3, 10, 40, 99}); std::map<i64, int> room; for (auto &x : w.t) room[x.pid] = 99 - x.pend; std::string d; std::vector<Msg> ms; for (int s : snd) { int nm; ms.push_back(w.batch(s, c.range(1, k), to, nm, room)); d += strf(" %d(%d)", s, nm); }
                std::string tt; for (i64 x : to) tt += strf(" %ld", (long)x); c.note("send to%s; processes (messages):%s", tt.c_str(), d.c_str()); for (auto &x : w.t) if (x.pend == 99) c.label("99 pending messages");
                i64 vp = 0, np_ = 0; int lg = -1, md = 0, vpeer = 0; bool re = kind == 2 && w.logn + 2 < MAXLOG;
                if (cut) { vp = w.t[victim].pid; vpeer = w.t[victim].peer; i64 dl = c.oneof<int>({0, 50, 200, 1000}); if (re) { lg = w.logn++; np_ = w.nextpid++; md = c.weighted({4, 2, 1}); } c.note("  while target %ld finalizes%s", (long)vp, re ? " and another one starts" : ""); w.t[victim].cut = true; for (size_t i = 0; i < snd.size(); ++i) if (i % 2 == 0) w.P.post(snd[i], ms[i]); w.P.post(vpeer, re ? Msg(FINRE, {vp, dl, np_, lg, md}) : Msg(FIN, {vp, dl})); for (size_t i = 0; i < snd.size(); ++i) if (i % 2) w.P.post(snd[i], ms[i]); c.label(re ? "finalize and init during messages" : "finalize during messages"); }
                else for (size_t i = 0; i < snd.size(); ++i) w.P.post(snd[i], ms[i]);
                for (int s : snd) w.P.wait(s); if (cut) { auto r = w.P.wait(vpeer); PCHECK(c, r.v[0] == 0, "finalize returned %ld", (long)r.v[0]); if (re) PCHECK(c, r.v[1] == 0, "init returned %ld", (long)r.v[1]); w.check(w.t[victim], "after finalizing"); w.gone(victim); if (re) w.add(np_, vpeer, lg, md); }
                if (snd.size() > 1) c.label("several senders"); break; }
            case 3: if (!w.t.empty()) { auto &x = w.t[c.draw(w.t.size())]; int by = c.flip() ? x.peer : p; if (!w.att[by]) by = x.peer; w.P.call(by, Msg(WAIT, {x.pid})); c.note("wait for target %ld", (long)x.pid); w.check(x, "when idle"); w.trim(x); } break;
            case 5: { auto r = w.P.call(p, Msg(FIN, {999, 0})); c.note("finalize an unknown target -> %ld", (long)r.v[0]); PCHECK(c, r.v[0] == DLB_ERR_NOPROC, "finalize of an unknown target returned %ld", (long)r.v[0]); break; }
        }
        w.olds();
    }
    while (!w.t.empty()) w.fin(w.t.size() - 1); w.olds();
    std::string p = "/dev/shm/DLB_async_" + c.key; PCHECK(c, access(p.c_str(), F_OK), "%s remains", p.c_str());
    if (w.delivered >= 10 && w.kinds.size() >= 3) c.nontrivial(); c.count(steps);
}
int main(int argc, char **argv) {
    pbt::Options o; o.property = "C15"; o.quick_cases = 6000; o.thorough_cases = 200000; o.quick_cap_s = 60; o.case_timeout = 60; o.hang_is_violation = true;
    return pbt::run(argc, argv, o, one);
}
