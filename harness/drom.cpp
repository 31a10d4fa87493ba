// C09 / C10 / C32: DROM process registry, several real processes, against a model of the reservations.
#include "rpc.hpp"
#include <semaphore.h>
#include <sys/mman.h>
#include <time.h>
extern "C" {
#include "apis/dlb.h"
#include "apis/dlb_drom.h"
#include "apis/dlb_stats.h"
#include "LB_core/spd.h"
#include "LB_comm/shmem_procinfo.h"
#include "LB_comm/shmem_cpuinfo.h"
#include "support/mask_utils.h"
int __real_clock_gettime(clockid_t, struct timespec *);
int __real_usleep(useconds_t);
}
using pbt::Ctx; using rpc::Msg; typedef int64_t i64; typedef unsigned M;

// Synchronous queries: every delay of the caller stops until the case lets it go on, and time only advances when the case says.
struct Sync { sem_t waiting, go; volatile long jump_s; volatile int ticks; };
static Sync *sy; static bool in_sync;
extern "C" int __wrap_clock_gettime(clockid_t k, struct timespec *t) { int r = __real_clock_gettime(k, t); if (in_sync) { t->tv_sec = 1000000 + sy->jump_s; t->tv_nsec = 0; } return r; }
extern "C" int __wrap_usleep(useconds_t u) { if (!in_sync) return __real_usleep(u); sem_post(&sy->waiting); while (sem_wait(&sy->go)) {} return 0; }

enum { INIT = 1, FIN, ATTACH, DETACH, PREINIT, POSTFIN, SET, GET, POLL, POLLUPD, RECOVER, PIDS, BIND, SELFPRE, LISTS, ENDINFO };
static M tom(const cpu_set_t *s, int n) { M m = 0; for (int i = 0; i < n; ++i) if (CPU_ISSET(i, s)) m |= 1u << i; return m; }
static void fromm(M m, cpu_set_t *s) { CPU_ZERO(s); for (int i = 0; i < 32; ++i) if (m >> i & 1) CPU_SET(i, s); }
static int cbn; static cpu_set_t cbm;
static void cb(const cpu_set_t *m, void *) { ++cbn; cbm = *m; }
static std::string g_key; static int g_n;
static std::string envget(char **e, const char *n) { for (; e && *e; ++e) if (!strncmp(*e, n, strlen(n)) && (*e)[strlen(n)] == '=') return *e + strlen(n) + 1; return "<unset>"; }
static Msg handle(const Msg &m) {
    Msg r; cpu_set_t s; CPU_ZERO(&s); cbn = 0; CPU_ZERO(&cbm); auto base = [] { setenv("DLB_ARGS", ("--shm-key=" + g_key + " --quiet=yes").c_str(), 1); };
    auto arm = [&](i64 f) { in_sync = f & DLB_SYNC_QUERY; };
    switch (m.op) {
        case INIT: { setenv("DLB_ARGS", ("--shm-key=" + g_key + " --quiet=yes " + m.s).c_str(), 1); fromm(m.v[0], &s); int e = DLB_Init(0, &s, m.v[1] ? "--drom=1" : NULL); base(); if (e == DLB_SUCCESS) DLB_CallbackSet(dlb_callback_set_process_mask, (dlb_callback_t)cb, NULL);
            r.v = {e, thread_spd ? (i64)tom(&thread_spd->process_mask, g_n) : 0, thread_spd && thread_spd->dlb_initialized}; break; }
        case FIN: r.v = {DLB_Finalize()}; break;
        case ATTACH: base(); r.v = {DLB_DROM_Attach()}; break;
        case DETACH: base(); r.v = {DLB_DROM_Detach()}; break;
        case PREINIT: { base(); fromm(m.v[1], &s); char **env = (char **)calloc(4, sizeof(char *)); int k = 0; if (m.v[3] & 1) env[k++] = strdup("OMP_NUM_THREADS=7"); if (m.v[3] & 2) env[k++] = strdup("DLB_ARGS=--verbose=api"); arm(m.v[2]); int e = DLB_DROM_PreInit(m.v[0], &s, (dlb_drom_flags_t)m.v[2], &env); in_sync = false; r.v = {e}; r.s = envget(env, "DLB_ARGS") + "|" + envget(env, "OMP_NUM_THREADS"); break; }
        case POSTFIN: base(); r.v = {DLB_DROM_PostFinalize(m.v[0], (dlb_drom_flags_t)m.v[1])}; break;
        case SET: { base(); fromm(m.v[1], &s); arm(m.v[2]); int e = DLB_DROM_SetProcessMask(m.v[0], &s, (dlb_drom_flags_t)m.v[2]); in_sync = false; r.v = {e, cbn, (i64)tom(&cbm, g_n)}; break; }
        case GET: { base(); arm(m.v[1]); int e = DLB_DROM_GetProcessMask(m.v[0], &s, (dlb_drom_flags_t)m.v[1]); in_sync = false; r.v = {e, (i64)tom(&s, g_n)}; break; }
        case POLL: { int nc = -5; int e = DLB_PollDROM(m.v[0] ? NULL : &nc, &s); r.v = {e, nc, (i64)tom(&s, g_n), cbn}; break; }
        case POLLUPD: { int e = DLB_PollDROM_Update(); r.v = {e, cbn, (i64)tom(&cbm, g_n)}; break; }
        case RECOVER: base(); r.v = {DLB_DROM_RecoverStolenCpus(m.v[0])}; break;
        case PIDS: { base(); int mx = m.v[0], k = -1; std::vector<int> l(mx + 4, -9); int e = DLB_DROM_GetPidList(l.data(), &k, mx); r.v = {e, k}; for (auto x : l) r.v.push_back(x); break; }
        case BIND: { for (int i = 0; i < g_n; ++i) r.v.push_back(shmem_cpuinfo__get_thread_binding(m.v[0], i)); break; }
        case LISTS: { int mx = m.v[0]; std::vector<double> d(mx + 4, -9); std::vector<int> l(mx + 4, -9); int k = -1, e = 0; switch (m.v[1]) { case 0: shmem_procinfo__getcpuusage_list(d.data(), &k, mx); break; case 1: shmem_procinfo__getcpuavgusage_list(d.data(), &k, mx); break; case 2: shmem_procinfo__getactivecpus_list(l.data(), &k, mx); for (int i = 0; i < mx + 4; ++i) d[i] = l[i]; break; } r.v = {e, k}; for (auto x : d) r.v.push_back((i64)x); break; }
        case SELFPRE: { char **env = (char **)calloc(4, sizeof(char *)); fromm(m.v[0], &s); base(); int e = DLB_PreInit(&s, m.v[1] ? &env : NULL); r.s = m.v[1] ? envget(env, "DLB_ARGS") : getenv("DLB_ARGS"); base(); r.v = {e}; break; }
    }
    return r;
}

struct E { i64 pid = 0; M cur = 0, fut = 0; bool dirty = false, pre = false; M stolen = 0; int peer = -1; bool ret = false; bool envret = false; std::string env; bool self2 = false; M eff() const { return dirty ? fut : cur; } };
struct Peer { bool in = false; int att = 0; bool args_ret = false; bool selfpre = false; };
static std::string g_prop;
static std::string ms(M m) { std::string s = "{"; for (int i = 0; i < 32; ++i) if (m >> i & 1) s += (s.size() > 1 ? "," : "") + std::to_string(i); return s + "}"; }

struct World {
    Ctx &c; int n; M all; std::vector<E> e; std::vector<Peer> pr; rpc::Pool P; std::vector<i64> owner; int steals = 0, inherits = 0, syncs = 0; bool obs = true;
    World(Ctx &cc) : c(cc), P(cc) {}
    E *by(i64 pid) { for (auto &x : e) if (x.pid == pid) return &x; return nullptr; }
    M used() { M m = 0; for (auto &x : e) m |= x.eff(); return m; }
    M freem() { return all & ~used(); }
    void own(i64 pid, M m) { for (int i = 0; i < n; ++i) if (m >> i & 1) owner[i] = pid; }
    void sync_own(i64 pid, M m) { for (int i = 0; i < n; ++i) if (m >> i & 1) owner[i] = pid; else if (owner[i] == pid) owner[i] = 0; }
    bool stale(M m, i64 pid, i64 pre = 0) { for (int i = 0; i < n; ++i) if ((m >> i & 1) && owner[i] && owner[i] != pid && owner[i] != pre) return true; return false; }
    // what the registry says, seen by an administrator
    M seen(i64 pid) { cpu_set_t s; CPU_ZERO(&s); int r = DLB_DROM_GetProcessMask(pid, &s, (dlb_drom_flags_t)0); PCHECK(c, r == DLB_SUCCESS, "GetProcessMask(%ld) returned %d", (long)pid, r); return tom(&s, n); }
    void verify(const char *w) {
        int k = -1; std::vector<int> l(n + 4, -9); int r = DLB_DROM_GetPidList(l.data(), &k, n + 1); PCHECK(c, r == DLB_SUCCESS, "GetPidList returned %d", r);
        std::multiset<i64> a, b; for (int i = 0; i < k; ++i) a.insert(l[i]); for (auto &x : e) b.insert(x.pid);
        std::string sa, sb; for (auto x : a) sa += " " + std::to_string(x); for (auto x : b) sb += " " + std::to_string(x);
        PCHECK(c, a == b, "%s: registered processes are:%s, expected:%s", w, sa.c_str(), sb.c_str());
        M sum = 0; for (auto &x : e) { if (b.count(x.pid) > 1) continue; M m = seen(x.pid); PCHECK(c, !(m & sum), "%s: CPUs %s are assigned to two processes", w, ms(m & sum).c_str()); sum |= m; PCHECK(c, m == x.eff(), "%s: the mask of process %ld is %s, expected %s", w, (long)x.pid, ms(m).c_str(), ms(x.eff()).c_str()); }
    }
    // 1: must work, 0: cannot, -1: either
    int can(const E *T, M mask) { M need = mask & ~(T ? T->eff() : 0), fr = freem(); int v = 1; for (int i = 0; i < n; ++i) if (need >> i & 1) { if (fr >> i & 1) continue; E *h = nullptr; for (auto &x : e) if (x.eff() >> i & 1) h = &x; if (!h || h->dirty) return 0; for (auto &x : e) if (&x != T && &x != h && x.dirty && (x.cur >> i & 1)) v = -1; } return v; }
    struct Plan { M steal = 0, need = 0, freed = 0; std::vector<std::pair<i64, M>> victims; };
    Plan plan(const E *T, M mask) { Plan p; p.need = mask & ~(T ? T->eff() : 0); p.steal = p.need & ~freem(); p.freed = (T ? T->eff() : 0) & ~mask; return p; }
    void rob(E *T, Plan &p) { for (auto &x : e) if (&x != T && (x.eff() & p.steal)) { M t = x.eff() & p.steal; p.victims.push_back({x.pid, t}); x.fut = x.eff() & ~t; x.dirty = true; x.stolen |= t; ++steals; } }
    void give(M freed, i64 from, bool ret) {              // CPUs a process stops owning
        if (!ret || !freed) return;
        for (int i = 0; i < n; ++i) if (freed >> i & 1) { std::vector<E *> cd; for (auto &x : e) if (x.pid != from && (x.stolen >> i & 1)) cd.push_back(&x); if (cd.empty()) continue; E *w = cd[0];
            if (cd.size() > 1) { c.label("several owners"); int k = 0; for (auto *x : cd) if (seen(x->pid) >> i & 1) { w = x; ++k; } PCHECK(c, k == 1, "CPU %d was given back to %d processes", i, k); }
            w->fut = w->eff() | 1u << i; w->dirty = true; w->stolen &= ~(1u << i); }
    }
    void settle(E *T, const Plan &p, M mask, bool ret) { i64 pid = T->pid; T->stolen &= ~p.need; M fr = p.freed & T->eff(); if (p.need | fr) { T->fut = (T->eff() | p.need) & ~fr; T->dirty = true; } give(fr, pid, ret); }
    void rollback(Plan &p) { for (auto &v : p.victims) if (E *x = by(v.first)) { x->fut = x->eff() | v.second; x->stolen &= ~v.second; x->dirty = x->cur != x->fut; } }
    void drop(i64 pid, bool ret) { for (size_t i = 0; i < e.size(); ++i) if (e[i].pid == pid) { M m = e[i].eff(); int p = e[i].peer; (void)p; e.erase(e.begin() + i); give(m, pid, ret); break; } for (auto &o : owner) if (o == pid) o = 0; }
    bool open(int i) { return pr[i].att > 0 || pr[i].in; }
    i64 pid(int i) { return P.p[i].pid; }

    void poll(int i, bool upd) { E *x = by(pid(i)); bool self2 = pr[i].in && x && x->pre; (void)self2; auto r = P.call(i, upd ? Msg(POLLUPD) : Msg(POLL, {0})); c.note("process %d (%ld): %s -> %ld", i, (long)pid(i), upd ? "PollDROM_Update" : "PollDROM", (long)r.v[0]);
        if (!pr[i].in) { PCHECK(c, r.v[0] == DLB_ERR_NOINIT, "poll before initialization returned %ld", (long)r.v[0]); return; }
        if (!x->dirty) { PCHECK(c, r.v[0] == DLB_NOUPDT && r.v[upd ? 1 : 3] == 0, "poll without changes returned %ld, %ld callbacks", (long)r.v[0], (long)r.v[upd ? 1 : 3]); return; }
        PCHECK(c, r.v[0] == DLB_SUCCESS, "poll with a pending mask returned %ld", (long)r.v[0]);
        if (upd) PCHECK(c, r.v[1] == 1 && (M)r.v[2] == x->fut, "poll: %ld callbacks with mask %s, expected %s", (long)r.v[1], ms(r.v[2]).c_str(), ms(x->fut).c_str());
        else PCHECK(c, r.v[1] == __builtin_popcount(x->fut) && (M)r.v[2] == x->fut && r.v[3] == 0, "poll: %ld CPUs %s, expected %s", (long)r.v[1], ms(r.v[2]).c_str(), ms(x->fut).c_str());
        x->cur = x->fut; x->dirty = false; sync_own(x->pid, x->cur); }
    void fin(int i) { auto r = P.call(i, Msg(FIN)); c.note("process %d (%ld): Finalize -> %ld", i, (long)pid(i), (long)r.v[0]); if (!pr[i].in) { if (pr[i].selfpre) { PCHECK(c, r.v[0] == DLB_SUCCESS, "finalization after PreInit returned %ld", (long)r.v[0]); pr[i].selfpre = false; drop(pid(i), false); } else PCHECK(c, r.v[0] == DLB_NOUPDT, "finalize without initialization returned %ld", (long)r.v[0]); return; } PCHECK(c, r.v[0] == DLB_SUCCESS, "finalize returned %ld", (long)r.v[0]); pr[i].in = false;
        size_t k = 0; for (size_t q = 0; q < e.size(); ++q) if (e[q].pid == pid(i) && !e[q].pre) k = q; if (k != 0) std::swap(e[0], e[k]); drop(pid(i), pr[i].args_ret); }

    // run a blocking query of process i; events of the others happen while it waits
    Msg blocking(int i, const Msg &m, std::function<void()> released, std::function<void()> acted, std::function<bool(bool)> event) {
        while (sem_trywait(&sy->waiting) == 0) {} while (sem_trywait(&sy->go) == 0) {} sy->jump_s = 0; ++syncs; wexp = false;
        P.post(i, m); int ticks = 0; bool expired = false;
        for (;;) { double t0 = pbt::now_s(); bool w = false; while (!P.ready(i, 0)) { if (sem_trywait(&sy->waiting) == 0) { w = true; break; } if (pbt::now_s() - t0 > 20) c.fail("hang: the synchronous query neither waits nor returns"); sched_yield(); }
            if (!w) return P.wait(i);
            acted();
            PCHECK(c, ++ticks < 60, "the synchronous query does not end");
            if (!expired || ticks > 40) { if (ticks > 40 || event(expired)) { expired = wexp = true; sy->jump_s += 3; c.note("   time runs out"); } }
            released(); sem_post(&sy->go); }
    }
    // something another process does meanwhile; true: time runs out
    bool meanwhile(int caller, std::function<void(i64)> gone) {
        switch (c.weighted({6, 2, 1, 1, 2})) {
            case 0: { std::vector<int> d; for (size_t k = 0; k < pr.size(); ++k) if ((int)k != caller && pr[k].in) { E *x = by(pid(k)); if (x && x->dirty) d.push_back(k); } if (d.empty()) return c.chance(1, 3); poll(c.pick(d), c.flip()); return false; }
            case 1: return c.chance(1, 2);
            case 2: { std::vector<int> d; for (size_t k = 0; k < pr.size(); ++k) if ((int)k != caller && pr[k].in && !pr[k].selfpre) d.push_back(k); if (d.empty()) return false; int k = c.pick(d); c.label("finalize meanwhile"); fin(k); gone(pid(k)); return false; }
            case 4: { std::vector<E *> v; for (auto &x : e) if (!x.dirty && x.pid != rpid_new) v.push_back(&x); if (v.empty()) return false; E *t = c.pick(v); M m; switch (c.range(0, 2)) { case 0: m = t->eff() & c.draw(256); break; case 1: m = (t->eff() | c.draw(256)) & all; break; default: m = c.draw(256) & all; } if ((m & (busy | maybe_busy) & ~t->eff()) || can(t, m) != 1) return false;
                bool rt = c.chance(1, 4); Plan p = plan(t, m); cpu_set_t s; fromm(m, &s); int r = DLB_DROM_SetProcessMask(t->pid, &s, rt ? DLB_RETURN_STOLEN : (dlb_drom_flags_t)0); c.note("   observer: SetProcessMask %ld %s -> %d", (long)t->pid, ms(m).c_str(), r); PCHECK(c, r == DLB_SUCCESS, "SetProcessMask returned %d", r); c.label("set meanwhile"); if (p.steal) c.label("steal meanwhile"); rob(t, p); settle(t, p, m, rt); return false; }
            default: { M f = freem() & ~busy; if (!f || e.size() + reserving >= (size_t)n || !obs) return false; M m = f & c.draw(256); if (!m) m = f; i64 p = 900000 + c.range(0, 3); if (by(p) || p == rpid || stale(m, p)) return false; c.label("reservation meanwhile"); cpu_set_t s; fromm(m, &s); int r = obs_preinit(p, m); c.note("   observer: PreInit %ld %s -> %d", (long)p, ms(m).c_str(), r); 
                if (r == DLB_SUCCESS) { PCHECK(c, true, "x"); E x; x.pid = p; x.cur = x.fut = m; x.pre = true; e.push_back(x); own(p, m); } else PCHECK(c, (m & maybe_busy) != 0 && r == DLB_ERR_PERM, "reservation of free CPUs %s returned %d", ms(m).c_str(), r); return false; }
        }
    }
    int obs_preinit(i64 p, M m) { cpu_set_t s; fromm(m, &s); char **env = (char **)calloc(4, sizeof(char *)); return DLB_DROM_PreInit(p, &s, (dlb_drom_flags_t)0, &env); }
    i64 rpid = 0, rpid_new = 0; bool wexp = false; M busy = 0, maybe_busy = 0; size_t reserving = 0;

    // set the mask of T (pid) or, if prepid, reserve for a new process; returns the code seen
    void change(int i, i64 tpid, M mask, i64 flags, bool pre, i64 envbits, bool selfzero) {
        i64 target = tpid; E *T = by(target); bool ret = flags & DLB_RETURN_STOLEN, sync = flags & DLB_SYNC_QUERY, steal = pre ? flags & DLB_STEAL_CPUS : true;
        const char *nm = pre ? "PreInit" : "SetProcessMask"; bool self = !pre && pr[i].in && target == pid(i); i64 argpid = selfzero ? 0 : target;
        Msg m = pre ? Msg(PREINIT, {target, (i64)mask, flags, envbits}) : Msg(SET, {argpid, (i64)mask, flags});
        auto desc = [&](i64 code) { c.note("process %d: %s %ld %s flags %ld -> %ld", i, nm, (long)argpid, ms(mask).c_str(), (long)flags, (long)code); };
        // refused for a known reason?
        std::set<i64> codes; bool must = false; auto snapshot = e;
        if (pre && !open(i)) codes = {DLB_ERR_NOSHMEM}; else if (pre && T) codes = {DLB_ERR_INIT}; else if (pre && (int)e.size() >= n) codes = {DLB_ERR_NOMEM};
        else if (!pre && !T) codes = {DLB_ERR_NOPROC}; else if (!pre && T->dirty && !(self && mask == T->fut)) codes = {DLB_ERR_PDIRTY};
        if (pre && codes.count(DLB_ERR_INIT) && (int)e.size() >= n) codes.insert(DLB_ERR_NOMEM);
        bool applyself = self && !(flags & DLB_NO_SYNC);
        if (codes.empty() && self && T->dirty) { Msg r = P.call(i, m); desc(r.v[0]); c.label("set pending mask"); PCHECK(c, r.v[0] == DLB_SUCCESS, "setting the pending mask returned %ld", (long)r.v[0]); if (applyself) { T->cur = T->fut; T->dirty = false; PCHECK(c, r.v[1] == 1 && (M)r.v[2] == T->cur, "%ld callbacks with mask %s, expected %s", (long)r.v[1], ms(r.v[2]).c_str(), ms(T->cur).c_str()); sync_own(T->pid, T->cur); } return; }
        Plan p;
        if (codes.empty()) {
            int w = can(T, mask); p = plan(T, mask); if (pre && !steal && p.steal) w = 0; if (w == 0) codes = {DLB_ERR_PERM};
            else { must = w == 1; if (pre && !steal && stale(mask, target)) { must = false; c.label("not polled yet"); } if (!must) codes = {DLB_ERR_PERM}; else codes = {}; codes.insert(DLB_SUCCESS); }
        }
        bool may = codes.count(DLB_SUCCESS);
        if (!may || self || !sync || (pre && !p.steal)) {
            // nothing to wait for
            Msg r; r = may || !sync ? P.call(i, m) : blocking(i, m, [] {}, [] {}, [](bool) { return true; }); desc(r.v[0]); std::string cs; for (auto x : codes) cs += " " + std::to_string(x);
            PCHECK(c, codes.count(r.v[0]), "%s returned %ld, expected%s", nm, (long)r.v[0], cs.c_str());
            if (pre) checkenv(target, mask, flags, envbits, r.s);
            if (r.v[0] != DLB_SUCCESS) { if (!pre) PCHECK(c, r.v[1] == 0, "callback invoked by a refused call"); return; }
            if (pre) { E x; x.pid = target; e.push_back(x); T = &e.back(); T->pre = true; p.victims.clear(); rob(T, p); settle(T, p, mask, ret); T = by(target); T->cur = T->fut = mask; T->dirty = false; T->env = r.s; T->envret = ret; own(target, mask); if (p.steal) c.label("reservation steals"); return; }
            rob(T, p); settle(T, p, mask, ret); T = by(target);
            if (p.steal) c.label("steals");
            if (applyself) { T->cur = mask; T->fut = mask; T->dirty = false; PCHECK(c, r.v[1] == 1 && (M)r.v[2] == mask, "%ld callbacks with mask %s, expected %s", (long)r.v[1], ms(r.v[2]).c_str(), ms(mask).c_str()); sync_own(target, mask); }
            else PCHECK(c, r.v[1] == 0, "%ld callbacks by a change that waits for a poll", (long)r.v[1]);
            return;
        }
        // synchronous
        c.label(pre ? "synchronous reservation" : "synchronous set"); if (codes.count(DLB_ERR_PERM)) { c.label("skipped"); return; }
        bool ph2 = false, targone = false, ended = false, expd = false; E tmp; tmp.pid = target; if (T) tmp = *T; rob(T, p); busy = p.steal; maybe_busy = p.need & ~p.steal; reserving = pre; rpid = target; rpid_new = pre ? target : 0; M taken0 = p.need & ~p.steal; bool lost_acq = false;
        auto quiet = [&] { M o = 0; for (auto &x : e) if (x.pid != target) o |= x.cur; return !(o & p.steal); };
        auto phase2 = [&] { ph2 = true; if (pre) { E x; x.pid = target; e.push_back(x); } E *t = by(target); settle(t, p, mask, ret); if (pre) { t = by(target); t->cur = t->fut = mask; t->dirty = false; t->pre = true; own(target, mask); } busy = maybe_busy = 0; };
        bool pend = !p.steal; auto settle2 = [&] { if (pend) { pend = false; phase2(); } };   // what the caller did after the last wait
        Msg r = blocking(i, m, [&] { if (!ph2 && !targone && quiet()) { if (taken0 & ~freem()) lost_acq = true; else pend = true; } }, settle2, [&](bool) { bool x = meanwhile(i, [&](i64 g) { if (g == target) targone = true; }); expd |= x; return x; });
        ended = true; (void)ended; settle2(); busy = maybe_busy = 0; reserving = 0; rpid = rpid_new = 0; desc(r.v[0]);
        if (pre) checkenv(target, mask, flags, envbits, r.s);
        if (!ph2 && quiet() && !targone && !lost_acq && r.v[0] == DLB_SUCCESS) phase2();
        switch (r.v[0]) {
            case DLB_SUCCESS: PCHECK(c, ph2 && quiet(), "synchronous %s ended before the CPUs were released", nm); if (!pre) { PCHECK(c, !targone, "success for a process that has left"); T = by(target); PCHECK(c, !T->dirty, "synchronous %s ended before the target updated its mask", nm); } else { T = by(target); T->env = r.s; T->envret = ret; } break;
            case DLB_ERR_TIMEOUT: PCHECK(c, wexp, "time-out without waiting"); if (!ph2) { c.label("time-out, rolled back"); rollback(p); if (pre) {} } else { PCHECK(c, !pre, "time-out of a granted reservation"); c.label("time-out, pending"); } break;
            case DLB_ERR_NOPROC: PCHECK(c, targone, "no process, but it is registered"); if (!ph2) rollback(p); c.label("target leaves"); break;
            case DLB_ERR_PERM: PCHECK(c, lost_acq, "%s returned a permission error after stealing", nm); rollback(p); c.label("CPUs taken meanwhile"); break;
            default: c.fail("synchronous %s returned %ld", nm, (long)r.v[0]);
        }
    }
    void checkenv(i64 pid, M mask, i64 flags, i64 bits, const std::string &s) {
        std::string ex = std::string(bits & 2 ? "--verbose=api " : "") + "--drom=1 --preinit-pid=" + std::to_string(pid) + (flags & DLB_RETURN_STOLEN ? " --debug-opts=return-stolen" : ""); size_t k = s.find('|'); std::string a = s.substr(0, k), o = s.substr(k + 1); while (!a.empty() && a.back() == ' ') a.pop_back();
        PCHECK(c, a == ex, "environment for the process: DLB_ARGS='%s', expected '%s'", a.c_str(), ex.c_str()); std::string eo = !(bits & 1) ? "<unset>" : mask ? std::to_string(__builtin_popcount(mask)) : "7"; PCHECK(c, o == eo, "environment for the process: OMP_NUM_THREADS='%s', expected '%s'", o.c_str(), eo.c_str());
    }
    void init(int i, M mask, i64 prepid, bool ret, const std::string &env) {
        i64 me = pid(i); E *Q = prepid ? by(prepid) : nullptr, *X = by(me); std::set<i64> codes; M res = mask; int kind = 0;
        if (pr[i].in) codes = {DLB_ERR_INIT};
        else if (X && prepid != me) codes = {DLB_ERR_INIT};
        else if (Q && !Q->pre) codes = {DLB_ERR_INIT};
        else if (!Q) { if ((int)e.size() >= n) codes = {DLB_ERR_NOMEM}; else if (mask & ~freem()) codes = {DLB_ERR_PERM}; else if (stale(mask, me)) { codes = {DLB_SUCCESS, DLB_ERR_PERM}; c.label("not polled yet"); } else codes = {DLB_SUCCESS}; }
        else { M q = Q->eff(); if (prepid == me && !Q->self2 && mask && (mask & q) != q) return;   // a reservation of the process itself is taken as a whole
            if (mask == 0 || mask == q) { kind = 1; res = q; codes = {DLB_SUCCESS}; }
            else if ((mask & q) == q) { kind = 2; if (Q->dirty) codes = {DLB_ERR_PDIRTY}; else if (mask & ~q & ~freem()) codes = {DLB_ERR_PERM}; else codes = {DLB_SUCCESS}; }
            else { kind = (mask & q) == mask ? 3 : 4; if (Q->dirty) codes = {DLB_ERR_PDIRTY}; else if ((int)e.size() >= n) codes = {DLB_ERR_NOMEM}; else codes = {DLB_SUCCESS}; if (kind == 4 && (mask & ~q & ~freem())) { if (codes.count(DLB_SUCCESS)) codes.clear(); codes.insert(DLB_ERR_PERM); } }
            if (codes.count(DLB_SUCCESS) && stale(res, me, prepid)) return; }
        std::string args = env.empty() ? std::string("--drom=1") + (prepid ? " --preinit-pid=" + std::to_string(prepid) : "") + (ret ? " --debug-opts=return-stolen" : "") : env;
        auto r = P.call(i, Msg(INIT, {(i64)mask, c.flip()}, args)); c.note("process %d (%ld): Init %s '%s' -> %ld", i, (long)me, ms(mask).c_str(), args.c_str(), (long)r.v[0]);
        std::string cs; for (auto x : codes) cs += " " + std::to_string(x); PCHECK(c, codes.count(r.v[0]), "initialization returned %ld, expected%s", (long)r.v[0], cs.c_str());
        if (r.v[0] != DLB_SUCCESS) { c.label("init refused"); return; }
        pr[i].in = true; pr[i].args_ret = ret;
        PCHECK(c, (M)r.v[1] == res, "the process starts with mask %s, expected %s", ms(r.v[1]).c_str(), ms(res).c_str());
        if (kind) { ++inherits; static const char *kn[] = {"", "inherits", "inherits and expands", "inherits part", "inherits part and expands"}; c.label("%s", kn[kind]); }
        if (kind == 1) { Q->pid = me; Q->pre = false; Q->peer = i; if (prepid != me) for (auto &o : owner) if (o == prepid) o = 0; own(me, Q->eff()); return; }
        if (kind == 2) { Q->pid = me; Q->pre = false; Q->peer = i; Q->cur = Q->fut = mask; if (prepid != me) for (auto &o : owner) if (o == prepid) o = 0; own(me, mask); return; }
        if (kind >= 3) { Q->cur &= ~mask; Q->fut &= ~mask; }
        E x; x.pid = me; x.cur = x.fut = mask; x.peer = i; e.push_back(x); own(me, mask);
    }
};

static void one(Ctx &c) {
    World w(c); int n = w.n = c.range(1, 8); g_n = n; w.all = (1u << n) - 1; w.owner.assign(n, 0); mu_testing_set_sys_size(n); g_key = c.key;
    sy = (Sync *)mmap(0, sizeof(Sync), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); sem_init(&sy->waiting, 1, 0); sem_init(&sy->go, 1, 0);
    int np = c.range(2, 5); bool nosteal = g_prop == "C10" && c.chance(1, 3); w.pr.resize(np);
    for (int i = 0; i < np; ++i) w.P.spawn([&](int) { return [](const Msg &m) { return handle(m); }; });
    setenv("DLB_ARGS", ("--shm-key=" + c.key + " --quiet=yes").c_str(), 1); PCHECK(c, DLB_DROM_Attach() == DLB_SUCCESS, "attach"); c.note("%d CPUs, %d processes", n, np);
    auto anymask = [&](M base) -> M { M m; switch (c.range(0, 5)) { case 0: m = c.draw(w.all + 1ull); break; case 1: m = w.freem() & c.draw(256); break; case 2: m = base | (1u << c.range(0, n - 1)); break; case 3: m = base & ~(1u << c.range(0, n - 1)); break; case 4: { int a = c.range(0, n - 1), b = c.range(a, n - 1); m = 0; for (int k = a; k <= b; ++k) m |= 1u << k; break; } default: m = w.freem(); } return m & w.all; };
    auto anypid = [&]() -> i64 { if (!w.e.empty() && c.chance(5, 6)) return c.pick(w.e).pid; switch (c.range(0, 2)) { case 0: return 900000 + c.range(0, 3); case 1: return w.pid(c.range(0, np - 1)); default: return c.oneof<i64>({999999, -4, 3999999}); } };
    auto dup = [&](i64 p) { int k = 0; for (auto &x : w.e) k += x.pid == p; return k > 1; };
    // nothing is lost when the administrator leaves, even if nobody else is attached (known finding C12: attached processes beyond the number of CPUs are not listed)
    auto away = [&]() { if (np + 1 > n) return; bool alone = true; for (int k = 0; k < np; ++k) alone &= !w.open(k); PCHECK(c, DLB_DROM_Detach() == DLB_SUCCESS, "detach"); bool kept = !access(("/dev/shm/DLB_procinfo_" + c.key).c_str(), F_OK); PCHECK(c, kept == (!alone || !w.e.empty()), "the observer detached, %zu processes are registered, %s attached: the segment %s", w.e.size(), alone ? "nobody is" : "others are", kept ? "exists" : "was removed"); PCHECK(c, DLB_DROM_Attach() == DLB_SUCCESS, "attach"); c.note("observer: Detach and Attach"); if (alone) c.label(w.e.empty() ? "nobody attached" : "only reservations"); };
    bool c10 = g_prop == "C10", c32 = g_prop == "C32"; int steps = c.len(8, 60), changes = 0;
    for (int st = 0; st < steps; ++st) {
        int i = c.range(0, np - 1); if (st < np && c.chance(3, 4)) { i = st; if (!w.open(i)) { if (c.chance(1, 2 + 2 * c10)) { w.init(i, anymask(0), 0, c.chance(1, 3), ""); w.verify("Init"); continue; } } }
        int op = c10 ? c.weighted({4, 2, 2, 1, 10, 4, 6, 3, 6, 1, 8, 1, 2, 2, 2}) : c32 ? c.weighted({5, 3, 1, 1, 3, 2, 5, 8, 6, 1, 1, 12, 0, 8, 1}) : c.weighted({4, 2, 2, 1, 5, 2, 14, 4, 10, 3, 3, 2, 1, 0, 1});
        char what[64] = "";
        switch (op) {
            case 0: { if (w.pr[i].in && c.chance(3, 4)) break; w.init(i, anymask(0), c.chance(1, 6) ? anypid() : 0, c.chance(1, 3), ""); strcpy(what, "Init"); break; }
            case 1: { if (!w.pr[i].in && !w.pr[i].selfpre && c.chance(3, 4)) break; w.fin(i); strcpy(what, "Finalize"); break; }
            case 2: { auto r = w.P.call(i, Msg(ATTACH)); c.note("process %d: Attach -> %ld", i, (long)r.v[0]); PCHECK(c, r.v[0] == DLB_SUCCESS, "attach returned %ld", (long)r.v[0]); ++w.pr[i].att; strcpy(what, "Attach"); break; }
            case 3: { if (!w.pr[i].att && w.pr[i].in) break; auto r = w.P.call(i, Msg(DETACH)); c.note("process %d: Detach -> %ld", i, (long)r.v[0]); PCHECK(c, r.v[0] == (w.pr[i].att ? DLB_SUCCESS : DLB_ERR_NOSHMEM), "detach returned %ld", (long)r.v[0]); if (w.pr[i].att) --w.pr[i].att; strcpy(what, "Detach"); break; }
            case 4: case 10: { // reserve; sometimes the process starts right away
                if (!w.open(i) && c.chance(4, 5)) { auto r = w.P.call(i, Msg(ATTACH)); PCHECK(c, r.v[0] == DLB_SUCCESS, "attach"); ++w.pr[i].att; c.note("process %d: Attach", i); }
                if (op == 4) { i64 t = c.chance(1, 3) ? 900000 + c.range(0, 3) : c.chance(1, 8) ? anypid() : w.pid(c.range(0, np - 1)); i64 f = 0; if (!nosteal && c.flip()) f |= DLB_STEAL_CPUS; if (c.chance(1, 3)) f |= DLB_RETURN_STOLEN; if ((f & DLB_STEAL_CPUS) && c.chance(1, 4)) f |= DLB_SYNC_QUERY; w.change(i, t, anymask(0), f, true, c.range(0, 3), false); strcpy(what, "PreInit"); ++changes; break; }
                // start a reserved process
                std::vector<E *> v; for (auto &x : w.e) if (x.pre && !dup(x.pid)) v.push_back(&x); if (v.empty()) break; E *q = c.pick(v); int k = -1; for (int a = 0; a < np; ++a) if (w.pid(a) == q->pid) k = a; if (k < 0 || c.flip()) { std::vector<int> z; for (int a = 0; a < np; ++a) if (!w.pr[a].in && !w.by(w.pid(a)) && !w.pr[a].selfpre) z.push_back(a); if (z.empty()) break; k = c.pick(z); } if (w.pr[k].in || w.pr[k].selfpre) break;
                M m = c.weighted({3, 2, 2}) == 0 ? q->eff() : c.flip() ? 0 : anymask(q->eff()); if (w.pid(k) == q->pid && m && m != q->eff() && (m & q->eff()) != q->eff()) m = 0;   // a reservation of the process itself is taken as a whole
                bool ue = !q->env.empty() && c.chance(3, 4); std::string env = ue ? q->env.substr(0, q->env.find('|')) : ""; bool rt = ue ? q->envret : c.flip(); w.init(k, m, q->pid, rt, env); strcpy(what, "Init"); break; }
            case 5: { std::vector<i64> v; for (auto &x : w.e) if (x.pre && !dup(x.pid)) v.push_back(x.pid); i64 t = v.empty() || c.chance(1, 6) ? 900000 + c.range(0, 5) : c.pick(v); for (int a = 0; a < np; ++a) if (w.pid(a) == t && (w.pr[a].in || w.pr[a].selfpre)) t = 900009; bool rt = c.flip();
                auto r = w.P.call(i, Msg(POSTFIN, {t, rt ? DLB_RETURN_STOLEN : 0})); c.note("process %d: PostFinalize %ld%s -> %ld", i, (long)t, rt ? " return" : "", (long)r.v[0]); i64 ex = !w.open(i) ? DLB_ERR_NOSHMEM : w.by(t) ? DLB_SUCCESS : DLB_ERR_NOPROC; PCHECK(c, r.v[0] == ex, "PostFinalize returned %ld, expected %ld", (long)r.v[0], (long)ex); if (ex == DLB_SUCCESS) w.drop(t, rt); strcpy(what, "PostFinalize"); break; }
            case 6: { i64 t = anypid(); bool z = false; if (w.pr[i].in && c.chance(1, 3)) { t = w.pid(i); z = c.flip(); } if (dup(t)) break; E *T = w.by(t); M m = anymask(T ? T->eff() : 0); if (T && T->dirty && c.chance(1, 3)) m = T->fut; if (nosteal && T) m &= w.freem() | T->eff(); i64 f = 0; if (c.chance(1, 3)) f |= DLB_RETURN_STOLEN; if (c.chance(1, 5)) f |= DLB_SYNC_QUERY; if (c.chance(1, 6)) f |= DLB_NO_SYNC; w.change(i, t, m, f, false, 0, z); strcpy(what, "SetProcessMask"); ++changes; break; }
            case 7: { i64 t = anypid(); bool z = c.chance(1, 5); if (z) t = w.pid(i); if (dup(t)) break; bool selfq = w.pr[i].in && t == w.pid(i); E *T = z && !w.pr[i].in ? nullptr : w.by(t); i64 f = c.chance(1, 3) ? DLB_SYNC_QUERY : 0; Msg m(GET, {z ? 0 : t, f}); Msg r; bool gone = false, expd = false;
                if (T && T->dirty && f && !selfq) { c.label("synchronous get"); r = w.blocking(i, m, [] {}, [] {}, [&](bool) { bool x = w.meanwhile(i, [&](i64 g) { if (g == t) gone = true; }); expd |= x; return x; }); expd |= w.wexp; T = w.by(t); } else r = w.P.call(i, m);
                c.note("process %d: GetProcessMask %ld flags %ld -> %ld %s", i, (long)(z ? 0 : t), (long)f, (long)r.v[0], ms(r.v[1]).c_str());
                if (!T) PCHECK(c, r.v[0] == DLB_ERR_NOPROC, "mask of a process that is not registered: returned %ld", (long)r.v[0]);
                else if (selfq) { PCHECK(c, r.v[0] == (T->dirty ? DLB_NOTED : DLB_SUCCESS) && (M)r.v[1] == T->eff(), "own mask: %ld %s, expected %s", (long)r.v[0], ms(r.v[1]).c_str(), ms(T->eff()).c_str()); if (T->dirty) { T->cur = T->fut; T->dirty = false; w.sync_own(T->pid, T->cur); c.label("get replaces poll"); } }
                else if (f && T->dirty) PCHECK(c, r.v[0] == DLB_ERR_TIMEOUT && expd, "synchronous get of a process with a pending mask returned %ld", (long)r.v[0]);
                else if (r.v[0] == DLB_ERR_TIMEOUT) PCHECK(c, expd || w.wexp, "time-out");
                else PCHECK(c, r.v[0] == DLB_SUCCESS && (M)r.v[1] == T->eff(), "mask of %ld: %ld %s, expected %s", (long)t, (long)r.v[0], ms(r.v[1]).c_str(), ms(T->eff()).c_str()); strcpy(what, "GetProcessMask"); break; }
            case 8: { std::vector<int> d; for (int k = 0; k < np; ++k) if (w.pr[k].in && !dup(w.pid(k)) && w.by(w.pid(k))->dirty) d.push_back(k); if (!d.empty() && c.chance(3, 4)) i = c.pick(d); if (dup(w.pid(i))) break; w.poll(i, c.flip()); strcpy(what, "PollDROM"); break; }
            case 9: { i64 t = anypid(); for (auto &x : w.e) if (x.stolen && c.flip()) t = x.pid; if (dup(t)) break; E *T = w.by(t); auto r = w.P.call(i, Msg(RECOVER, {t})); c.note("process %d: RecoverStolenCpus %ld -> %ld", i, (long)t, (long)r.v[0]); i64 ex = !w.open(i) ? DLB_ERR_NOSHMEM : !T ? DLB_ERR_NOPROC : !T->stolen ? DLB_NOUPDT : DLB_SUCCESS; PCHECK(c, r.v[0] == ex, "RecoverStolenCpus returned %ld, expected %ld", (long)r.v[0], (long)ex); if (ex == DLB_SUCCESS) { M k = T->stolen & w.freem(); if (k) { T->fut = T->eff() | k; T->dirty = true; T->stolen &= ~k; c.label("recovered"); } } strcpy(what, "Recover"); break; }
            case 11: { int mx = c.range(0, n + 2); bool pl = c.flip(); int kind = c.range(0, 2); auto r = w.P.call(i, pl ? Msg(PIDS, {mx}) : Msg(LISTS, {mx, kind})); c.note("process %d: list of at most %d", i, mx); if (!w.open(i)) { if (pl) PCHECK(c, r.v[0] == DLB_ERR_NOSHMEM, "list returned %ld", (long)r.v[0]); PCHECK(c, r.v[1] == 0, "%ld elements", (long)r.v[1]); break; }
                int ex = std::min<int>(mx, w.e.size()); PCHECK(c, r.v[0] == DLB_SUCCESS && r.v[1] == ex, "list of at most %d: %ld, %ld elements, expected %d", mx, (long)r.v[0], (long)r.v[1], ex); for (int k = ex; k < mx + 4; ++k) PCHECK(c, r.v[2 + k] == -9, "element %d after the list was written (%d elements, at most %d)", k, ex, mx);
                if (pl) { std::multiset<i64> a; for (auto &x : w.e) a.insert(x.pid); for (int k = 0; k < ex; ++k) { auto it = a.find(r.v[2 + k]); PCHECK(c, it != a.end(), "process %ld is not registered or is listed twice", (long)r.v[2 + k]); a.erase(it); } } break; }
            case 12: { // DLB_PreInit, DLB_Init and two DLB_Finalize in one process
                if (!nosteal || w.pr[i].in || w.pr[i].selfpre || w.pr[i].att || w.by(w.pid(i)) || (int)w.e.size() >= n - 1) break; M m = w.freem() & c.draw(256); if (!m || w.stale(m, w.pid(i))) break; auto r = w.P.call(i, Msg(SELFPRE, {(i64)m, c.flip()})); c.note("process %d (%ld): PreInit %s -> %ld", i, (long)w.pid(i), ms(m).c_str(), (long)r.v[0]); PCHECK(c, r.v[0] == DLB_SUCCESS, "PreInit returned %ld", (long)r.v[0]); c.label("PreInit of itself");
                { E x; x.pid = w.pid(i); x.cur = x.fut = m; x.pre = true; x.self2 = true; x.peer = i; w.e.push_back(x); w.own(x.pid, m); w.pr[i].selfpre = true; }
                w.verify("PreInit"); M q = c.flip() ? m : m & c.draw(256); if (!q) q = m; size_t a = r.s.find("--preinit-pid="); PCHECK(c, a != std::string::npos && atoll(r.s.c_str() + a + 14) == w.pid(i), "environment is '%s'", r.s.c_str());
                if (c.chance(3, 4)) { w.init(i, q, w.pid(i), false, "--drom=1 " + r.s.substr(a)); PCHECK(c, w.pr[i].in, "not initialized"); if (q == m) { } w.verify("Init"); w.fin(i); w.verify("Finalize"); }
                // whatever was not inherited is released by the second finalization
                if (w.by(w.pid(i))) w.fin(i); else { auto r2 = w.P.call(i, Msg(FIN)); (void)r2; w.pr[i].selfpre = false; } strcpy(what, "Finalize"); break; }
            case 13: { // all that is free can be reserved
                M f = w.freem(); i64 p = 900020; if (!f || (int)w.e.size() >= n || w.stale(f, p)) break; int r = w.obs_preinit(p, f); c.note("observer: PreInit of all free CPUs %s -> %d", ms(f).c_str(), r); PCHECK(c, r == DLB_SUCCESS, "the free CPUs %s cannot be reserved: %d", ms(f).c_str(), r); PCHECK(c, DLB_DROM_PostFinalize(p, (dlb_drom_flags_t)0) == DLB_SUCCESS, "post finalize"); strcpy(what, "reservation of the free CPUs"); break; }
            case 14: away(); strcpy(what, "the administrator left and came back"); break;
        }
        if (*what) w.verify(what);
    }
    if (c.chance(1, 3)) { for (int i = 0; i < np; ++i) { if (w.pr[i].in) { w.fin(i); w.verify("Finalize"); } while (w.pr[i].att) { auto r = w.P.call(i, Msg(DETACH)); PCHECK(c, r.v[0] == DLB_SUCCESS, "detach returned %ld", (long)r.v[0]); --w.pr[i].att; } } away(); w.verify("the administrator left and came back"); }
    // everybody polls: the CPU registry agrees with the process registry
    auto pre = w.e; for (auto &x : pre) if (x.pre) { bool rt = c.flip(); int r = DLB_DROM_PostFinalize(x.pid, rt ? DLB_RETURN_STOLEN : (dlb_drom_flags_t)0); PCHECK(c, r == DLB_SUCCESS, "PostFinalize returned %d", r); w.drop(x.pid, rt); }
    w.verify("PostFinalize"); for (int i = 0; i < np; ++i) if (w.pr[i].in) w.poll(i, c.flip());
    for (auto &x : w.e) { M b = 0; for (int k = 0; k < n; ++k) { int q = shmem_cpuinfo__get_thread_binding(x.pid, k); if (q < 0) continue; PCHECK(c, q < n && !(b >> q & 1), "binding %d of process %ld is CPU %d", k, (long)x.pid, q); b |= 1u << q; } PCHECK(c, b == x.eff(), "process %ld may bind threads to %s, its mask is %s", (long)x.pid, ms(b).c_str(), ms(x.eff()).c_str()); }
    M f = w.freem(); if (f && (int)w.e.size() < n) { int r = w.obs_preinit(900020, f); PCHECK(c, r == DLB_SUCCESS, "the free CPUs %s cannot be reserved: %d", ms(f).c_str(), r); PCHECK(c, DLB_DROM_PostFinalize(900020, (dlb_drom_flags_t)0) == DLB_SUCCESS, "post finalize"); }
    for (int i = 0; i < np; ++i) if (w.pr[i].in) { w.fin(i); w.verify("Finalize"); for (int k = 0; k < np; ++k) if (w.pr[k].in && c.flip()) w.poll(k, true); }
    { int r = w.obs_preinit(900021, w.all); PCHECK(c, r == DLB_SUCCESS, "CPUs were lost: the whole node cannot be reserved (%d)", r); PCHECK(c, DLB_DROM_PostFinalize(900021, (dlb_drom_flags_t)0) == DLB_SUCCESS, "post finalize"); }
    for (int i = 0; i < np; ++i) while (w.pr[i].att) { auto r = w.P.call(i, Msg(DETACH)); PCHECK(c, r.v[0] == DLB_SUCCESS, "detach returned %ld", (long)r.v[0]); --w.pr[i].att; }
    PCHECK(c, DLB_DROM_Detach() == DLB_SUCCESS, "detach"); for (const char *s : {"procinfo", "cpuinfo"}) { std::string p = std::string("/dev/shm/DLB_") + s + "_" + c.key; PCHECK(c, access(p.c_str(), F_OK), "%s remains", p.c_str()); }
    if (c10 ? w.inherits + w.syncs >= 1 && changes >= 2 : w.steals >= 1 && changes >= 3) c.nontrivial(); c.count(steps); munmap(sy, sizeof *sy);
}
int main(int argc, char **argv) {
    g_prop = "C09"; std::vector<char *> a; for (int i = 0; i < argc; ++i) { if (!strcmp(argv[i], "--prop") && i + 1 < argc) { g_prop = argv[++i]; continue; } a.push_back(argv[i]); }
    pbt::Options o; o.property = g_prop.c_str(); o.quick_cases = 12000; o.thorough_cases = 400000; o.quick_cap_s = 60; o.case_timeout = 60; o.hang_is_violation = true;
    return pbt::run(a.size(), a.data(), o, one);
}
