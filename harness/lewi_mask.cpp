// C01-C06: CPU-mask LeWI against a reference model of the node registry.
//
// Several subprocesses (DLB_Init_sp) of one real process attach to a fresh
// shared registry on a generated topology; random calls are applied to the
// library and to the model, and after every call the return code, the
// callbacks every process received and the registry as printed by
// DLB_PrintShmem are compared.
#include "pbt.hpp"
#include <bitset>
#include <deque>
#include <pthread.h>
extern "C" {
#include "apis/dlb_sp.h"
#include "apis/dlb_errors.h"
#include "LB_core/spd.h"
#include "LB_core/DLB_kernel.h"
#include "LB_comm/shmem_cpuinfo.h"
#include "LB_comm/shmem_async.h"
#include "support/mask_utils.h"
}
using pbt::Ctx;
typedef std::bitset<128> Set;
static std::string S(const Set &s) { std::string r = "{"; for (int i = 0; i < 128; ++i) if (s[i]) { if (r.size() > 1) r += ","; r += std::to_string(i); } return r + "}"; }
static void to_cs(const Set &s, cpu_set_t *c) { CPU_ZERO(c); for (int i = 0; i < 128; ++i) if (s[i]) CPU_SET(i, c); }

enum { DISABLED, BUSY, LENT };
enum { ONE_CB, BOTH_CB };
struct Cpu { int owner = 0, guest = 0, state = DISABLED; std::deque<int> req; };
struct GReq { int pid; int howmany; Set allowed; };
struct Task { bool en; int pid, cpu; };
struct Events { Set e, d; };

// ---------------------------------------------------------------- real side
static __thread cpu_set_t *tl_affinity = nullptr;
static cpu_set_t fake_affinity; static bool use_fake = false;
extern "C" int __real_pthread_getaffinity_np(pthread_t, size_t, cpu_set_t *);
extern "C" int __wrap_pthread_getaffinity_np(pthread_t t, size_t n, cpu_set_t *s) {
    if (use_fake) { memcpy(s, &fake_affinity, n < sizeof fake_affinity ? n : sizeof fake_affinity); return 0; }
    return __real_pthread_getaffinity_np(t, n, s);
}
struct Log { pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER; std::vector<std::pair<char, int>> v; };
static void cb_enable(int cpu, void *a) { Log *l = (Log *)a; pthread_mutex_lock(&l->m); l->v.push_back({'E', cpu}); pthread_mutex_unlock(&l->m); }
static void cb_disable(int cpu, void *a) { Log *l = (Log *)a; pthread_mutex_lock(&l->m); l->v.push_back({'D', cpu}); pthread_mutex_unlock(&l->m); }
static void cb_set(Log *l, char k, const cpu_set_t *s, int n) { pthread_mutex_lock(&l->m); for (int i = 0; i < n; ++i) if (CPU_ISSET(i, s)) l->v.push_back({k, i}); pthread_mutex_unlock(&l->m); }
static int g_n;
static void cb_enable_set(const cpu_set_t *s, void *a) { cb_set((Log *)a, 'E', s, g_n); }
static void cb_disable_set(const cpu_set_t *s, void *a) { cb_set((Log *)a, 'D', s, g_n); }

struct Thr { bool in = false, lewi = true; Set mask; };
struct Proc {
    bool alive = false, enabled = false; subprocess_descriptor_t *h = nullptr; int pid = 0; Set mask; int max = 0; int affinity = 0; bool keep = false;
    Set pending; std::vector<int> prio; Log *log = nullptr; Thr thr[2];
};

// ---------------------------------------------------------------- model
struct World {
    int n = 0, ncores = 0, nnodes = 1; bool smt = false, async = false, pub = false, respect = true, queues = false;
    std::vector<int> core_of, node_of; std::vector<std::vector<int>> cores;
    std::vector<Cpu> cpu; std::deque<GReq> gq; std::vector<Proc> P;
    std::vector<Task> tasks;
    static constexpr size_t CPUQ = 7, GQ = 1023;

    void fresh() { cpu.assign(n, Cpu()); gq.clear(); queues = false; if (!respect) for (auto &c : cpu) c.state = LENT; }
    bool eligible(int pid, int c) const {
        if (!smt) return cpu[c].owner == pid || cpu[c].guest == pid || cpu[c].guest == 0;
        for (int k : cores[core_of[c]]) { const Cpu &u = cpu[k]; if ((u.guest != pid && u.guest != 0) || (u.state == BUSY && u.owner != pid)) return false; }
        return true;
    }
    static void rm(std::deque<int> &q, int pid) { std::deque<int> k; for (int x : q) if (x != pid) k.push_back(x); q = k; }
    void rm_global(int pid) { std::deque<GReq> k; for (auto &x : gq) if (x.pid != pid) k.push_back(x); gq = k; }
    int find_guest(int c) {
        Cpu &u = cpu[c];
        if (u.state == BUSY) return u.owner;
        if (u.state != LENT || !queues) return 0;
        int g = 0;
        for (size_t i = 0; i < u.req.size(); ++i) if (eligible(u.req[i], c)) { g = u.req[i]; u.req.erase(u.req.begin() + i); break; }
        if (!g) for (size_t i = 0; i < gq.size(); ++i) if (gq[i].allowed[c] && eligible(gq[i].pid, c)) { g = gq[i].pid; if (--gq[i].howmany == 0) gq.erase(gq.begin() + i); break; }
        if (g && g == u.owner) u.state = BUSY;
        return g;
    }
    void t(bool en, int pid, int c) { tasks.push_back({en, pid, c}); }
    void lend(int pid, int c) {
        Cpu &u = cpu[c];
        if (u.owner == pid) u.state = LENT; else if (queues) rm(u.req, pid);
        if (u.guest == pid) u.guest = 0;
        if (u.guest == 0) { int g = find_guest(c); if (g) { u.guest = g; t(true, g, c); } }
        if (smt) for (int k : cores[core_of[c]]) if (k != c && cpu[k].guest == 0) { int g = find_guest(k); if (g) { cpu[k].guest = g; t(true, g, k); } }
    }
    int reclaim(int pid, int c) {
        Cpu &u = cpu[c]; if (u.owner != pid) return DLB_ERR_PERM;
        u.state = BUSY; if (u.guest == pid) return DLB_NOUPDT;
        if (u.guest == 0) { u.guest = pid; t(true, pid, c); return DLB_SUCCESS; }
        t(false, u.guest, c); t(true, pid, c); return DLB_NOTED;
    }
    int acquire(int pid, int c) {
        Cpu &u = cpu[c];
        if (u.guest == pid) return DLB_NOUPDT;
        if (u.owner == pid) return reclaim(pid, c);
        if (u.guest == 0 && u.state == LENT && eligible(pid, c)) { u.guest = pid; t(true, pid, c); return DLB_SUCCESS; }
        if (u.state == DISABLED) return DLB_ERR_PERM;
        if (!queues) return DLB_NOUPDT;
        if (u.req.size() < CPUQ) { u.req.push_back(pid); return DLB_NOTED; }
        return DLB_ERR_REQST;
    }
    int borrow(int pid, int c) {
        Cpu &u = cpu[c]; if (u.guest != 0 || !eligible(pid, c)) return DLB_NOUPDT;
        if (u.owner == pid) { u.state = BUSY; u.guest = pid; t(true, pid, c); return DLB_SUCCESS; }
        if (u.state == LENT) { u.guest = pid; t(true, pid, c); return DLB_SUCCESS; }
        return DLB_NOUPDT;
    }
    int ret(int pid, int c) {
        Cpu &u = cpu[c];
        if (u.owner == pid || u.guest != pid || (u.state == LENT && eligible(pid, c))) return DLB_NOUPDT;
        u.guest = u.state == BUSY ? u.owner : 0; t(false, pid, c); return DLB_SUCCESS;
    }
    void ret_async(int pid, int c) { Cpu &u = cpu[c]; u.guest = u.state == BUSY ? u.owner : 0; if (u.req.size() < CPUQ) u.req.push_back(pid); }
    // op over a list in order, whole cores when SMT; kind 0 acquire, 1 borrow
    int over(int kind, int pid, const std::vector<int> &list, int &ncpus, std::set<int> *shared = nullptr) {
        int err = DLB_NOUPDT; std::set<int> own_seen, &seen = shared ? *shared : own_seen;
        for (int c : list) {
            if (ncpus <= 0) break;
            std::vector<int> group = {c};
            if (smt) { if (!seen.insert(core_of[c]).second) continue; group = cores[core_of[c]]; }
            for (int k : group) {
                int e = kind == 0 ? acquire(pid, k) : borrow(pid, k);
                if (e == DLB_SUCCESS || e == DLB_NOTED) { --ncpus; if (err != DLB_NOTED) err = e; }
                else if (cpu[k].guest == pid) continue;
                else break;
            }
        }
        return err;
    }
    int used(int pid) const { int r = 0; for (auto &u : cpu) r += u.guest == pid; return r; }
    std::vector<int> subset(const Proc &p, const Set *m) const { std::vector<int> r; for (int c : p.prio) if (!m || (*m)[c]) r.push_back(c); return r; }
    int acquire_n(Proc &p, int req, const Set *m) {   // req 0: all in mask
        auto list = subset(p, m); int left = p.max ? p.max - used(p.pid) : INT_MAX;
        if (left <= 0) return DLB_NOUPDT;
        int ncpus = std::min(req > 0 ? req : n, left);
        std::vector<int> a, b, d;
        for (int c : list) { if (cpu[c].owner == p.pid) { if (cpu[c].guest == 0) a.push_back(c); else if (cpu[c].guest != p.pid) b.push_back(c); } else if (cpu[c].guest == 0) d.push_back(c); }
        int err = DLB_NOUPDT;
        std::set<int> seen;
        for (auto *v : {&a, &b}) { int e = over(0, p.pid, *v, ncpus, &seen); if ((e == DLB_SUCCESS || e == DLB_NOTED) && err != DLB_NOTED) err = e; }
        if (over(1, p.pid, d, ncpus) == DLB_SUCCESS && err != DLB_NOTED) err = DLB_SUCCESS;
        if (queues && req > 0 && ncpus > 0) {
            Set al; for (int c : list) al[c] = 1;
            bool found = false;
            for (auto &g : gq) if (g.pid == p.pid && g.allowed == al) { g.howmany += ncpus; found = true; err = DLB_NOTED; break; }
            if (!found) { if (gq.size() < GQ) { gq.push_back({p.pid, ncpus, al}); err = DLB_NOTED; } else err = DLB_ERR_REQST; }
        }
        return err;
    }
    int borrow_n(Proc &p, int req, const Set *m) {
        auto list = subset(p, m); int left = p.max ? p.max - used(p.pid) : INT_MAX;
        if (left <= 0) return DLB_NOUPDT;
        int ncpus = std::min(req > 0 ? req : n, left);
        int err = over(1, p.pid, list, ncpus);
        if (p.affinity == 4 && ncpus > 0) {        // spread-ifempty: whole free NUMA nodes
            std::vector<int> l;
            for (int k = 0; k < nnodes; ++k) { bool free = true, any = false; for (int c = 0; c < n; ++c) if (node_of[c] == k) { any = true; if (cpu[c].guest != 0 || cpu[c].state != LENT) free = false; } if (any && free) for (int c = 0; c < n; ++c) if (node_of[c] == k) l.push_back(c); }
            if (over(1, p.pid, l, ncpus) == DLB_SUCCESS) err = DLB_SUCCESS;
        }
        return err;
    }
    void drop_requests(int pid, bool owned_too) { if (!queues) return; rm_global(pid); for (auto &u : cpu) if (owned_too || u.owner != pid) rm(u.req, pid); }
    void priorities(Proc &p) {
        p.prio.clear(); std::vector<int> l1a, l1b, l2; std::set<int> nodes; int first = -1;
        for (int c = 0; c < n; ++c) if (p.mask[c]) { if (first < 0) first = c; nodes.insert(node_of[c]); p.prio.push_back(c); }
        for (int c = 0; c < n; ++c) if (!p.mask[c]) {
            if (p.affinity == 4) continue;
            bool near = nodes.count(node_of[c]);
            if (p.affinity == 3 && !near) continue;
            if (near) (core_of[c] > core_of[first] ? l1a : l1b).push_back(c); else l2.push_back(c);
        }
        std::vector<int> own(p.prio); p.prio.clear();
        for (auto *v : {&own, &l1a, &l1b, &l2}) { std::stable_sort(v->begin(), v->end(), [&](int a, int b) { return core_of[a] < core_of[b]; }); for (int c : *v) p.prio.push_back(c); }
    }
    Proc *by_pid(int pid) { for (auto &p : P) if (p.alive && p.pid == pid) return &p; return nullptr; }
    // deliver tasks; self==nullptr callbacks of the caller are dropped
    std::map<int, Events> resolve(Proc &self, bool own_callbacks = true) {
        std::map<int, Events> ev;
        for (auto &k : tasks) {
            if (k.pid == self.pid) { if (own_callbacks) { (k.en ? ev[k.pid].e : ev[k.pid].d)[k.cpu] = 1; if (k.en) self.pending[k.cpu] = 0; } }
            else if (async) { (k.en ? ev[k.pid].e : ev[k.pid].d)[k.cpu] = 1; }
        }
        if (async) { std::set<std::pair<int, int>> done; for (auto &k : tasks) if (!k.en && k.pid != self.pid && done.insert({k.pid, k.cpu}).second) ret_async(k.pid, k.cpu); }
        tasks.clear();
        return ev;
    }
};

// ---------------------------------------------------------------- registry as printed
struct Dump { bool printed = false; std::vector<std::array<int, 3>> cpu; std::map<int, std::deque<int>> req; std::vector<std::tuple<int, int, std::string>> gq; std::string text; };
static Dump read_registry(const std::string &key, int n) {
    Dump d; int fd = memfd_create("reg", 0); fflush(stderr); int save = dup(2); dup2(fd, 2);
    shmem_cpuinfo__print_info(key.c_str(), 0, 1, (dlb_printshmem_flags_t)0);
    fflush(stderr); dup2(save, 2); close(save);
    off_t len = lseek(fd, 0, SEEK_END); d.text.resize(len); pread(fd, &d.text[0], len, 0); close(fd);
    d.cpu.assign(n, {0, 0, -1}); size_t pos = 0; int section = 0;
    while (pos < d.text.size()) {
        size_t e = d.text.find('\n', pos); if (e == std::string::npos) e = d.text.size();
        std::string l = d.text.substr(pos, e - pos); pos = e + 1; int c, o, g; char st[8];
        if (l.find("=== CPU States") != std::string::npos) { d.printed = true; continue; }
        if (l.find("Cpu requests") != std::string::npos) { section = 1; continue; }
        if (l.find("Process requests") != std::string::npos) { section = 2; continue; }
        if (l.find("Format:") != std::string::npos) continue;
        size_t br = l.find(']'); std::string tail = l;
        if (!section && br != std::string::npos && sscanf(l.c_str(), " %d [ %d / %d / %4s ]", &c, &o, &g, st) == 4 && c >= 0 && c < n)
            d.cpu[c] = {o, g, !strcmp(st, "off") ? DISABLED : (!strcmp(st, "busy") || !strcmp(st, "recl")) ? BUSY : LENT};
        else if (section == 1 && sscanf(l.c_str(), " %d:", &c) == 1 && c >= 0 && c < n) {
            const char *p = strchr(l.c_str(), ':') + 1; int v, k; while (sscanf(p, " %d%n", &v, &k) == 1) { d.req[c].push_back(v); p += k; if (*p == ',') ++p; }
        } else if (section == 2) { int how; int k = 0; if (sscanf(l.c_str(), " %d: %d, %n", &c, &how, &k) == 2) d.gq.push_back({c, how, l.substr(k)}); }
    }
    return d;
}

struct Run {
    Ctx &c; World w; std::string prop, key, opts; int cbkind = ONE_CB; int idle_mode = 0; bool ever_blocked = false; int gained = 0, transfers = 0; std::vector<std::string> prev;
    explicit Run(Ctx &cc, const std::string &p) : c(cc), prop(p) {}

    void topology() {
        bool smt = prop == "C04" ? true : prop == "C01" || prop == "C03" || prop == "C05" || prop == "C06" || prop == "C02" ? c.chance(1, 5) : c.chance(1, 3);
        w.smt = smt; int k = smt ? (c.chance(1, 5) ? 4 : 2) : 1;
        int nc = c.chance(1, 25) ? c.range(60, 96) / k : c.range(1, smt ? 5 : 8);
        w.ncores = nc; w.n = nc * k; g_n = w.n; w.nnodes = nc >= 2 ? (int)c.range(1, std::min(3, nc)) : 1;
        bool inter = smt && c.flip();
        w.core_of.resize(w.n); w.node_of.resize(w.n); w.cores.assign(nc, {});
        for (int i = 0; i < w.n; ++i) { w.core_of[i] = inter ? i % nc : i / k; w.cores[w.core_of[i]].push_back(i); w.node_of[i] = w.core_of[i] * w.nnodes / nc; }
        cpu_set_t sys; CPU_ZERO(&sys); std::vector<cpu_set_t> cm(nc), nm(w.nnodes);
        for (auto &m : cm) CPU_ZERO(&m);
        for (auto &m : nm) CPU_ZERO(&m);
        for (int i = 0; i < w.n; ++i) { CPU_SET(i, &sys); CPU_SET(i, &cm[w.core_of[i]]); CPU_SET(i, &nm[w.node_of[i]]); }
        mu_testing_set_sys_masks(&sys, cm.data(), nc, nm.data(), w.nnodes);
        c.note("topology: %d cpus, %d cores of %d (%s), %d NUMA nodes", w.n, nc, k, inter ? "interleaved" : "contiguous", w.nnodes);
    }
    // disjoint whole-core masks
    void processes() {
        int np = std::min<int>(w.ncores, c.weighted({1, 6, 4, 2}) + 1); if (np < 1) np = 1;
        w.P.resize(np); std::vector<int> who(w.ncores, -1);
        for (int k = 0; k < w.ncores; ++k) who[k] = k < np ? k : (c.chance(1, 6) ? -1 : (int)c.draw(np));
        for (int k = w.ncores - 1; k > 0; --k) if (c.chance(1, 3)) std::swap(who[k], who[c.draw(k + 1)]);
        for (int k = 0; k < w.ncores; ++k) if (who[k] >= 0) for (int x : w.cores[k]) w.P[who[k]].mask[x] = 1;
        for (auto &p : w.P) { p.log = new Log; p.affinity = c.weighted({6, 2, 2, 2, 1}); p.keep = c.chance(1, 3); p.max = 0; }
    }
    bool any_alive() { for (auto &p : w.P) if (p.alive) return true; return false; }
    void init(int i) {
        Proc &p = w.P[i]; static const char *aff[] = {"auto", "mask", "nearby-first", "nearby-only", "spread-ifempty"};
        int maxopt = (prop == "C05" ? c.chance(1, 2) : c.chance(1, 12)) ? (int)c.range(1, w.n) : 0;
        char b[400]; snprintf(b, sizeof b, "--lewi --shm-key=%s --drom=no --talp=no --barrier=no --mode=%s --lewi-affinity=%s --lewi-keep-one-cpu=%s%s --lewi-max-parallelism=%d%s",
            key.c_str(), w.async ? "async" : "polling", aff[p.affinity], p.keep ? "yes" : "no", w.respect ? "" : " --lewi-respect-cpuset=no", maxopt, w.respect && w.pub ? " --debug-opts=lend-post-mortem" : "");
        if (!any_alive()) w.fresh();
        cpu_set_t m; to_cs(p.mask, &m); p.h = (subprocess_descriptor_t *)DLB_Init_sp(0, &m, b);
        PCHECK(c, p.h, "DLB_Init_sp failed for process #%d with mask %s", i, S(p.mask).c_str());
        p.pid = p.h->id; p.alive = p.enabled = true; p.max = maxopt; p.pending.reset(); p.thr[0] = p.thr[1] = Thr(); p.log->v.clear();
        w.priorities(p); if (w.async) w.queues = true;
        for (int x = 0; x < w.n; ++x) if (p.mask[x]) { Cpu &u = w.cpu[x]; u.owner = p.pid; u.state = BUSY; if (!u.guest) u.guest = p.pid; u.req.clear(); }
        DLB_CallbackSet_sp(p.h, dlb_callback_enable_cpu, (dlb_callback_t)cb_enable, p.log); DLB_CallbackSet_sp(p.h, dlb_callback_disable_cpu, (dlb_callback_t)cb_disable, p.log);
        if (cbkind == BOTH_CB) { DLB_CallbackSet_sp(p.h, dlb_callback_enable_cpu_set, (dlb_callback_t)cb_enable_set, p.log); DLB_CallbackSet_sp(p.h, dlb_callback_disable_cpu_set, (dlb_callback_t)cb_disable_set, p.log); }
        c.note("init #%d pid %d mask %s affinity %s max %d keep %d", i, p.pid, S(p.mask).c_str(), aff[p.affinity], maxopt, p.keep);
    }
    void compare(const char *op, int i, int rc, std::initializer_list<int> want, std::map<int, Events> ev) {
        bool ok = false; std::string ws; for (int x : want) { if (rc == x) ok = true; ws += std::to_string(x) + " "; }
        // events
        for (auto &p : w.P) if (p.alive) {
            Events want_e; if (ev.count(p.pid)) want_e = ev[p.pid];
            size_t k = want_e.e.count() + want_e.d.count();
            if (w.async && k) for (int spin = 0; spin < 4000; ++spin) { pthread_mutex_lock(&p.log->m); size_t have = p.log->v.size(); pthread_mutex_unlock(&p.log->m); if (have >= k) break; if (spin < 200) sched_yield(); else usleep(500); }
            pthread_mutex_lock(&p.log->m); auto v = p.log->v; p.log->v.clear(); pthread_mutex_unlock(&p.log->m);
            Set e, d; bool dup = false; for (auto &q : v) { Set &s = q.first == 'E' ? e : d; if (s[q.second]) dup = true; s[q.second] = 1; }
            PCHECK(c, e == want_e.e && d == want_e.d && !dup, "%s by #%d: process %d was told to enable %s and disable %s%s, expected %s and %s", op, i, p.pid, S(e).c_str(), S(d).c_str(), dup ? " (some twice)" : "", S(want_e.e).c_str(), S(want_e.d).c_str());
        }
        PCHECK(c, ok, "%s by #%d returned %d, expected one of %s", op, i, rc, ws.c_str());
        if (!any_alive()) return;
        for (auto &p : w.P) if (p.alive) { spd_enter_dlb(p.h); break; }
        Dump d = read_registry(key, w.n); bool owners = false; for (auto &u : w.cpu) if (u.owner) owners = true;
        if (!owners) return;
        PCHECK(c, d.printed, "%s: the registry prints nothing although processes are registered", op);
        for (int x = 0; x < w.n; ++x) {
            Cpu &u = w.cpu[x]; static const char *nm[] = {"disabled", "busy", "lent"};
            PCHECK(c, d.cpu[x][2] >= 0, "%s: CPU %d is not printed:\n%s", op, x, d.text.c_str());
            PCHECK(c, d.cpu[x][0] == u.owner && d.cpu[x][1] == u.guest && d.cpu[x][2] == u.state, "%s by #%d: CPU %d has owner %d guest %d state %s, expected owner %d guest %d state %s", op, i, x, d.cpu[x][0], d.cpu[x][1], nm[d.cpu[x][2]], u.owner, u.guest, nm[u.state]);
            if (w.async) PCHECK(c, d.req[x] == u.req, "%s by #%d: CPU %d has %zu requests queued (first %d), expected %zu (first %d)", op, i, x, d.req[x].size(), d.req[x].empty() ? 0 : d.req[x][0], u.req.size(), u.req.empty() ? 0 : u.req[0]);
        }
        if (w.async) {
            PCHECK(c, d.gq.size() == w.gq.size(), "%s by #%d: %zu process requests pending, expected %zu", op, i, d.gq.size(), w.gq.size());
            for (size_t k = 0; k < w.gq.size(); ++k) PCHECK(c, std::get<0>(d.gq[k]) == w.gq[k].pid && std::get<1>(d.gq[k]) == w.gq[k].howmany, "%s by #%d: process request %zu is (%d,%d), expected (%d,%d)", op, i, k, std::get<0>(d.gq[k]), std::get<1>(d.gq[k]), w.gq[k].pid, w.gq[k].howmany);
        }
        queries(op);
    }
    // C32: bindings and non-owned CPU queries against their definition
    void queries(const char *op) {
        if (prop != "C32") return;
        for (auto &p : w.P) if (p.alive) {
            std::vector<int> own, gst, non; size_t start = 0; bool any = false;
            for (int x = 0; x < w.n; ++x) { auto &u = w.cpu[x]; if (u.owner == p.pid && u.state == BUSY) own.push_back(x); else if (u.guest == p.pid) gst.push_back(x);
                if (u.owner == p.pid) { if (!any) start = non.size(); any = true; } else if (u.state != DISABLED) non.push_back(x); }
            auto all = own; all.insert(all.end(), gst.begin(), gst.end());
            for (int k = -1; k <= w.n; ++k) { int got = shmem_cpuinfo__get_thread_binding(p.pid, k), want = k >= 0 && k < (int)all.size() ? all[k] : -1; PCHECK(c, got == want, "%s: binding of thread %d of process %d is %d, expected %d", op, k, p.pid, got, want); }
            PCHECK(c, shmem_cpuinfo__get_number_of_non_owned_cpus(p.pid) == (int)non.size(), "%s: %d non-owned CPUs for process %d, expected %zu", op, shmem_cpuinfo__get_number_of_non_owned_cpus(p.pid), p.pid, non.size());
            for (int k = 0; k <= w.n; ++k) { int got = shmem_cpuinfo__get_nth_non_owned_cpu(p.pid, k), want = k < (int)non.size() ? non[(start + k) % non.size()] : -1; PCHECK(c, got == want, "%s: non-owned CPU %d of process %d is %d, expected %d", op, k, p.pid, got, want); }
        }
    }
    // independent safety rules, on the model the registry was just found equal to
    std::vector<Cpu> before;
    void invariants(const char *op, int i, bool counted) {
        for (int x = 0; x < w.n; ++x) {
            auto &u = w.cpu[x], &b = before[x];
            if (u.guest != b.guest && b.guest) ++transfers;
            if (u.guest && u.guest != b.guest && u.guest != u.owner) {
                ++gained;
                PCHECK(c, u.state == LENT, "%s by #%d: CPU %d was given to %d although its owner has not lent it", op, i, x, u.guest);
                if (w.smt) for (int k : w.cores[w.core_of[x]]) PCHECK(c, (w.cpu[k].guest == 0 || w.cpu[k].guest == u.guest) && !(w.cpu[k].state == BUSY && w.cpu[k].owner != u.guest), "%s by #%d: CPU %d was given to %d while CPU %d of the same core is used or owned by another", op, i, x, u.guest, k);
            }
        }
        if (w.async) for (int x = 0; x < w.n; ++x) if (w.cpu[x].guest == 0 && w.cpu[x].state == LENT) {
            for (int pid : w.cpu[x].req) PCHECK(c, !w.eligible(pid, x), "%s by #%d: CPU %d stays idle although process %d has asked for it", op, i, x, pid);
            for (auto &g : w.gq) PCHECK(c, !(g.allowed[x] && w.eligible(g.pid, x)), "%s by #%d: CPU %d stays idle although process %d has a request for %d CPUs", op, i, x, g.pid, g.howmany);
        }
        Proc &p = w.P[i];
        if (counted && p.alive && p.max) {
            int u = w.used(p.pid), was = 0; for (auto &b : before) was += b.guest == p.pid;
            int k = (int)w.cores[0].size();
            if (u > was) PCHECK(c, u < p.max + k, "%s by #%d: process uses %d CPUs with a maximum of %d", op, i, u, p.max);
        }
    }
    int anycpu() { return c.chance(1, 30) ? c.oneof<int>({-1, -7, w.n, w.n + 3, 1023, 1024, 5000, INT_MAX, INT_MIN}) : (int)c.draw(w.n); }
    Set anymask(const Proc &p) {
        Set m;
        switch (c.weighted({3, 4, 2, 2, 1})) {
            case 0: m = p.mask; break;
            case 1: for (int x = 0; x < w.n; ++x) m[x] = c.flip(); break;
            case 2: for (int x = 0; x < w.n; ++x) if (w.cpu[x].guest == p.pid) m[x] = 1; break;
            case 3: m[c.draw(w.n)] = 1; break;
            case 4: for (int x = 0; x < w.n; ++x) m[x] = 1; if (c.flip()) { m[w.n < 128 ? w.n : 127] = 1; m[127] = 1; m[100] = 1; } break;
        }
        return m;
    }
    int ncount() { return c.chance(1, 12) ? c.oneof<int>({0, -1, INT_MIN, INT_MAX, 1000000}) : (int)c.range(1, w.n + 1); }

    void finalize(int i) {
        Proc &p = w.P[i]; c.note("finalize #%d", i); int rc = DLB_Finalize_sp(p.h);
        w.drop_requests(p.pid, false);
        for (int x = 0; x < w.n; ++x) {
            Cpu &u = w.cpu[x];
            if (u.owner == p.pid) {
                if (w.pub) w.lend(p.pid, x);
                else { w.reclaim(p.pid, x); if (u.guest == p.pid) u.guest = 0; u.state = DISABLED; }
                u.owner = 0;
            } else if (u.guest == p.pid) w.lend(p.pid, x);
        }
        auto ev = w.resolve(p, false); p.alive = false;
        // the final deregistration drops what is left of the process
        w.drop_requests(p.pid, true);
        for (auto &u : w.cpu) if (u.guest == p.pid) u.guest = 0;
        compare("DLB_Finalize", i, rc, {DLB_SUCCESS}, ev);
        for (auto &u : w.cpu) PCHECK(c, u.guest != p.pid && u.owner != p.pid, "finalized process still in the model");
    }

    std::vector<std::pair<int, int>> plan; bool planned = false;          // (process, operation) still to be done, last first
    void blocking(int i, bool into) {
        Proc &p = w.P[i]; Set tm; int k = c.draw(2); Thr &t = p.thr[k];
        if (t.in == into) { k ^= 1; if (p.thr[k].in == into) return; }
        Thr &th = p.thr[k], &oth = p.thr[k ^ 1];
        if (into) {
            if (planned) { int q = c.draw(3); for (int x = 0; x < w.n; ++x) if (w.cpu[x].guest == p.pid && !p.mask[x] && (q || c.flip())) tm[x] = 1; } // borrowed CPUs only
            else switch (c.weighted({4, 3, 2, 2})) {
                case 0: { std::vector<int> v; for (int x = 0; x < w.n; ++x) if (w.cpu[x].guest == p.pid) v.push_back(x); if (v.empty()) v.push_back(c.draw(w.n)); tm[v[c.draw(v.size())]] = 1; break; }
                case 1: tm = p.mask; break;
                case 2: for (int x = 0; x < w.n; ++x) if (w.cpu[x].guest == p.pid) tm[x] = 1; break;
                case 3: for (int x = 0; x < w.n; ++x) if ((p.mask[x] || w.cpu[x].guest == p.pid) && c.flip()) tm[x] = 1; break;
            }
            if (tm.none()) tm = p.mask;
            if (oth.in) tm &= ~oth.mask;
            if (tm.none()) return;
            th.in = true; th.mask = tm; th.lewi = !c.chance(1, 8);
        } else { tm = th.mask; th.in = false; }
        sync_call_flags_t f = {}; f.is_mpi = true; f.is_blocking = true; f.is_collective = c.flip(); f.do_lewi = th.lewi;
        bool observer = c.chance(1, 12);
        to_cs(tm, &fake_affinity); use_fake = true; spd_enter_dlb(p.h); set_observer_role(observer);
        if (into) into_sync_call(f); else out_of_sync_call(f);
        set_observer_role(false); use_fake = false; ever_blocked = true;
        c.note("%s #%d thread mask %s lewi=%d observer=%d", into ? "into" : "out", i, S(tm).c_str(), f.do_lewi, observer);
        std::map<int, Events> ev;
        if (p.enabled && f.do_lewi && !observer) {
            Set m = tm; if (p.keep) for (int x = 0; x < w.n; ++x) if (m[x]) { for (int k : w.cores[w.core_of[x]]) m[k] = 0; break; }
            if (into) {
                if (m.any()) { for (int x = 0; x < w.n; ++x) if (m[x]) w.lend(p.pid, x); if (w.async) ev = w.resolve(p); else w.tasks.clear(); p.pending &= ~m; }
            } else if (m.any()) {
                Set own = m & p.mask, non = m & ~p.mask;
                if (own.any()) {
                    std::vector<int> l; for (int x = 0; x < w.n; ++x) if (own[x]) l.push_back(x); int big = INT_MAX; w.over(0, p.pid, l, big);
                    if (w.async) { std::vector<Task> k; for (auto &t : w.tasks) if (!t.en) k.push_back(t); w.tasks = k; ev = w.resolve(p); } else w.tasks.clear();
                } else {
                    Set lost; for (int x = 0; x < w.n; ++x) if (non[x]) { if (w.cpu[x].guest == p.pid) continue; if (w.borrow(p.pid, x) != DLB_SUCCESS) lost[x] = 1; }
                    w.tasks.clear();
                    if (w.async) { if (lost.any()) ev[p.pid].d = lost; } else { p.pending &= ~non; p.pending |= lost; }
                }
            }
        }
        compare(into ? "entering a blocking call" : "leaving a blocking call", i, 0, {0}, ev);
    }

    void step() {
        std::vector<int> alive; for (size_t k = 0; k < w.P.size(); ++k) if (w.P[k].alive) alive.push_back(k);
        std::vector<int> dead; for (size_t k = 0; k < w.P.size(); ++k) if (!w.P[k].alive) dead.push_back(k);
        unsigned W[] = {3, 5, 5, 4, 4, 4, 3, 4, 4, 3, 3, 5, 5, 4, 3, 3, 5, 4, 4, 2, 2, 1, 2, 2, 1, 4, 4, 0, 1};
        if (prop == "C02") { W[8] += 8; W[9] += 8; W[11 - 1] += 2; W[1] += 3; W[2] += 3; }
        if (prop == "C03") { W[4] += 4; W[5] += 3; W[6] += 3; W[7] += 3; W[16] += 5; W[23] += 4; W[24] += 2; W[11] += 4; W[19] += 3; }
        if (prop == "C04") { W[5] += 4; W[1] += 3; W[12] += 3; }
        if (prop == "C05") { W[20] += 8; W[21] += 3; W[9] += 4; W[13] += 4; W[11] += 4; }
        if (prop == "C06") { W[25] = 30; W[26] = 30; W[11] += 4; W[16] += 6; }
        else { W[25] = W[26] = prop == "C03" ? 4 : 1; }
        if (alive.empty()) { init(dead[c.draw(dead.size())]); return; }
        if (alive.size() < 2 && !dead.empty() && c.chance(1, 3)) { init(dead[c.draw(dead.size())]); return; }
        if (prop == "C06" && plan.empty() && alive.size() > 1 && c.chance(1, 6)) { // CPUs lost while their threads are in blocking calls, and returned afterwards
            int a = c.draw(alive.size()), b = (a + 1 + c.draw(alive.size() - 1)) % alive.size(); a = alive[a]; b = alive[b]; auto add = [&](int q, int op) { plan.push_back({q, op}); };
            add(b, c.flip() ? 0 : 2); add(a, c.weighted({3, 1, 1}) ? 13 : 11); add(a, 25); if (c.flip()) add(a, 25); int k = c.range(1, 2); for (int q = 0; q < k; ++q) add(b, c.oneof<int>({3, 5, 5, 6, 7})); if (c.chance(1, 3)) { add(b, 1); add(alive[c.draw(alive.size())], 11); } add(a, 26); if (c.flip()) add(b, c.oneof<int>({1, 5, 7})); add(a, 26);
            k = c.range(0, 3); for (int q = 0; q < k; ++q) add(a, c.oneof<int>({16, 17, 17, 18, 11, 2})); std::reverse(plan.begin(), plan.end()); }
        int i = alive[c.draw(alive.size())]; unsigned tot = 0; for (unsigned x : W) tot += x; unsigned r = c.draw(tot); int op = 0; while (r >= W[op]) r -= W[op++];
        planned = false; while (!plan.empty()) { auto q = plan.back(); plan.pop_back(); if (!w.P[q.first].alive) continue; i = q.first; op = q.second; planned = true; break; } Proc &p = w.P[i];
        before = w.cpu; bool en = p.enabled; int rc; cpu_set_t cs; std::map<int, Events> none; bool counted = false; const char *name = "?";
        auto dis = [&](const char *nm) { compare(nm, i, rc, {DLB_ERR_DISBLD}, none); if (c.chance(1, 2)) { rc = DLB_Enable_sp(p.h); p.enabled = true; c.note("#%d Enable -> %d", i, rc); compare("DLB_Enable", i, rc, {DLB_SUCCESS}, none); } };
        auto inr = [&](int x) { return x >= 0 && x < w.n; };
        switch (op) {
            case 0: name = "DLB_Lend"; rc = DLB_Lend_sp(p.h); c.note("#%d Lend -> %d", i, rc); if (!en) { dis(name); return; }
                for (int x = 0; x < w.n; ++x) w.lend(p.pid, x); p.pending.reset();
                { std::map<int, Events> ev; if (w.async) ev = w.resolve(p); else w.tasks.clear(); compare(name, i, rc, {DLB_SUCCESS}, ev); } break;
            case 1: { name = "DLB_LendCpu"; int x = anycpu(); rc = DLB_LendCpu_sp(p.h, x); c.note("#%d LendCpu %d -> %d", i, x, rc); if (!en) { dis(name); return; }
                if (!inr(x)) { compare(name, i, rc, {DLB_ERR_PERM}, none); break; }
                w.lend(p.pid, x); p.pending[x] = 0; std::map<int, Events> ev; if (w.async) ev = w.resolve(p); else w.tasks.clear(); compare(name, i, rc, {DLB_SUCCESS}, ev); break; }
            case 2: { name = "DLB_LendCpuMask"; Set m = anymask(p); to_cs(m, &cs); rc = DLB_LendCpuMask_sp(p.h, &cs); c.note("#%d LendCpuMask %s -> %d", i, S(m).c_str(), rc); if (!en) { dis(name); return; }
                for (int x = 0; x < w.n; ++x) if (m[x]) w.lend(p.pid, x); p.pending &= ~m; std::map<int, Events> ev; if (w.async) ev = w.resolve(p); else w.tasks.clear(); compare(name, i, rc, {DLB_SUCCESS}, ev); break; }
            case 3: case 4: case 7: { Set m = op == 7 ? anymask(p) : p.mask; if (op == 7) { name = "DLB_ReclaimCpuMask"; to_cs(m, &cs); rc = DLB_ReclaimCpuMask_sp(p.h, &cs); } else { name = "DLB_Reclaim"; rc = DLB_Reclaim_sp(p.h); }
                c.note("#%d %s %s -> %d", i, name, S(m).c_str(), rc); if (!en) { dis(name); return; }
                int err = DLB_NOUPDT; bool foreign = false;
                for (int x = 0; x < 128; ++x) if (m[x]) { if (x >= w.n) { continue; } int e = w.reclaim(p.pid, x); if (e == DLB_ERR_PERM) foreign = true; else if (e == DLB_NOTED) err = DLB_NOTED; else if (e == DLB_SUCCESS && err == DLB_NOUPDT) err = DLB_SUCCESS; }
                auto ev = w.resolve(p); if (foreign) compare(name, i, rc, {err, DLB_ERR_PERM}, ev); else compare(name, i, rc, {err}, ev);
                for (int x = 0; x < w.n; ++x) if (m[x] && p.mask[x]) PCHECK(c, w.cpu[x].state == BUSY, "CPU %d not recovered", x); break; }
            case 5: { name = "DLB_ReclaimCpu"; int x = anycpu(); rc = DLB_ReclaimCpu_sp(p.h, x); c.note("#%d ReclaimCpu %d -> %d", i, x, rc); if (!en) { dis(name); return; }
                if (!inr(x)) { compare(name, i, rc, {DLB_ERR_PERM}, none); break; }
                int e = w.reclaim(p.pid, x); if (e == DLB_NOTED && w.smt) for (int k : w.cores[w.core_of[x]]) if (k != x && w.cpu[k].guest && w.cpu[k].guest != p.pid) w.t(false, w.cpu[k].guest, k);
                auto ev = w.resolve(p); compare(name, i, rc, {e}, ev); break; }
            case 6: { name = "DLB_ReclaimCpus"; int k = ncount(); rc = DLB_ReclaimCpus_sp(p.h, k); c.note("#%d ReclaimCpus %d -> %d", i, k, rc); if (!en) { dis(name); return; }
                int err = DLB_NOUPDT, left = k; for (int q = 0; q < w.ncores && left > 0; ++q) for (int x : w.cores[q]) { int e = w.reclaim(p.pid, x); if (e == DLB_SUCCESS || e == DLB_NOTED) { --left; if (err != DLB_NOTED) err = e; } else if (w.cpu[x].guest == p.pid) continue; else break; }
                auto ev = w.resolve(p); compare(name, i, rc, {err}, ev); break; }
            case 8: { name = "DLB_AcquireCpu"; int x = anycpu(); rc = DLB_AcquireCpu_sp(p.h, x); c.note("#%d AcquireCpu %d -> %d", i, x, rc); if (!en) { dis(name); return; }
                if (!inr(x)) { compare(name, i, rc, {DLB_ERR_PERM}, none); break; }
                int e = w.acquire(p.pid, x); auto ev = w.resolve(p); compare(name, i, rc, {e}, ev); break; }
            case 9: { name = "DLB_AcquireCpus"; int k = ncount(); rc = DLB_AcquireCpus_sp(p.h, k); c.note("#%d AcquireCpus %d -> %d", i, k, rc); if (!en) { dis(name); return; }
                int e = DLB_NOUPDT; if (k == 0) { w.drop_requests(p.pid, true); e = DLB_SUCCESS; } else if (k > 0) { e = w.acquire_n(p, k, nullptr); counted = true; }
                auto ev = w.resolve(p); compare(name, i, rc, {e}, ev); break; }
            case 10: { name = "DLB_AcquireCpuMask"; Set m = anymask(p); to_cs(m, &cs); rc = DLB_AcquireCpuMask_sp(p.h, &cs); c.note("#%d AcquireCpuMask %s -> %d", i, S(m).c_str(), rc); if (!en) { dis(name); return; }
                int e = w.acquire_n(p, 0, &m); counted = true; auto ev = w.resolve(p); compare(name, i, rc, {e}, ev); break; }
            case 27: case 28: { name = "DLB_AcquireCpusInMask"; Set m = anymask(p); int k = c.range(1, w.n); to_cs(m, &cs); rc = DLB_AcquireCpusInMask_sp(p.h, k, &cs); c.note("#%d AcquireCpusInMask %d %s -> %d", i, k, S(m).c_str(), rc); if (!en) { dis(name); return; }
                int e = w.acquire_n(p, k, &m); counted = true; auto ev = w.resolve(p); compare(name, i, rc, {e}, ev); break; }
            case 11: { name = "DLB_Borrow"; rc = DLB_Borrow_sp(p.h); c.note("#%d Borrow -> %d", i, rc); if (!en) { dis(name); return; }
                int e = w.borrow_n(p, 0, nullptr); counted = true; auto ev = w.resolve(p); compare(name, i, rc, {e}, ev); break; }
            case 12: { name = "DLB_BorrowCpu"; int x = anycpu(); rc = DLB_BorrowCpu_sp(p.h, x); c.note("#%d BorrowCpu %d -> %d", i, x, rc); if (!en) { dis(name); return; }
                if (!inr(x)) { compare(name, i, rc, {DLB_ERR_PERM}, none); break; }
                int e = w.borrow(p.pid, x); auto ev = w.resolve(p); compare(name, i, rc, {e}, ev); break; }
            case 13: { name = "DLB_BorrowCpus"; int k = ncount(); rc = DLB_BorrowCpus_sp(p.h, k); c.note("#%d BorrowCpus %d -> %d", i, k, rc); if (!en) { dis(name); return; }
                int e = k > 0 ? w.borrow_n(p, k, nullptr) : DLB_NOUPDT; counted = true; auto ev = w.resolve(p); compare(name, i, rc, {e}, ev); break; }
            case 14: case 15: { Set m = anymask(p); if (p.affinity == 4) m.set(); int k = op == 14 ? 0 : (int)c.range(1, w.n); to_cs(m, &cs);
                if (op == 14) { name = "DLB_BorrowCpuMask"; rc = DLB_BorrowCpuMask_sp(p.h, &cs); } else { name = "DLB_BorrowCpusInMask"; rc = DLB_BorrowCpusInMask_sp(p.h, k, &cs); }
                c.note("#%d %s %d %s -> %d", i, name, k, S(m).c_str(), rc); if (!en) { dis(name); return; }
                int e = w.borrow_n(p, k, &m); counted = true; auto ev = w.resolve(p); compare(name, i, rc, {e}, ev); break; }
            case 16: case 18: { Set m; m.set(); if (op == 18) { m = anymask(p); to_cs(m, &cs); name = "DLB_ReturnCpuMask"; rc = DLB_ReturnCpuMask_sp(p.h, &cs); } else { name = "DLB_Return"; rc = DLB_Return_sp(p.h); }
                c.note("#%d %s %s -> %d", i, name, op == 18 ? S(m).c_str() : "", rc); if (!en) { dis(name); return; }
                if (w.async) { compare(name, i, rc, {DLB_ERR_NOCOMP}, none); break; }
                int err = DLB_NOUPDT; for (int x = 0; x < w.n; ++x) if (m[x] && w.ret(p.pid, x) == DLB_SUCCESS) err = DLB_SUCCESS;
                auto ev = w.resolve(p); Set pr = p.pending & m; bool any = p.pending.any(); if (pr.any()) { ev[p.pid].d |= pr; p.pending &= ~pr; err = DLB_SUCCESS; }
                if (any && pr.none() && op == 18) compare(name, i, rc, {err, DLB_SUCCESS}, ev); else compare(name, i, rc, {err}, ev);
                for (int x = 0; x < w.n; ++x) if (m[x]) PCHECK(c, !(w.cpu[x].state == BUSY && w.cpu[x].owner != p.pid && w.cpu[x].guest == p.pid), "CPU %d not returned", x); break; }
            case 17: { name = "DLB_ReturnCpu"; int x = anycpu(); rc = DLB_ReturnCpu_sp(p.h, x); c.note("#%d ReturnCpu %d -> %d", i, x, rc); if (!en) { dis(name); return; }
                if (w.async) { compare(name, i, rc, {DLB_ERR_NOCOMP}, none); break; }
                if (!inr(x)) { compare(name, i, rc, {DLB_ERR_PERM}, none); break; }
                int e; std::map<int, Events> ev; if (w.cpu[x].guest != p.pid) { e = DLB_ERR_PERM; if (p.pending[x]) { p.pending[x] = 0; ev[p.pid].d[x] = 1; e = DLB_SUCCESS; } } else { e = w.ret(p.pid, x); ev = w.resolve(p); }
                compare(name, i, rc, {e}, ev); break; }
            case 19: { name = "DLB_CheckCpuAvailability"; int x = anycpu(); rc = DLB_CheckCpuAvailability_sp(p.h, x); c.note("#%d CheckCpuAvailability %d -> %d", i, x, rc); if (!en) { dis(name); return; }
                if (!inr(x)) { compare(name, i, rc, {DLB_ERR_PERM}, none); break; }
                Cpu &u = w.cpu[x]; int e = DLB_NOTED;
                if (u.owner != p.pid && u.state != LENT) e = DLB_ERR_PERM; else if (u.guest == p.pid) e = DLB_SUCCESS; else if (u.guest == 0) { if (u.owner == p.pid || w.eligible(p.pid, x)) { u.guest = p.pid; if (u.owner == p.pid) u.state = BUSY; e = DLB_SUCCESS; } } else if (u.owner == p.pid && u.state == LENT) e = DLB_NOUPDT;
                compare(name, i, rc, {e}, none); break; }
            case 20: { name = "DLB_SetMaxParallelism"; int k = c.chance(1, 10) ? c.oneof<int>({0, -1, INT_MIN}) : (int)c.range(1, w.n); rc = DLB_SetMaxParallelism_sp(p.h, k); c.note("#%d SetMaxParallelism %d -> %d", i, k, rc); if (!en) { dis(name); return; }
                std::map<int, Events> ev; if (k > 0) {
                    p.max = k; if (w.queues) w.drop_requests(p.pid, false); int own = 0; std::vector<int> g;
                    for (int x = 0; x < w.n; ++x) { if (w.cpu[x].owner == p.pid) { ++own; if (k < own && (w.cpu[x].guest == p.pid || w.cpu[x].state == BUSY)) { w.lend(p.pid, x); w.t(false, p.pid, x); } } else if (w.cpu[x].guest == p.pid) g.push_back(x); }
                    for (size_t q = 0; q < g.size(); ++q) if (k < own + (int)q + 1) { w.lend(p.pid, g[q]); w.t(false, p.pid, g[q]); }
                    ev = w.resolve(p); PCHECK(c, w.used(p.pid) <= k, "process uses %d CPUs after setting the maximum to %d", w.used(p.pid), k); }
                compare(name, i, rc, {DLB_SUCCESS}, ev); break; }
            case 21: name = "DLB_UnsetMaxParallelism"; rc = DLB_UnsetMaxParallelism_sp(p.h); c.note("#%d UnsetMaxParallelism -> %d", i, rc); if (!en) { dis(name); return; } p.max = 0; compare(name, i, rc, {DLB_SUCCESS}, none); break;
            case 22: { name = "DLB_Disable"; rc = DLB_Disable_sp(p.h); c.note("#%d Disable -> %d", i, rc); if (!en) { compare(name, i, rc, {DLB_NOUPDT}, none); break; }
                p.enabled = false; w.drop_requests(p.pid, false);
                for (int x = 0; x < w.n; ++x) { if (w.cpu[x].owner == p.pid) w.reclaim(p.pid, x); else if (w.cpu[x].guest == p.pid) { w.lend(p.pid, x); w.t(false, p.pid, x); } }
                auto ev = w.resolve(p); compare(name, i, rc, {DLB_SUCCESS}, ev);
                for (int x = 0; x < w.n; ++x) { if (p.mask[x]) PCHECK(c, w.cpu[x].state == BUSY, "CPU %d not recovered by disable", x); else PCHECK(c, w.cpu[x].guest != p.pid, "CPU %d kept after disable", x); } break; }
            case 23: if (!en) { name = "DLB_Enable"; rc = DLB_Enable_sp(p.h); c.note("#%d Enable -> %d", i, rc); p.enabled = true; compare(name, i, rc, {DLB_SUCCESS}, none); } else { if (c.chance(1, 2)) { finalize(i); name = "DLB_Finalize"; } else { rc = DLB_Enable_sp(p.h); compare("DLB_Enable", i, rc, {DLB_NOUPDT}, none); } } break;
            case 24: if (!dead.empty()) { init(dead[c.draw(dead.size())]); before = w.cpu; } break;
            case 25: blocking(i, true); break;
            case 26: blocking(i, false); break;
        }
        invariants(name, i, counted);
    }
    void go() {
        key = c.key;
        topology();
        w.async = prop == "C02" ? true : prop == "C01" ? false : c.chance(prop == "C03" ? 1 : 1, 3);
        cbkind = c.flip() ? BOTH_CB : ONE_CB;
        int av = c.weighted({8, 2, 2}); if (av == 1) { w.pub = true; } else if (av == 2) { w.pub = true; w.respect = false; }
        processes();
        for (size_t k = 0; k < w.P.size(); ++k) if (k == 0 || !c.chance(1, 6)) init(k);
        before = w.cpu; { std::map<int, Events> none; compare("DLB_Init", 0, 0, {0}, none); }
        int steps = c.len(1, 45); for (int s = 0; s < steps; ++s) step();
        for (auto &p : w.P) if (p.alive && w.async) shmem_async_wait_for_completion(p.pid);
        { std::map<int, Events> none; if (any_alive()) compare("end of history", 0, 0, {0}, none); }
        for (size_t k = 0; k < w.P.size(); ++k) if (w.P[k].alive) finalize(k);
        c.label("%s", w.async ? "async" : "polling"); if (w.smt) c.label("smt"); if (w.pub) c.label("post-mortem"); if (!w.respect) c.label("no-cpuset"); if (ever_blocked) c.label("blocking calls");
        if (gained && transfers > 2 && (prop != "C06" || ever_blocked)) c.nontrivial();
    }
};

int main(int argc, char **argv) {
    std::string prop = "C01"; std::vector<char *> av; for (int i = 0; i < argc; ++i) { if (!strcmp(argv[i], "--prop")) prop = argv[++i]; else av.push_back(argv[i]); }
    pbt::Options o; o.property = strdup(prop.c_str());
    o.quick_cases = 6000; o.thorough_cases = 200000; o.quick_cap_s = 150; o.case_timeout = 40;
    o.assumptions = {"subprocess descriptors of one real process stand for the processes of a node; calls of different processes are interleaved but not simultaneous",
        "disjoint process masks of whole cores"};
    return pbt::run((int)av.size(), av.data(), o, [&](Ctx &c) { Run r(c, prop); r.go(); });
}
