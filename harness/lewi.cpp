// C07 / C08: count-based LeWI (classic and asynchronous), several real processes, against a model of the counts.
#include "rpc.hpp"
extern "C" {
#include "apis/dlb.h"
#include "LB_core/spd.h"
#include "LB_core/DLB_kernel.h"
#include "LB_comm/shmem_async.h"
#include "support/mask_utils.h"
int __real_pthread_mutex_lock(pthread_mutex_t *);
}
using pbt::Ctx; using rpc::Msg; typedef int64_t i64;
extern "C" void yrt_set(int, int, unsigned) __attribute__((weak)); // present when the library is built to delay its memory accesses
static thread_local unsigned jit; static int jprob, jmax;
extern "C" int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { if (jprob) { jit = jit * 1664525u + 1013904223u + (unsigned)(uintptr_t)&jit; if ((int)(jit >> 24) < jprob) usleep((jit >> 8 & 0xffff) % jmax); } return __real_pthread_mutex_lock(m); }

enum { INIT = 1, FIN, LEND, LENDN, RECLAIM, BORROW, BORROWN, ACQ, SETMAX, UNSETMAX, DISABLE, ENABLE, INTO, OUT, STAT, STORM, OTHER };
static const char *ON[] = {"", "Init", "Finalize", "Lend", "LendCpus", "Reclaim", "Borrow", "BorrowCpus", "AcquireCpus", "SetMaxParallelism", "UnsetMaxParallelism", "Disable", "Enable", "into blocking call", "out of blocking call", "", "", ""};
static volatile int ncb, lastcb; static bool g_async, ready; static int badarg; static int cookie;
static void cb(int n, void *a) { if (a != &cookie) badarg = 1; lastcb = n; __sync_synchronize(); ncb = ncb + 1; }
static sync_call_flags_t fl() { sync_call_flags_t f = {}; f.is_mpi = true; f.is_blocking = true; f.do_lewi = true; return f; }
static int doop(int op, int v) {
    switch (op) { case LEND: return DLB_Lend(); case LENDN: return DLB_LendCpus(v); case RECLAIM: return DLB_Reclaim(); case BORROW: return DLB_Borrow(); case BORROWN: return DLB_BorrowCpus(v); case ACQ: return DLB_AcquireCpus(v); case SETMAX: return DLB_SetMaxParallelism(v); case UNSETMAX: return DLB_UnsetMaxParallelism(); case DISABLE: return DLB_Disable(); case ENABLE: return DLB_Enable(); case INTO: into_sync_call(fl()); return 0; case OUT: out_of_sync_call(fl()); return 0; }
    return -99;
}
static Msg handle(const Msg &m) {
    Msg r; int e = 0; switch (m.op) {
        case INIT: e = DLB_Init(m.v[0], NULL, m.s.c_str()); if (!e) { DLB_CallbackSet(dlb_callback_set_num_threads, (dlb_callback_t)cb, &cookie); ready = true; } ncb = 0; lastcb = m.v[0]; break;
        case FIN: if (g_async) shmem_async_wait_for_completion(thread_spd->id); e = DLB_Finalize(); ready = false; break;
        case STAT: if (g_async && ready) shmem_async_wait_for_completion(thread_spd->id); break;
        case STORM: { unsigned x = m.v[0]; bool in = false; jprob = m.v[4]; jmax = m.v[5]; if (yrt_set) yrt_set(m.v[6], m.v[7], x); auto rnd = [&](int k) { x = x * 1664525u + 1013904223u; return (int)((x >> 12) % k); };
            for (int k = 0; k < m.v[1]; ++k) { if (m.v[2] && rnd(8) == 0) usleep(rnd(60)); if (in) { doop(OUT, 0); in = false; continue; } switch (rnd(8)) { case 0: doop(LEND, 0); break; case 1: doop(RECLAIM, 0); break; case 2: doop(BORROW, 0); break; case 3: doop(BORROWN, 1 + rnd(3)); break; case 4: if (g_async) doop(ACQ, 1 + rnd(4)); else doop(SETMAX, 1 + rnd(4)); break; case 5: if (g_async) doop(LENDN, 1 + rnd(2)); else doop(UNSETMAX, 0); break; case 6: if (rnd(4) == 0) { doop(DISABLE, 0); doop(ENABLE, 0); } else { doop(INTO, 0); in = true; } break; case 7: if (!g_async || rnd(2)) doop(BORROWN, 2); else doop(ACQ, 0); break; } }
            if (in) doop(OUT, 0); jprob = 0; if (yrt_set) yrt_set(0, 1, 1); if (g_async) doop(ACQ, 0); else doop(UNSETMAX, 0); break; }
        case OTHER: e = m.v[0] == 0 ? DLB_LendCpu(0) : m.v[0] == 1 ? DLB_ReclaimCpus(1) : m.v[0] == 2 ? DLB_AcquireCpu(0) : m.v[0] == 3 ? DLB_Return() : m.v[0] == 4 ? (g_async ? DLB_SetMaxParallelism(2) : DLB_LendCpus(1)) : (g_async ? DLB_UnsetMaxParallelism() : DLB_AcquireCpus(1)); break;
        default: e = doop(m.op, m.v.empty() ? 0 : m.v[0]);
    }
    r.v = {e, ncb, lastcb, badarg}; return r;
}
struct Peer { bool in = false, en = true, blk = false, keep = false, greedy = false; int def = 0, my = 0, maxp = 0, req = 0, prev = 0; int ncb = 0, told = 0; };
static std::string g_prop;
struct World {
    Ctx &c; rpc::Pool P; int np, n; std::vector<Peer> q; int idle = 0; bool as; int changes = 0, moved = 0;
    World(Ctx &cc) : c(cc), P(cc) {}
    int total() { int t = 0; for (auto &p : q) if (p.in) t += p.def; return t; }
    int clampn(int v) { return v < 1 ? 1 : v > n ? n : v; }
    int attached() { int k = 0; for (auto &p : q) k += p.in; return k; }
    void init(int i) {
        auto &p = q[i]; int d = c.range(1, std::max(1, std::min(6, n - total()))); if (total() + d > n) return; p = Peer(); p.in = true; p.def = p.my = d; p.keep = c.flip(); p.greedy = !as && c.chance(1, 3); p.told = d;
        std::string a = "--shm-key=" + c.key + " --quiet=yes --barrier=no --lewi --lewi-affinity=none" + (p.keep ? " --lewi-keep-one-cpu=yes" : " --lewi-keep-one-cpu=no") + (p.greedy ? " --lewi-greedy" : "") + (as ? " --mode=async" : "");
        auto r = P.call(i, Msg(INIT, {d}, a)); c.note("process %d: Init with %d CPUs%s%s -> %ld", i, d, p.keep ? ", keep one" : "", p.greedy ? ", greedy" : "", (long)r.v[0]); PCHECK(c, r.v[0] == 0, "Init returned %ld", (long)r.v[0]);
    }
    // what each process was told since the last call, itself included
    void settle(int i, const char *what, bool fin = false) {
        (void)i; int used = 0; for (int j = 0; j < np; ++j) { auto &p = q[j]; if (!p.in) continue; auto r = P.call(j, Msg(STAT)); PCHECK(c, !r.v[3], "callback called with another argument"); p.ncb = r.v[1]; p.told = r.v[2]; used += p.my; }
        int sum = used + idle; PCHECK(c, sum == total(), "harness: model uses %d of %d", sum, total());
        for (int j = 0; j < np; ++j) { auto &p = q[j]; if (p.in) PCHECK(c, p.told == clampn(p.my), "%s: process %d was last told %d CPUs, it has %d", what, j, p.told, p.my); }
    }
    // the processes whose count changed because of a call of process i: k CPUs given to requests (or, negative, taken from the surplus)
    void others(int i, int k, const char *what) {
        int left = k; std::string d; for (int j = 0; j < np; ++j) { auto &p = q[j]; if (!p.in || j == i) continue; auto r = P.call(j, Msg(STAT)); PCHECK(c, !r.v[3], "callback called with another argument"); if (r.v[1] == p.ncb) continue; p.ncb = r.v[1]; p.told = r.v[2]; int dl = p.told - p.my; if (!dl) continue;
            d += pbt_s(" %d:%+d", j, dl); PCHECK(c, k > 0 ? dl > 0 && dl <= p.req : dl < 0 && -dl <= p.my - p.def, "%s: process %d went from %d to %d CPUs (initially %d, requests %d)", what, j, p.my, p.told, p.def, p.req); if (k > 0) p.req -= dl; else p.req += -dl; p.my = p.told; left -= dl; ++moved; }
        PCHECK(c, left == 0, "%s: %d CPUs should %s other processes; changes:%s", what, std::abs(k), k > 0 ? "go to" : "come from", d.empty() ? " none" : d.c_str());
    }
    static std::string pbt_s(const char *f, int a, int b) { char s[64]; snprintf(s, sizeof s, f, a, b); return s; }
    int reqs(int i) { int t = 0; for (int j = 0; j < np; ++j) if (j != i && q[j].in) t += q[j].req; return t; }
    int surplus(int i) { int t = 0; for (int j = 0; j < np; ++j) if (j != i && q[j].in) t += std::max(0, q[j].my - q[j].def); return t; }
    void give(int i, int k, const char *w) { int g = std::min(k, reqs(i)); idle += k - g; others(i, g, w); }
    void take(int i, int k, const char *w) { others(i, -k, w); (void)i; }
    // asynchronous policy: effect of lending down to `left`
    int a_lend(int i, int left, const char *w) { auto &p = q[i]; if (left > p.my) return DLB_ERR_PERM; if (left == p.my) return DLB_NOUPDT; int k = p.my - left, ex = std::min(std::max(0, p.my - p.def), k), pr = ex + p.req; p.req = 0; p.my = left; if (pr) p.prev = pr; give(i, k, w); return 0; }
    void a_restore(int i, const char *w) { auto &p = q[i]; int r = p.def - p.my, b = std::min(idle, r); idle -= b; p.my += r; take(i, r - b, w); }
    int a_reclaim(int i, const char *w) { auto &p = q[i]; if (p.my >= p.def) return DLB_NOUPDT; a_restore(i, w); int g = std::min(idle, p.prev); idle -= g; p.my += g; p.req += p.prev - g; p.prev = 0; return 0; }
    int a_acquire(int i, int k, const char *w) { auto &p = q[i]; k += p.prev; p.prev = 0; int b = std::min(idle, k); idle -= b; p.my += b; k -= b; int r = std::min(k, std::max(0, p.def - p.my)); p.my += r; k -= r; take(i, r, w); p.req += k; return k ? DLB_NOTED : 0; }
    void a_reset(int i, const char *w) { auto &p = q[i]; int pr = p.req; p.req = 0; if (p.my > p.def) { int k = p.my - p.def; pr += k; p.my = p.def; give(i, k, w); } else if (p.my < p.def) a_restore(i, w); if (pr) p.prev = pr; }
    // classic policy
    void c_acquire(int i) { auto &p = q[i]; idle -= p.def - p.my; p.my = p.def; if (idle > 0 && p.greedy) { p.my += idle; idle = 0; } }
    bool op(int i, int o, int v) {
        auto &p = q[i]; int before = p.my; char w[96]; snprintf(w, sizeof w, o == BORROWN || o == LENDN || o == ACQ || o == SETMAX ? "process %d: %s(%d)" : "process %d: %s", i, ON[o], v);
        if (o == LEND && p.my == 0 && !as) return false; int n0 = p.ncb; auto r = P.call(i, Msg(o, {v})); c.note("%s -> %ld", w, (long)r.v[0]); int ex = 0; bool dis = !p.en;
        int told = r.v[2];
        if (o == DISABLE || o == ENABLE) { if (p.en == (o == ENABLE)) ex = DLB_NOUPDT; else { p.en = o == ENABLE; if (as) { if (p.en) { if (p.prev > 0) a_acquire(i, 0, w); } else a_reset(i, w); } else if (!p.en) { idle += p.my - p.def; p.my = p.def; } } }
        else if (o == INTO || o == OUT) { p.blk = o == INTO; if (p.en) { if (as) { if (o == INTO) a_lend(i, p.keep ? 1 : 0, w); else a_reclaim(i, w); } else if (o == INTO) { int l = p.keep ? 1 : 0; idle += p.my - l; p.my = l; } else c_acquire(i); } }
        else if (dis) ex = DLB_ERR_DISBLD;
        else if (as) switch (o) {
            case LEND: ex = a_lend(i, 1, w); break;
            case LENDN: ex = v < 0 ? DLB_ERR_PERM : v == 0 ? DLB_NOUPDT : v > p.my ? DLB_ERR_PERM : a_lend(i, p.my - v, w); break;
            case RECLAIM: ex = a_reclaim(i, w); break;
            case BORROW: case BORROWN: { int k = o == BORROW ? INT_MAX : v; int b = k <= 0 ? 0 : std::min(idle, k); idle -= b; p.my += b; ex = b ? 0 : DLB_NOUPDT; break; }
            case ACQ: if (v == 0) { p.req = p.prev = 0; } else if (v > 0) ex = a_acquire(i, v, w); else ex = 999; break;
        } else switch (o) {
            case LEND: idle += p.my - 1; p.my = 1; break;
            case RECLAIM: c_acquire(i); break;
            case BORROW: case BORROWN: { int k = o == BORROW ? INT_MAX : v; if (k <= 0) { ex = DLB_NOUPDT; break; } if (p.maxp > 0) k = std::min(k, std::max(0, p.maxp - p.my)); int m = p.my; if (idle < 0 && p.my > p.def) { int x = std::min(-idle, p.my - p.def); idle += x; p.my -= x; } else if (idle > 0) { int x = std::min(idle, k); idle -= x; p.my += x; } ex = p.my != m ? 0 : DLB_NOUPDT; break; }
            case SETMAX: if (v <= 0) break; if (p.my > v) { idle += p.my - v; p.my = v; } p.maxp = v; break;
            case UNSETMAX: p.maxp = 0; break;
        }
        if (ex == 999) PCHECK(c, r.v[0] != 0 && r.v[0] != DLB_NOTED, "%s returned %ld", w, (long)r.v[0]); else PCHECK(c, r.v[0] == ex, "%s returned %ld, expected %d", w, (long)r.v[0], ex);
        PCHECK(c, told == clampn(p.my), "%s: the process was last told %d CPUs, it has %d", w, told, p.my);
        if (!as) PCHECK(c, r.v[1] - n0 == (p.my != before), "%s: count from %d to %d and %ld callbacks", w, before, p.my, (long)r.v[1] - n0);
        p.ncb = r.v[1]; p.told = r.v[2]; if (p.my != before) ++changes; if (as) { int t = 0; for (auto &x : q) if (x.in) t += x.req; PCHECK(c, idle == 0 || t == 0, "harness: %d idle with %d requests", idle, t); }
        settle(i, w); return true;
    }
    void fin(int i) {
        auto &p = q[i]; int n0 = p.ncb; auto r = P.call(i, Msg(FIN)); char w[64]; snprintf(w, sizeof w, "process %d: Finalize", i); c.note("%s -> %ld", w, (long)r.v[0]); PCHECK(c, r.v[0] == 0, "Finalize returned %ld", (long)r.v[0]);
        (void)n0; if (as) a_reset(i, w); else { idle += p.my - p.def; p.my = p.def; } p.in = false; p.req = p.prev = 0; settle(i, w);
    }
    void storm() {
        std::vector<int> v; for (int i = 0; i < np; ++i) if (q[i].in) { if (q[i].blk) op(i, OUT, 0); if (!q[i].en) op(i, ENABLE, 0); v.push_back(i); } if (v.size() < 2) return; int k = c.oneof<int>({5, 30, 200}); if (as) k = std::min(k, 30);
        int jp = c.oneof<int>({0, 0, 20, 100}), jm = c.oneof<int>({30, 300}), yp = yrt_set ? c.oneof<int>({0, 40, 200, 800}) : 0, ym = yrt_set ? c.oneof<int>({1, 20, 200}) : 1; c.note("%zu processes make %d calls each at the same time", v.size(), k); for (int i : v) P.post(i, Msg(STORM, {(i64)c.draw(1u << 31), k, c.range(0, 1), i, jp, jm, yp, ym})); for (int i : v) P.wait(i, 30); for (int i : v) P.call(i, Msg(STAT));
        if (as) for (int i : v) { P.call(i, Msg(ACQ, {0})); } for (int i : v) { auto r = P.call(i, Msg(DISABLE)); PCHECK(c, r.v[0] == 0, "Disable returned %ld", (long)r.v[0]); }
        // everybody is back to the initial count and no CPU was lost or created
        if (as) { for (int i : v) { auto r = P.call(i, Msg(ENABLE)); r = P.call(i, Msg(ACQ, {0})); r = P.call(i, Msg(LENDN, {1})); PCHECK(c, r.v[0] == 0, "after concurrent calls, Disable and Enable, process %d lends one CPU: %ld", i, (long)r.v[0]); r = P.call(i, Msg(RECLAIM)); PCHECK(c, r.v[0] == 0, "after concurrent calls, Disable and Enable, process %d reclaims one CPU: %ld", i, (long)r.v[0]); r = P.call(i, Msg(DISABLE)); } }
        idle = 0; for (int i : v) { auto &p = q[i]; p.my = p.def; p.req = p.prev = p.maxp = 0; p.en = false; } settle(-1, "after concurrent calls and Disable");
        for (int i : v) { auto r = P.call(i, Msg(ENABLE)); PCHECK(c, r.v[0] == 0, "Enable returned %ld", (long)r.v[0]); q[i].en = true; if (as) { auto r2 = P.call(i, Msg(ACQ, {0})); (void)r2; } } settle(-1, "after concurrent calls and Enable");
        int b = c.pick(v); op(b, BORROW, 0); for (int i : v) if (i != b) op(i, LEND, 0); op(b, BORROW, 0); for (int i : v) if (i != b) op(i, RECLAIM, 0); op(b, BORROW, 0); c.label("concurrent calls"); ++changes;
    }
};
static void one(Ctx &c) {
    World w(c); w.as = g_async = g_prop == "C08"; w.np = c.range(2, 4); w.n = c.range(std::max(4, w.np), 20); w.q.resize(w.np); mu_testing_set_sys_size(w.n); unsetenv("DLB_ARGS");
    for (int i = 0; i < w.np; ++i) { unsigned js = c.draw(1u << 31); w.P.spawn([=](int) { jit = js; return [](const Msg &m) { return handle(m); }; }); }
    int steps = c.len(8, 50); c.note("%d processes, node of %d CPUs", w.np, w.n); for (int i = 0; i < w.np; ++i) if (c.chance(5, 6)) w.init(i);
    for (int st = 0; st < steps; ++st) {
        int i = c.range(0, w.np - 1); auto &p = w.q[i]; if (!p.in) { if (c.chance(2, 3)) { w.init(i); w.settle(i, "Init"); } continue; }
        int v = c.oneof<int>({1, 1, 2, 3, 4, 8, 0, -1, -3}); if (p.blk && c.chance(1, 2)) { w.op(i, OUT, 0); continue; }
        switch (c.weighted({6, w.as ? 6 : 0, 6, 6, 6, w.as ? 8 : 0, w.as ? 0 : 3, w.as ? 0 : 2, 2, 2, 4, 1, yrt_set ? 8 : 1, 1})) {
            case 0: w.op(i, LEND, 0); break; case 1: w.op(i, LENDN, v); break; case 2: w.op(i, RECLAIM, 0); break; case 3: w.op(i, BORROW, 0); break; case 4: w.op(i, BORROWN, v); break; case 5: w.op(i, ACQ, c.chance(1, 8) ? (int)DLB_MAX_CPUS : v); break; case 6: w.op(i, SETMAX, v); break; case 7: w.op(i, UNSETMAX, 0); break; case 8: w.op(i, DISABLE, 0); break; case 9: w.op(i, ENABLE, 0); break;
            case 10: if (p.blk) w.op(i, OUT, 0); else w.op(i, INTO, 0); break;
            case 11: if (!p.blk) w.fin(i); break;
            case 12: w.storm(); break;
            case 13: { int k = c.range(0, 5); auto r = w.P.call(i, Msg(OTHER, {k})); c.note("process %d: call %d not available in this mode -> %ld", i, k, (long)r.v[0]); PCHECK(c, r.v[0] == (p.en ? DLB_ERR_NOPOL : DLB_ERR_DISBLD), "call not available in this mode returned %ld", (long)r.v[0]); w.settle(i, "unavailable call"); break; }
        }
    }
    // everybody gets its CPUs back and nothing is left
    for (int i = 0; i < w.np; ++i) if (w.q[i].in) { if (w.q[i].blk) w.op(i, OUT, 0); if (!w.q[i].en) w.op(i, ENABLE, 0); if (w.q[i].my < w.q[i].def) w.op(i, RECLAIM, 0); PCHECK(c, w.q[i].my >= w.q[i].def, "process %d has %d CPUs after reclaiming, initially %d", i, w.q[i].my, w.q[i].def); }
    for (int i = 0; i < w.np; ++i) if (w.q[i].in) w.fin(i);
    for (const char *m : {"lewi", "lewi_async", "async", "procinfo", "cpuinfo"}) { std::string p = std::string("/dev/shm/DLB_") + m + "_" + c.key; PCHECK(c, access(p.c_str(), F_OK), "%s remains", p.c_str()); }
    if (w.changes >= 5 && (!w.as || w.moved >= 1)) c.nontrivial(); c.count(steps);
}
int main(int argc, char **argv) {
    g_prop = "C07"; std::vector<char *> a; for (int i = 0; i < argc; ++i) { if (!strcmp(argv[i], "--prop") && i + 1 < argc) { g_prop = argv[++i]; continue; } a.push_back(argv[i]); }
    pbt::Options o; o.property = g_prop.c_str(); o.quick_cases = 8000; o.thorough_cases = 200000; o.quick_cap_s = 60; o.case_timeout = 60; o.hang_is_violation = true;
    return pbt::run(a.size(), a.data(), o, one);
}
