// C26: the OpenMP thread manager (omp5) under a fake OpenMP runtime, with another process and an administrator.
#include "pbt.hpp"
#include "rpc.hpp"
#include <array>
#include <set>
#include <algorithm>
#include <sys/mman.h>
extern "C" {
#include "apis/dlb.h"
#include "apis/dlb_drom.h"
#include "LB_core/DLB_kernel.h"
#include "LB_core/spd.h"
#include "LB_comm/shmem_cpuinfo.h"
#include "LB_numThreads/omp-tools.h"
#include "support/mask_utils.h"
ompt_start_tool_result_t *ompt_start_tool(unsigned int, const char *);
int __real_sched_getcpu(void); int __real_pthread_setaffinity_np(pthread_t, size_t, const cpu_set_t *); int __real_pthread_getaffinity_np(pthread_t, size_t, cpu_set_t *); int __real_sched_getaffinity(pid_t, size_t, cpu_set_t *);
}
using pbt::Ctx; using rpc::Msg; typedef int64_t i64; typedef uint64_t M;
static M tom(const cpu_set_t *s) { M m = 0; for (int i = 0; i < 64; ++i) if (CPU_ISSET(i, s)) m |= 1ul << i; return m; }
static cpu_set_t tos(M m) { cpu_set_t s; CPU_ZERO(&s); for (int i = 0; i < 64; ++i) if (m >> i & 1) CPU_SET(i, &s); return s; }
static std::string ms(M m) { std::string s = "{"; for (int i = 0; i < 64; ++i) if (m >> i & 1) s += (s.size() > 1 ? "," : "") + std::to_string(i); return s + "}"; }
static int cnt(M m) { return __builtin_popcountl(m); }

// ---- the process under test: simulated threads -------------------------------
struct Thread { M aff = 0; int cpu = 0; };
static std::vector<Thread> T; static int cur; static bool sim; static int requested = -1; static ompt_start_tool_result_t *tool;
extern "C" void omp_set_num_threads(int n) { requested = n; }
extern "C" int __wrap_sched_getcpu(void) { return sim ? T[cur].cpu : __real_sched_getcpu(); }
extern "C" int __wrap_pthread_setaffinity_np(pthread_t t, size_t n, const cpu_set_t *s) { if (!sim) return __real_pthread_setaffinity_np(t, n, s); M m = tom(s); if (!m) return EINVAL; T[cur].aff = m; if (!(m >> T[cur].cpu & 1)) T[cur].cpu = __builtin_ctzl(m); return 0; }
extern "C" int __wrap_pthread_getaffinity_np(pthread_t t, size_t n, cpu_set_t *s) { if (!sim) return __real_pthread_getaffinity_np(t, n, s); *s = tos(T[cur].aff); return 0; }
extern "C" int __wrap_sched_getaffinity(pid_t p, size_t n, cpu_set_t *s) { if (!sim) return __real_sched_getaffinity(p, n, s); *s = tos(T[cur].aff); return 0; }
static std::map<int, ompt_callback_t> CB;
static ompt_set_result_t set_cb(ompt_callbacks_t e, ompt_callback_t f) { if (f) CB[e] = f; else CB.erase(e); return ompt_set_always; }
static ompt_interface_fn_t lookup_fn(const char *n) { return !strcmp(n, "ompt_set_callback") ? (ompt_interface_fn_t)set_cb : nullptr; }
#define CALL(type, ev, ...) do { if (CB.count(ev)) ((type)CB[ev])(__VA_ARGS__); } while (0)
enum { INIT, PAR, NEST, PAREND, MPI_IN, MPI_OUT, FIN, X_LEND, X_RECLAIM, X_BORROW, X_LENDCPU, X_RETURN, X_ACQUIRE, X_BORROWCPU, X_RECLAIMCPU, POLL, SETMASK, ATTACH, DETACH, OINIT, DUMP };
struct Dump { std::vector<std::array<i64, 3>> cpu; };
static void dump(const char *key, int n, std::vector<i64> &o) {       // owner, guest, busy
    int fd = memfd_create("reg", 0); fflush(stderr); int save = dup(2); dup2(fd, 2); shmem_cpuinfo__print_info(key, 0, 1, (dlb_printshmem_flags_t)0); fflush(stderr); dup2(save, 2); close(save);
    std::string t(lseek(fd, 0, SEEK_END), 0); pread(fd, &t[0], t.size(), 0); close(fd); o.assign(3 * n, 0); size_t p = 0;
    while (p < t.size()) { size_t e = t.find('\n', p); if (e == std::string::npos) e = t.size(); std::string l = t.substr(p, e - p); p = e + 1; size_t q = l.find('['); if (q == std::string::npos) continue; while (q > 0 && (isspace(l[q - 1]) || isdigit(l[q - 1]))) --q; int c, ow, g; char st[8]; if (l.find("Cpu requests") != std::string::npos) break; if (sscanf(l.c_str() + q, " %d [ %d / %d / %4s ]", &c, &ow, &g, st) == 4 && c >= 0 && c < n) { o[3 * c] = ow; o[3 * c + 1] = g; o[3 * c + 2] = !strcmp(st, "busy") || !strcmp(st, "recl"); } }
}
static Msg handle(const Msg &m) {
    Msg r; auto V = [&](int i) { return m.v[i]; }; static ompt_data_t par, itask, nested; static ompt_frame_t outer, inner; inner.exit_frame.ptr = &inner; static std::vector<ompt_data_t> td; static int team; static char code;
    switch (m.op) {
    case INIT: { T.assign(1, Thread{(M)V(0), (int)V(1)}); cur = 0; sim = true; requested = V(4); size_t p = 0; std::string s = m.s; while ((p = s.find('\n')) != std::string::npos) { std::string kv = s.substr(0, p); s = s.substr(p + 1); size_t q = kv.find('='); setenv(kv.substr(0, q).c_str(), kv.substr(q + 1).c_str(), 1); }
        if (V(2)) { cpu_set_t k = tos(V(0)); int e = DLB_Init(0, &k, nullptr); if (e) { r.v = {-1, e}; return r; } }
        tool = ompt_start_tool(201811, "fake"); int ok = tool->initialize(lookup_fn, 0, &tool->tool_data); if (!V(2)) T[0].aff = V(3); r.v = {ok, (i64)CB.size()}; CALL(ompt_callback_thread_begin_t, ompt_callback_thread_begin, ompt_thread_initial, &itask); return r; }
    case PAR: { cur = 0; par.value = 0; CALL(ompt_callback_parallel_begin_t, ompt_callback_parallel_begin, &itask, &outer, &par, requested > 0 ? requested : 1, ompt_parallel_team | ompt_parallel_invoker_program, &code); team = requested; r.v = {requested, team}; td.assign(64, ompt_data_t{});
        std::vector<int> order; for (int i = 0; i < team && i < 64; ++i) order.push_back(i); if (V(0)) std::reverse(order.begin(), order.end());
        for (int i : order) { while ((int)T.size() <= i) T.push_back(Thread{(M)V(2), (int)V(3 + T.size() % (m.v.size() - 3))}); cur = i; CALL(ompt_callback_implicit_task_t, ompt_callback_implicit_task, ompt_scope_begin, &par, &td[i], team, i, ompt_task_implicit); }
        for (int i = 0; i < team && i < 64; ++i) { r.v.push_back(T[i].cpu); r.v.push_back(T[i].aff); } cur = 0; return r; }
    case NEST: { cur = 0; nested.value = 0; CALL(ompt_callback_parallel_begin_t, ompt_callback_parallel_begin, &td[0], &inner, &nested, 2, ompt_parallel_team | ompt_parallel_invoker_program, &code); ompt_data_t t2{}; CALL(ompt_callback_implicit_task_t, ompt_callback_implicit_task, ompt_scope_begin, &nested, &t2, 2, 0, ompt_task_implicit); CALL(ompt_callback_parallel_end_t, ompt_callback_parallel_end, &nested, &td[0], ompt_parallel_team | ompt_parallel_invoker_program, &code); r.v = {0}; return r; }
    case PAREND: { for (int i = 0; i < team && i < 64; ++i) { cur = i; CALL(ompt_callback_sync_region_t, ompt_callback_sync_region, ompt_sync_region_barrier_implicit, ompt_scope_begin, &par, &td[i], i ? nullptr : &code); } cur = 0; CALL(ompt_callback_parallel_end_t, ompt_callback_parallel_end, &par, &itask, ompt_parallel_team | ompt_parallel_invoker_program, &code); break; }
    case MPI_IN: case MPI_OUT: { sync_call_flags_t f{}; f.is_mpi = true; f.is_blocking = true; f.do_lewi = true; spd_enter_dlb(nullptr); if (m.op == MPI_IN) into_sync_call(f); else out_of_sync_call(f); break; }
    case FIN: tool->finalize(&tool->tool_data); sim = false; r.v = {V(0) ? DLB_Finalize() : 0}; return r;
    case X_LEND: r.v = {DLB_Lend()}; return r; case X_RECLAIM: r.v = {DLB_Reclaim()}; return r; case X_BORROW: r.v = {DLB_BorrowCpus(V(0))}; return r; case X_LENDCPU: r.v = {DLB_LendCpu(V(0))}; return r; case X_RETURN: r.v = {DLB_Return()}; return r; case X_ACQUIRE: r.v = {DLB_AcquireCpus(V(0))}; return r;
    case X_BORROWCPU: r.v = {DLB_BorrowCpu(V(0))}; return r; case X_RECLAIMCPU: r.v = {DLB_ReclaimCpu(V(0))}; return r;
    case POLL: r.v = {DLB_PollDROM_Update()}; return r;
    case ATTACH: setenv("DLB_ARGS", m.s.c_str(), 1); r.v = {DLB_DROM_Attach()}; unsetenv("DLB_ARGS"); return r; case DETACH: r.v = {DLB_DROM_Detach()}; return r;
    case SETMASK: { cpu_set_t k = tos(V(1)); r.v = {DLB_DROM_SetProcessMask(V(0), &k, (dlb_drom_flags_t)0)}; return r; }
    case OINIT: { cpu_set_t k = tos(V(0)); r.v = {DLB_Init(0, &k, m.s.c_str())}; return r; }
    case DUMP: dump(m.s.c_str(), (int)V(0), r.v); return r;
    }
    r.v = {requested}; return r;
}

static void c26(Ctx &c) {
    int hw = c.weighted({5, 1}) + 1, nc = c.range(1, hw == 1 ? 8 : 4), n = nc * hw; cpu_set_t sys; CPU_ZERO(&sys); std::vector<cpu_set_t> cm(nc), nm(1); for (auto &x : cm) CPU_ZERO(&x); CPU_ZERO(&nm[0]); for (int i = 0; i < n; ++i) { CPU_SET(i, &sys); CPU_SET(i, &nm[0]); CPU_SET(i / hw, &cm[i / hw]); CPU_ZERO(&cm[i / hw]); } for (int i = 0; i < n; ++i) CPU_SET(i, &cm[i / hw]); mu_testing_set_sys_masks(&sys, cm.data(), nc, nm.data(), 1);
    auto core = [&](int x) { M m = 0; for (int i = 0; i < n; ++i) if (i / hw == x / hw) m |= 1ul << i; return m; };
    M mine = 0, other = 0; for (int k = 0; k < nc; ++k) { M m = core(k * hw); int w = k == 0 && nc < 3 ? 0 : c.weighted({4, 3, 1}); if (w == 0) mine |= m; else if (w == 1) other |= m; } if (!mine) { mine |= core(0); other &= ~mine; }
    bool drom = c.chance(1, 2), cores = hw > 1 && c.flip(), lewi = !c.chance(1, 10); int lo = c.weighted({3, 2, 1, 2}); bool borrow = lo == 0 || lo == 3, lend = lo >= 2 && lo <= 3, omp_init = c.flip(); if (lo == 2) borrow = false; if (!lewi) lend = borrow = false; bool mgr = lewi || drom;
    const char *los[] = {"borrow", "none", "lend", "borrow:lend"}; int nth = c.chance(1, 3) ? 0 : c.chance(3, 4) ? (cores ? cnt(mine) / hw : cnt(mine)) : c.range(1, cnt(mine)); bool places = hw > 1 || c.flip(); if (hw > 1 && !cores) nth = cnt(mine); bool keep = c.chance(1, 3);
    std::string key = c.key, dlb = "--ompt --ompt-thread-manager=omp5 --shm-key=" + key + (lewi ? " --lewi --lewi-ompt=" + std::string(los[lo]) : " --lewi=no") + (drom ? " --drom" : "") + (keep ? " --lewi-keep-one-cpu" : "");
    std::string env = "DLB_ARGS=" + dlb + "\n" + (nth ? "OMP_NUM_THREADS=" + std::to_string(nth) + (c.chance(1, 4) ? ",1" : "") + "\n" : std::string()) + (places ? std::string("OMP_PLACES=") + (cores ? "cores" : "threads") + "\n" : std::string()) + "OMP_WAIT_POLICY=passive\n";
    rpc::Pool P(c); for (int i = 0; i < 2; ++i) P.spawn([](int) { unsetenv("DLB_ARGS"); unsetenv("OMP_NUM_THREADS"); unsetenv("OMP_PLACES"); unsetenv("LB_ARGS"); return rpc::Handler(handle); });
    i64 me = P.p[0].pid, ot = P.p[1].pid; std::vector<i64> cpu; auto look = [&] { cpu = P.call(1, Msg(DUMP, {n}, key)).v; };
    bool here = false; auto other_in = [&] { int r = P.call(1, Msg(OINIT, {(i64)other}, "--lewi --shm-key=" + key + (drom ? " --drom" : ""))).v[0]; c.note("other process: Init with %s = %d", ms(other).c_str(), r); PCHECK(c, r == 0, "Init of the other process returns %d", r); here = true; };
    bool first = c.flip(); if (other && first && lewi) other_in();
    int start = -1; { std::vector<int> l; for (int i = 0; i < n; ++i) if (mine >> i & 1) l.push_back(i); start = c.flip() ? l[0] : l[c.draw(l.size())]; }
    bool pinned = c.flip(); M aff0 = pinned ? 1ul << start : mine; auto r = P.call(0, Msg(INIT, {(i64)mine, start, omp_init, (i64)aff0, nth ? nth : cores ? cnt(mine) / hw : cnt(mine)}, env)); c.note("%d CPUs (%d per core); process: Init with %s, thread on CPU %d, DLB_ARGS=%s OMP_NUM_THREADS=%d OMP_PLACES=%s", n, hw, ms(mine).c_str(), start, dlb.c_str(), nth, places ? cores ? "cores" : "threads" : "unset");
    PCHECK(c, r.v[0] == 1, "the tool is not initialized: %ld", (long)r.v[0]); if (other && !first && lewi) other_in();
    auto U = [&] { M u = 0; for (int i = 0; i < n; ++i) if (cpu[3 * i + 1] == me || (cpu[3 * i] == me && cpu[3 * i + 2])) u |= 1ul << i; return u; };
    auto teamof = [&](M u) { if (!cores) return cnt(u); int k = 0; for (int i = 0; i < n; i += hw) if ((core(i) & u) == core(i)) ++k; return k; };
    bool stale = nth > 0 && !lend, idle = false; int req = 0; M avail = 0; int events = 0, pars = 0; M lastu = mine;
    auto state = [&](const char *w, int got) { if (lewi) look(); M u = lewi ? U() : mine; req = got; avail = u;
        if (!mgr) return; int want = teamof(u); if (idle && want <= 1) { PCHECK(c, got == 1, "%s: %d threads are requested when everything has been lent", w, got); return; } if (u != lastu) { ++events; lastu = u; } if (stale) { if (got == nth) return; stale = false; }
        if (cores && want == 0) want = 1; PCHECK(c, got == want, "%s: %d threads are requested, the process may use the CPUs %s", w, got, ms(u).c_str()); };
    auto lent = [&](const char *w) { look(); M u = U(); PCHECK(c, cnt(u) == 1, "%s with the policy lend: the process still has the CPUs %s", w, ms(u).c_str()); for (int i = 0; i < n; ++i) if ((mine >> i & 1) && !(u >> i & 1)) PCHECK(c, cpu[3 * i] != me || !cpu[3 * i + 2], "%s with the policy lend: CPU %d is not lent", w, i); };
    auto after = [&](int g) { return (int)P.call(0, Msg(99)).v[0]; };
    state("after initialization", after(0)); if (lend) lent("initialization"); bool inpar = false, inmpi = false; M binding0 = 0; int steps = c.len(1, 40);
    for (int s = 0; s < steps; ++s) {
        int k = c.weighted({8, 5, 2, 1, 6});
        if (k == 0 && !inpar && !inmpi) {
            if (lewi) look(); M before = lewi ? U() : mine; M idlecpus = 0; if (lewi) for (int i = 0; i < n; ++i) if (!cpu[3 * i + 1] && cpu[3 * i] && cpu[3 * i] != me && !cpu[3 * i + 2]) idlecpus |= 1ul << i;
            Msg q(PAR, {c.flip(), 0, (i64)mine}); for (int i = 0; i < 4; ++i) { std::vector<int> l; for (int x = 0; x < n; ++x) if (mine >> x & 1) l.push_back(x); q.v.push_back(l[c.draw(l.size())]); }
            int pend = -1; auto a = P.call(0, q); inpar = true; int team = a.v[1]; idle = false; ++pars; if (lewi) look(); M u = lewi ? U() : mine; c.note("parallel region: %d threads%s", team, lewi ? (", CPUs " + ms(u)).c_str() : ""); (void)pend;
            if (mgr) {
                if (borrow) { stale = stale && u == before; for (int i = 0; i < n; ++i) { if (u >> i & 1) PCHECK(c, cpu[3 * i] == me || !cpu[3 * i + 2], "parallel region: the process still uses CPU %d, wanted by its owner", i); if (mine >> i & 1) PCHECK(c, u >> i & 1, "parallel region: the process has not recovered its CPU %d", i); } if (idlecpus && hw == 1) { PCHECK(c, u & idlecpus, "parallel region with the policy borrow: none of the idle CPUs %s is borrowed", ms(idlecpus).c_str()); c.label("borrowed"); } if (idlecpus) ++events; }
                else if (!drom) PCHECK(c, u == before, "parallel region without the policy borrow: the CPUs change from %s to %s", ms(before).c_str(), ms(u).c_str());
                state("parallel region", (int)a.v[0]);
                M used = 0; bool foreign = false; int cap = std::min(team, teamof(u)); for (int i = 0; i < team && i < 64; ++i) { int x = a.v[2 + 2 * i]; M af = a.v[3 + 2 * i]; PCHECK(c, af == 1ul << x, "parallel region: thread %d may run on %s, it is not bound to one CPU", i, ms(af).c_str()); PCHECK(c, u >> x & 1, "parallel region: thread %d is bound to CPU %d, the process may use %s", i, x, ms(u).c_str());
                    if (i < cap) { PCHECK(c, !(used >> x & 1), "parallel region: CPU %d is used by two threads of %d, the process may use %s", x, team, ms(u).c_str()); if (cores) PCHECK(c, !(used & core(x)), "parallel region: two threads on the core of CPU %d", x); bool own = mine >> x & 1; PCHECK(c, !(own && foreign), "parallel region: thread %d has the process's CPU %d after threads on CPUs of others", i, x); foreign |= !own; used |= 1ul << x; } }
            }
        } else if (k == 0 && inpar) {
            if (c.chance(1, 4)) { M b = lewi ? (look(), U()) : mine; int g = after(0); P.call(0, Msg(NEST)); PCHECK(c, after(0) == g && (!lewi || (look(), U()) == b), "a nested parallel region changes the threads or the CPUs"); c.note("nested region"); continue; }
            if (lewi) look(); M b = lewi ? U() : mine; int g = P.call(0, Msg(PAREND)).v[0]; inpar = false; c.note("end of the parallel region"); state("end of the parallel region", g); if (lend) { lent("end of the parallel region"); stale = false; } else if (lewi) PCHECK(c, U() == b, "end of the parallel region without the policy lend: the CPUs change from %s to %s", ms(b).c_str(), ms(U()).c_str());
        } else if (k == 1 && lewi && !inpar) {
            if (!inmpi) { if (idle) continue; look(); M b = U(); P.call(0, Msg(MPI_IN)); inmpi = true; look(); M u = U(); c.note("blocking call begins, the process has %s", ms(u).c_str()); PCHECK(c, cnt(u) <= (keep ? hw : 0) + hw - 1 + (pinned || pars ? 0 : 0) || (keep && cnt(u) <= hw), "in a blocking call the process keeps the CPUs %s of %s", ms(u).c_str(), ms(b).c_str()); events++; }
            else { int g = P.call(0, Msg(MPI_OUT)).v[0]; inmpi = false; c.note("blocking call ends: %d threads", g); look(); M u = U(); for (int i = 0; i < n; ++i) if (mine >> i & 1) PCHECK(c, u >> i & 1, "after a blocking call CPU %d is not recovered", i); stale = nth > 0; lastu = u; if (!stale) state("after a blocking call", g); else PCHECK(c, g == nth, "after a blocking call %d threads are requested, initially %d", g, nth); }
        } else if (k == 2 && lewi && !inpar && !inmpi) {
            int o = c.weighted({3, 3, 3, 1, 1}); int e = 0; const char *w = ""; switch (o) { case 0: w = "Borrow"; e = P.call(0, Msg(X_BORROW, {c.range(1, 4)})).v[0]; break; case 1: w = "Reclaim"; e = P.call(0, Msg(X_RECLAIM)).v[0]; break; case 2: w = "Return"; e = P.call(0, Msg(X_RETURN)).v[0]; break; case 3: if (!borrow) continue; w = "Lend"; e = P.call(0, Msg(X_LEND)).v[0]; idle = true; break; default: w = "AcquireCpus"; e = P.call(0, Msg(X_ACQUIRE, {c.range(1, 4)})).v[0]; }
            c.note("the process calls %s = %d", w, e); look(); M u = U(); if (u != lastu && o != 3) { stale = false; if (u) idle = false; } state(w, after(0));
        } else if (k == 3 && drom && !inpar && !inmpi) {
            M m = 0; for (int q = 0; q < nc; ++q) { M cc = core(q * hw); if ((mine & cc) ? c.chance(2, 3) : !(other & cc) && c.chance(1, 2)) m |= cc; } if (!m || m == mine) continue; if (idle) continue;
            // before anything else the process polls
            int a = P.call(1, Msg(ATTACH, {}, "--shm-key=" + key)).v[0]; int e = P.call(1, Msg(SETMASK, {me, (i64)m})).v[0]; P.call(1, Msg(DETACH)); c.note("an administrator sets the mask %s = %d (attach %d)", ms(m).c_str(), e, a); if (a != 0 && a != DLB_NOUPDT) continue; PCHECK(c, e == 0, "DLB_DROM_SetProcessMask returns %d", e);
            if (c.flip()) { int g = P.call(0, Msg(POLL)).v[0]; PCHECK(c, g == 0, "DLB_PollDROM_Update returns %d", g); mine = m; stale = false; nth = 0; c.label("mask changed"); ++events; state("after the change of mask", after(0)); }
            else { mine = m; stale = false; nth = 0; ++events; s = s; Msg q(PAR, {0, 0, (i64)mine, (i64)__builtin_ctzl(mine)}); auto x = P.call(0, q); inpar = true; ++pars; c.note("parallel region: %ld threads", (long)x.v[1]); c.label("mask changed at a parallel region"); state("parallel region after the change of mask", x.v[0]); for (int i = 0; i < x.v[1] && i < 64; ++i) PCHECK(c, avail >> x.v[2 + 2 * i] & 1, "parallel region after the change of mask: thread %d is bound to CPU %ld, the process may use %s", i, (long)x.v[2 + 2 * i], ms(avail).c_str()); }
        } else if (k == 4 && here) {
            int o = c.weighted({4, 4, 3, 2, 2, 1}); int e = 0; const char *w = ""; switch (o) { case 0: w = "Lend"; e = P.call(1, Msg(X_LEND)).v[0]; break; case 1: w = "Reclaim"; e = P.call(1, Msg(X_RECLAIM)).v[0]; break; case 2: w = "Borrow"; e = P.call(1, Msg(X_BORROW, {c.range(1, 8)})).v[0]; break; case 3: w = "Return"; e = P.call(1, Msg(X_RETURN)).v[0]; break; case 4: if (hw > 1) continue; w = "LendCpu"; e = P.call(1, Msg(X_LENDCPU, {c.draw(n)})).v[0]; break; default: w = "AcquireCpus"; e = P.call(1, Msg(X_ACQUIRE, {c.range(1, 4)})).v[0]; }
            c.note("the other process calls %s = %d", w, e); if (e == 0 || e == DLB_NOTED) ++events;
        }
        c.count(1);
    }
    if (inmpi) P.call(0, Msg(MPI_OUT)); if (inpar) P.call(0, Msg(PAREND)); int e = P.call(0, Msg(FIN, {omp_init})).v[0]; PCHECK(c, e == 0, "DLB_Finalize returns %d", e); if (lewi && here) { look(); for (int i = 0; i < n; ++i) PCHECK(c, cpu[3 * i] != me && cpu[3 * i + 1] != me, "after finalizing the process still has CPU %d", i); }
    c.label("%s%s%s", lewi ? los[lo] : "no lewi", drom ? " drom" : "", cores ? " cores" : ""); if (pars >= 3 && events >= 3) c.nontrivial();
}
int main(int argc, char **argv) {
    pbt::Options o; o.property = "C26"; o.rule = "at least three parallel regions and three changes of CPUs."; o.quick_cases = 12000; o.thorough_cases = 1000000; o.hang_is_violation = true;
    return pbt::run(argc, argv, o, c26);
}
