// C27: the free-agents thread manager under a fake OpenMP runtime, with another process.
#include "pbt.hpp"
#include "rpc.hpp"
#include <array>
#include <set>
#include <algorithm>
#include <sys/mman.h>
extern "C" {
#include "apis/dlb.h"
#include "LB_numThreads/omptm_free_agents.h"
#include "apis/dlb_drom.h"
#include "LB_core/DLB_kernel.h"
#include "LB_core/spd.h"
#include "LB_comm/shmem_cpuinfo.h"
#include "LB_numThreads/omp-tools.h"
#include "support/mask_utils.h"
ompt_start_tool_result_t *ompt_start_tool(unsigned int, const char *);
int __real_sched_getcpu(void); int __real_pthread_setaffinity_np(pthread_t, size_t, const cpu_set_t *); int __real_pthread_getaffinity_np(pthread_t, size_t, cpu_set_t *); int __real_sched_getaffinity(pid_t, size_t, cpu_set_t *);
}
using pbt::Ctx; using rpc::Msg; typedef int64_t i64; typedef uint64_t M;
static M tom(const cpu_set_t *s) { M m = 0; for (int i = 0; i < 64; ++i) if (CPU_ISSET(i, s)) m |= 1ul << i; return m; }
static cpu_set_t tos(M m) { cpu_set_t s; CPU_ZERO(&s); for (int i = 0; i < 64; ++i) if (m >> i & 1) CPU_SET(i, &s); return s; }
static std::string ms(M m) { std::string s = "{"; for (int i = 0; i < 64; ++i) if (m >> i & 1) s += (s.size() > 1 ? "," : "") + std::to_string(i); return s + "}"; }
static int cnt(M m) { return __builtin_popcountl(m); }

// ---- the process under test: simulated threads -------------------------------
struct Thread { M aff = 0; int cpu = 0; };
static std::vector<Thread> T; static int cur; static bool sim; static int requested = -1; static ompt_start_tool_result_t *tool;
extern "C" void omp_set_num_threads(int n) { requested = n; }
extern "C" int __wrap_sched_getcpu(void) { return sim ? T[cur].cpu : __real_sched_getcpu(); }
extern "C" int __wrap_pthread_setaffinity_np(pthread_t t, size_t n, const cpu_set_t *s) { if (!sim) return __real_pthread_setaffinity_np(t, n, s); M m = tom(s); if (!m) return EINVAL; T[cur].aff = m; if (!(m >> T[cur].cpu & 1)) T[cur].cpu = __builtin_ctzl(m); return 0; }
extern "C" int __wrap_pthread_getaffinity_np(pthread_t t, size_t n, cpu_set_t *s) { if (!sim) return __real_pthread_getaffinity_np(t, n, s); *s = tos(T[cur].aff); return 0; }
extern "C" int __wrap_sched_getaffinity(pid_t p, size_t n, cpu_set_t *s) { if (!sim) return __real_sched_getaffinity(p, n, s); *s = tos(T[cur].aff); return 0; }
static std::map<int, ompt_callback_t> CB;
static ompt_set_result_t set_cb(ompt_callbacks_t e, ompt_callback_t f) { if (f) CB[e] = f; else CB.erase(e); return ompt_set_always; }
static ompt_interface_fn_t lookup_fn(const char *n) { return !strcmp(n, "ompt_set_callback") ? (ompt_interface_fn_t)set_cb : nullptr; }
#define CALL(type, ev, ...) do { if (CB.count(ev)) ((type)CB[ev])(__VA_ARGS__); } while (0)
enum { INIT, FABEGIN, CREATE, SWITCH, COMPLETE, PAR, IMPL, PAREND, MPI_IN, MPI_OUT, FIN, OINIT, X_LEND, X_RECLAIM, X_LENDCPU, X_BORROW, X_RETURN, NEST, DUMP };
struct Dump { std::vector<std::array<i64, 3>> cpu; };
static void dump(const char *key, int n, std::vector<i64> &o) {       // owner, guest, busy
    int fd = memfd_create("reg", 0); fflush(stderr); int save = dup(2); dup2(fd, 2); shmem_cpuinfo__print_info(key, 0, 1, (dlb_printshmem_flags_t)0); fflush(stderr); dup2(save, 2); close(save);
    std::string t(lseek(fd, 0, SEEK_END), 0); pread(fd, &t[0], t.size(), 0); close(fd); o.assign(3 * n, 0); size_t p = 0;
    while (p < t.size()) { size_t e = t.find('\n', p); if (e == std::string::npos) e = t.size(); std::string l = t.substr(p, e - p); p = e + 1; size_t q = l.find('['); if (q == std::string::npos) continue; while (q > 0 && (isspace(l[q - 1]) || isdigit(l[q - 1]))) --q; int c, ow, g; char st[8]; if (l.find("Cpu requests") != std::string::npos) break; if (sscanf(l.c_str() + q, " %d [ %d / %d / %4s ]", &c, &ow, &g, st) == 4 && c >= 0 && c < n) { o[3 * c] = ow; o[3 * c + 1] = g; o[3 * c + 2] = !strcmp(st, "busy") || !strcmp(st, "recl"); } }
}
static int kmp_id, NFA; static M active; static std::vector<int> fcpu; static std::vector<int> acts;      // fake OpenMP runtime with free agent threads
extern "C" int __kmp_get_free_agent_id(void) { return kmp_id; }
extern "C" int __kmp_get_num_free_agent_threads(void) { return NFA; }
extern "C" void __kmp_set_free_agent_thread_active_status(unsigned i, bool a) { if ((int)i >= NFA) abort(); if (a) active |= 1ul << i; else active &= ~(1ul << i); acts.push_back(a ? (int)i : -1 - (int)i); }
static void as_fa(int k) { cur = 100 + k; omptm_free_agents_testing__set_free_agent_id(k); omptm_free_agents_testing__set_worker_binding(-1); }
static std::vector<int> wb(64, -1); static void as_worker(int i) { cur = i; omptm_free_agents_testing__set_free_agent_id(-1); omptm_free_agents_testing__set_worker_binding(wb[i]); }
static Msg handle(const Msg &m) {
    Msg r; auto V = [&](int i) { return m.v[i]; }; static ompt_data_t par, itask, td[64], nested; static ompt_frame_t outer, inner; inner.exit_frame.ptr = &inner; static char code; acts.clear(); ompt_data_t xt{}, yt{};
    switch (m.op) {
    case INIT: { T.assign(200, Thread{}); { int k = 0; for (int i = 0; i < 64; ++i) if (V(0) >> i & 1) T[k++] = Thread{1ul << i, i}; } cur = 0; sim = true; NFA = V(1); size_t p = 0; std::string s = m.s; while ((p = s.find('\n')) != std::string::npos) { std::string kv = s.substr(0, p); s = s.substr(p + 1); size_t q = kv.find('='); setenv(kv.substr(0, q).c_str(), kv.substr(q + 1).c_str(), 1); }
        cpu_set_t k = tos(V(0)); int e = DLB_Init(0, &k, nullptr); if (e) { r.v = {-1, e}; return r; } tool = ompt_start_tool(201811, "fake"); int ok = tool->initialize(lookup_fn, 0, &tool->tool_data); r.v = {ok, (i64)CB.size()}; CALL(ompt_callback_thread_begin_t, ompt_callback_thread_begin, ompt_thread_initial, &itask); return r; }
    case FABEGIN: { int k = V(0); cur = 100 + k; T[cur] = Thread{(M)V(1), __builtin_ctzl(V(1))}; kmp_id = k; active |= 1ul << k; as_fa(k); omptm_free_agents_testing__set_free_agent_id(-1); CALL(ompt_callback_thread_begin_t, ompt_callback_thread_begin, ompt_thread_other, &xt); r.v = {(i64)T[cur].aff}; break; }
    case CREATE: if (V(0) >= 0) as_fa(V(0)); else as_worker(V(1)); CALL(ompt_callback_task_create_t, ompt_callback_task_create, &itask, &outer, &xt, ompt_task_explicit, 0, &code); r.v = {0}; break;
    case SWITCH: if (V(0) >= 0) as_fa(V(0)); else as_worker(V(1)); CALL(ompt_callback_task_schedule_t, ompt_callback_task_schedule, &itask, ompt_task_switch, &xt); r.v = {0}; break;
    case COMPLETE: if (V(0) >= 0) as_fa(V(0)); else as_worker(V(1)); CALL(ompt_callback_task_schedule_t, ompt_callback_task_schedule, &xt, ompt_task_complete, &itask); r.v = {0}; break;
    case PAR: as_worker(0); par.value = 0; CALL(ompt_callback_parallel_begin_t, ompt_callback_parallel_begin, &itask, &outer, &par, V(0), ompt_parallel_team | ompt_parallel_invoker_program, &code); r.v = {0}; break;
    case IMPL: as_worker(V(0)); CALL(ompt_callback_implicit_task_t, ompt_callback_implicit_task, ompt_scope_begin, &par, &td[V(0)], V(1), V(0), ompt_task_implicit); wb[V(0)] = T[V(0)].cpu; r.v = {0}; break;
    case PAREND: for (int i = 0; i < V(0); ++i) { as_worker(i); CALL(ompt_callback_implicit_task_t, ompt_callback_implicit_task, ompt_scope_end, nullptr, &td[i], V(0), i, ompt_task_implicit); } as_worker(0); CALL(ompt_callback_parallel_end_t, ompt_callback_parallel_end, &par, &itask, ompt_parallel_team | ompt_parallel_invoker_program, &code); r.v = {0}; break;
    case NEST: { as_worker(0); nested.value = 0; CALL(ompt_callback_parallel_begin_t, ompt_callback_parallel_begin, &td[0], &inner, &nested, 2, ompt_parallel_team | ompt_parallel_invoker_program, &code); CALL(ompt_callback_implicit_task_t, ompt_callback_implicit_task, ompt_scope_begin, &nested, &yt, 2, 0, ompt_task_implicit); CALL(ompt_callback_parallel_end_t, ompt_callback_parallel_end, &nested, &td[0], ompt_parallel_team | ompt_parallel_invoker_program, &code); r.v = {0}; break; }
    case MPI_IN: case MPI_OUT: { as_worker(0); sync_call_flags_t f{}; f.is_mpi = true; f.is_blocking = true; f.do_lewi = true; spd_enter_dlb(nullptr); if (m.op == MPI_IN) into_sync_call(f); else out_of_sync_call(f); r.v = {0}; break; }
    case FIN: tool->finalize(&tool->tool_data); sim = false; r.v = {DLB_Finalize()}; return r;
    case OINIT: { cpu_set_t k = tos(V(0)); r.v = {DLB_Init(0, &k, m.s.c_str())}; return r; }
    case X_LEND: r.v = {DLB_Lend()}; return r; case X_RECLAIM: r.v = {DLB_Reclaim()}; return r; case X_LENDCPU: r.v = {DLB_LendCpu(V(0))}; return r; case X_BORROW: r.v = {DLB_BorrowCpus(V(0))}; return r; case X_RETURN: r.v = {DLB_Return()}; return r;
    case DUMP: dump(m.s.c_str(), (int)V(0), r.v); return r;
    }
    r.v.push_back((i64)active); r.v.push_back(omptm_free_agents_testing__get_num_enabled_free_agents()); return r;
}

static void c27(Ctx &c) {
    int n = c.range(1, 8); mu_testing_set_sys_size(n); M mine = 0, other = 0; for (int i = 0; i < n; ++i) { int w = c.weighted({4, 3, 1}); if (w == 0) mine |= 1ul << i; else if (w == 1) other |= 1ul << i; } if (!mine) { mine = 1; other &= ~1ul; }
    int lo = c.weighted({3, 2, 1, 2}); bool lend = lo >= 2; const char *los[] = {"borrow", "none", "lend", "borrow:lend"}; int dn = c.chance(1, 3) ? 0 : c.range(1, cnt(mine)), defn = dn ? dn : cnt(mine); std::vector<int> own; for (int i = 0; i < n; ++i) if (mine >> i & 1) own.push_back(i);
    M workers = 0; for (int i = 1; i < defn && i < (int)own.size(); ++i) workers |= 1ul << own[i]; M prim = 1ul << own[0], avail = mine & ~prim & ~workers; int maxfa = cnt(avail) + cnt(other) + cnt(workers); int nfa = c.chance(2, 3) ? maxfa : c.range(0, maxfa + 1);
    std::string key = c.key, env = "DLB_ARGS=--ompt --ompt-thread-manager=free-agents --lewi --lewi-ompt=" + std::string(los[lo]) + " --shm-key=" + key + "\n" + (dn ? "OMP_NUM_THREADS=" + std::to_string(dn) + "\n" : std::string());
    rpc::Pool P(c); for (int i = 0; i < 2; ++i) P.spawn([](int) { unsetenv("DLB_ARGS"); unsetenv("OMP_NUM_THREADS"); unsetenv("LB_ARGS"); return rpc::Handler(handle); }); i64 me = P.p[0].pid; std::vector<i64> cpu; auto look = [&] { cpu = P.call(0, Msg(DUMP, {n}, key)).v; };
    c.note("%d CPUs; process with %s, OMP_NUM_THREADS=%d, %d free agents, --lewi-ompt=%s", n, ms(mine).c_str(), dn, nfa, los[lo]);
    bool here = false; auto other_in = [&] { int r = P.call(1, Msg(OINIT, {(i64)other}, "--lewi --shm-key=" + key)).v[0]; c.note("other process: Init with %s = %d", ms(other).c_str(), r); PCHECK(c, r == 0, "Init of the other process returns %d", r); here = true; }; if (other && c.flip()) other_in();
    auto r = P.call(0, Msg(INIT, {(i64)mine, nfa}, env)); PCHECK(c, r.v[0] == 1, "the tool is not initialized: %ld", (long)r.v[0]); if (other && !here) other_in();
    int begun = 0, pend = 0, events = 0, team = 0, entered = 0; bool inmpi = false, full = false; M act = 0; std::vector<int> fc(nfa, -1); std::vector<char> run(nfa, 0), wrun(64, 0); M inpar = 0;
    auto owned = [&](int x) { return cpu[3 * x] == me; }; auto guest = [&](int x) { return cpu[3 * x + 1] == me; }; auto busy = [&](int x) { return (bool)cpu[3 * x + 2]; };
    auto facpu = [&](M a) { M m = 0; for (int k = 0; k < nfa; ++k) if (a >> k & 1) { if (fc[k] < 0) c.fail("free agent %d is active without CPU", k); m |= 1ul << fc[k]; } return m; };
    auto fin = [&](const Msg &a, const char *w, bool work) { M na = (M)a.v[a.v.size() - 2]; int en = (int)a.v.back(); look(); M grow = na & ~act; c.note("%s: active free agents on %s", w, ms(facpu(na)).c_str()); PCHECK(c, en == cnt(na), "%s: %d free agents are counted as enabled, %d are", w, en, cnt(na));
        for (int k = 0; k < nfa; ++k) if (na >> k & 1) { PCHECK(c, guest(fc[k]) || (owned(fc[k]) && busy(fc[k])), "%s: free agent %d is active on CPU %d, that the process does not have", w, k, fc[k]); }
        for (int k = 0; k < nfa; ++k) if (grow >> k & 1) { PCHECK(c, work, "%s: free agent %d (CPU %d) is activated without pending tasks", w, k, fc[k]); PCHECK(c, !(inpar >> fc[k] & 1), "%s: free agent %d is activated on CPU %d, where a worker runs", w, k, fc[k]); PCHECK(c, !(full && (mine >> fc[k] & 1)), "%s: free agent %d is activated on CPU %d, wanted by the parallel region", w, k, fc[k]); }
        if (na != act) ++events; act = na; };
    int late = c.weighted({3, 1}); auto begin = [&](int k) { Msg a = P.call(0, Msg(FABEGIN, {k, (i64)mine})); ++begun; M af = (M)a.v[0]; std::vector<int> order; for (int x = 0; x < n; ++x) if (avail >> x & 1) order.push_back(x); int na = order.size(); M rest = here ? other : 0;
        if (k < na) PCHECK(c, af == 1ul << order[k], "free agent %d is bound to %s, the CPUs of the process without thread are %s", k, ms(af).c_str(), ms(avail).c_str()); else if (k < na + cnt(rest)) PCHECK(c, cnt(af) == 1 && (af & rest), "free agent %d is bound to %s, expected one of the other process %s", k, ms(af).c_str(), ms(rest).c_str()); else if (k < na + cnt(rest) + cnt(workers)) PCHECK(c, cnt(af) == 1 && (af & workers), "free agent %d is bound to %s, expected one of the workers %s", k, ms(af).c_str(), ms(workers).c_str()); 
        if (k < maxfa) { int x = __builtin_ctzl(af); for (int q : fc) PCHECK(c, q != x, "two free agents are bound to CPU %d", x); fc[k] = x; } c.note("free agent %d starts on %s", k, ms(af).c_str()); fin(a, "free agent started", false); PCHECK(c, !(act >> k & 1), "free agent %d is active when it starts", k); };
    if (!late) for (int k = 0; k < nfa && k < maxfa + 1; ++k) begin(k);
    int steps = c.len(1, 60); for (int s = 0; s < steps; ++s) {
        int k = c.weighted({10, 10, 10, 5, 3, 6, 2}); look();
        if (begun < nfa && (k == 6 || c.chance(1, 4))) { begin(begun); continue; }
        std::vector<int> ths; for (int i = 0; i < (team ? entered : inmpi ? 0 : 1); ++i) ths.push_back(-1 - i); for (int q = 0; q < nfa; ++q) if (run[q] || (act >> q & 1)) ths.push_back(q);
        if (k == 0) { std::vector<int> cr; for (int t : ths) if (t < 0 || run[t]) cr.push_back(t); if (cr.empty()) continue; int t = cr[c.draw(cr.size())]; std::vector<int> cand; M idle = 0; for (int q = 0; q < nfa; ++q) { int x = fc[q]; if (x < 0 || (act >> q & 1) || (inpar >> x & 1) || (full && (mine >> x & 1))) continue; bool own_idle = (mine >> x & 1) && (guest(x) || !cpu[3 * x + 1]), for_idle = !(mine >> x & 1) && cpu[3 * x] && !cpu[3 * x + 1] && !busy(x); if (own_idle || for_idle) idle |= 1ul << x; }
            M before = act; ++pend; Msg a = P.call(0, Msg(CREATE, {t, t < 0 ? -1 - t : 0})); fin(a, ("task created by " + std::string(t < 0 ? "worker " : "free agent ") + std::to_string(t < 0 ? -1 - t : t)).c_str(), true); M up = facpu(act) & ~facpu(before); PCHECK(c, cnt(up) <= 1, "task created: free agents on %s are activated for one task", ms(up).c_str()); if (idle && (M)before != (nfa ? (1ul << nfa) - 1 : 0)) PCHECK(c, up, "task created: no free agent is activated, the CPUs %s are idle", ms(idle).c_str()); if (up) c.label("activated"); if (up & ~mine) c.label("borrowed"); c.count(1);
        } else if (k == 1) { std::vector<int> cr; for (int t : ths) if (t < 0 ? !wrun[-1 - t] : !run[t]) cr.push_back(t); if (cr.empty() || !pend) continue; int t = cr[c.draw(cr.size())]; --pend; if (t < 0) wrun[-1 - t] = 1; else run[t] = 1; fin(P.call(0, Msg(SWITCH, {t, t < 0 ? -1 - t : 0})), ("task started by " + std::string(t < 0 ? "worker " : "free agent ") + std::to_string(t < 0 ? -1 - t : t)).c_str(), pend > 0);
        } else if (k == 2) { std::vector<int> cr; for (int q = 0; q < nfa; ++q) if (run[q]) cr.push_back(q); for (int t : ths) if (t < 0 && wrun[-1 - t]) cr.push_back(t); if (cr.empty()) continue; int t = cr[c.draw(cr.size())]; M before = act; std::vector<i64> bc = cpu; if (t < 0) wrun[-1 - t] = 0; else run[t] = 0;
            fin(P.call(0, Msg(COMPLETE, {t, t < 0 ? -1 - t : 0})), ("task completed by " + std::string(t < 0 ? "worker " : "free agent ") + std::to_string(t < 0 ? -1 - t : t)).c_str(), false);
            if (t >= 0 && (before >> t & 1)) { int x = fc[t]; bool on = act >> t & 1, ours = mine >> x & 1; bool par = (inpar >> x & 1) || (full && ours), recl = !ours && bc[3 * x + 2];
                if (par) PCHECK(c, !on, "free agent %d completed a task and is still active on CPU %d, needed by the parallel region", t, x); else if (recl) { PCHECK(c, !on && !guest(x), "free agent %d completed a task and still uses CPU %d, wanted by its owner", t, x); c.label("returned"); ++events; } else if (!pend) { PCHECK(c, !on, "free agent %d is still active without pending tasks", t); if (!ours) PCHECK(c, !guest(x), "CPU %d is still borrowed without pending tasks", x); else if (lend) PCHECK(c, !busy(x) || !guest(x), "CPU %d is not lent without pending tasks with the policy lend", x); c.label("given back"); } else PCHECK(c, on, "free agent %d on CPU %d is not active after a task with %d pending tasks", t, x, pend); }
            c.count(1);
        } else if (k == 3 && !inmpi) {
            if (!team) { if (wrun[0]) continue; team = c.flip() ? defn : c.range(1, cnt(mine)); full = team == cnt(mine); entered = 0; c.note("parallel region with %d threads", team); fin(P.call(0, Msg(PAR, {team})), "parallel region", false); ++events; if (full) for (int x : own) { PCHECK(c, !(facpu(act) >> x & 1), "parallel region with all the CPUs: a free agent is still active on CPU %d", x); PCHECK(c, busy(x), "parallel region with all the CPUs: CPU %d is not reclaimed", x); } }
            else if (entered < team) { int x = own[entered]; inpar |= 1ul << x; fin(P.call(0, Msg(IMPL, {entered, team})), ("worker " + std::to_string(entered) + " enters the region").c_str(), false); ++entered; PCHECK(c, busy(x), "worker %d runs on CPU %d, which is still lent", entered - 1, x); }
            else if (c.chance(1, 4)) { M b = act; auto bc = cpu; fin(P.call(0, Msg(NEST)), "nested region", false); PCHECK(c, b == act && bc == cpu, "a nested parallel region changes the free agents or the CPUs"); }
            else { bool w = false; for (int i = 0; i < team; ++i) w |= wrun[i]; if (w) continue; M b = act; auto bc = cpu; M wasin = inpar; inpar = 0; full = false; int t = team; team = 0; fin(P.call(0, Msg(PAREND, {t})), "end of the parallel region", false); PCHECK(c, b == act, "the end of a parallel region changes the free agents"); M fa = facpu(act); if (lend) { for (int x : own) if ((workers & wasin) >> x & 1) if (!(fa >> x & 1)) PCHECK(c, !busy(x), "end of the parallel region with the policy lend: CPU %d is not lent", x); } else PCHECK(c, bc == cpu, "the end of a parallel region without the policy lend changes the CPUs"); (void)b; }
        } else if (k == 4 && !team) {
            if (!inmpi) { if (wrun[0]) continue; inmpi = true; fin(P.call(0, Msg(MPI_IN)), "blocking call begins", false); M fa = facpu(act); for (int x : own) if (!(fa >> x & 1) && (x == own[0] || (workers >> x & 1) || std::count(fc.begin(), fc.end(), x))) PCHECK(c, !busy(x), "in a blocking call CPU %d is not lent, no free agent is active on it", x); ++events; }
            else { inmpi = false; fin(P.call(0, Msg(MPI_OUT)), "blocking call ends", false); PCHECK(c, busy(own[0]), "after a blocking call the CPU of the primary thread is not recovered"); if (!lend) for (int x : own) PCHECK(c, busy(x), "after a blocking call CPU %d is not recovered", x); }
        } else if (k == 5 && here) {
            int o = c.weighted({4, 4, 2, 2, 2}), e; const char *w; switch (o) { case 0: w = "Lend"; e = P.call(1, Msg(X_LEND)).v[0]; break; case 1: w = "Reclaim"; e = P.call(1, Msg(X_RECLAIM)).v[0]; break; case 2: w = "LendCpu"; e = P.call(1, Msg(X_LENDCPU, {c.draw(n)})).v[0]; break; case 3: w = "Borrow"; e = P.call(1, Msg(X_BORROW, {c.range(1, 4)})).v[0]; break; default: w = "Return"; e = P.call(1, Msg(X_RETURN)).v[0]; } c.note("the other process calls %s = %d", w, e); ++events;
        }
    }
    if (inmpi) P.call(0, Msg(MPI_OUT)); if (team) P.call(0, Msg(PAREND, {entered})); int e = P.call(0, Msg(FIN)).v[0]; PCHECK(c, e == 0, "DLB_Finalize returns %d", e); if (here) { cpu = P.call(1, Msg(DUMP, {n}, key)).v; for (int i = 0; i < n; ++i) PCHECK(c, cpu[3 * i] != me && cpu[3 * i + 1] != me, "after finalizing the process still has CPU %d", i); }
    c.label("%s", los[lo]); if (events >= 6 && nfa) c.nontrivial();
}
int main(int argc, char **argv) {
    pbt::Options o; o.property = "C27"; o.rule = "at least one free agent and six changes of active free agents or CPUs."; o.quick_cases = 8000; o.thorough_cases = 1000000; o.hang_is_violation = true;
    return pbt::run(argc, argv, o, c27);
}
