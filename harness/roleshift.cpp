// C27: the role-shift thread manager under a fake OpenMP runtime, with another process.
#include "pbt.hpp"
#include "rpc.hpp"
#include <array>
#include <set>
#include <algorithm>
#include <sys/mman.h>
extern "C" {
#include "apis/dlb.h"
#include "LB_numThreads/omptm_role_shift.h"
#include "apis/dlb_drom.h"
#include "LB_core/DLB_kernel.h"
#include "LB_core/spd.h"
#include "LB_comm/shmem_cpuinfo.h"
#include "LB_numThreads/omp-tools.h"
#include "support/mask_utils.h"
ompt_start_tool_result_t *ompt_start_tool(unsigned int, const char *);
int __real_sched_getcpu(void); int __real_pthread_setaffinity_np(pthread_t, size_t, const cpu_set_t *); int __real_pthread_getaffinity_np(pthread_t, size_t, cpu_set_t *); int __real_sched_getaffinity(pid_t, size_t, cpu_set_t *);
}
using pbt::Ctx; using rpc::Msg; typedef int64_t i64; typedef uint64_t M;
static M tom(const cpu_set_t *s) { M m = 0; for (int i = 0; i < 64; ++i) if (CPU_ISSET(i, s)) m |= 1ul << i; return m; }
static cpu_set_t tos(M m) { cpu_set_t s; CPU_ZERO(&s); for (int i = 0; i < 64; ++i) if (m >> i & 1) CPU_SET(i, &s); return s; }
static std::string ms(M m) { std::string s = "{"; for (int i = 0; i < 64; ++i) if (m >> i & 1) s += (s.size() > 1 ? "," : "") + std::to_string(i); return s + "}"; }
static int cnt(M m) { return __builtin_popcountl(m); }

// ---- the process under test: simulated threads -------------------------------
struct Thread { M aff = 0; int cpu = 0; };
static std::vector<Thread> T; static int cur; static bool sim; static int requested = -1; static ompt_start_tool_result_t *tool;
extern "C" void omp_set_num_threads(int n) { requested = n; }
extern "C" int __wrap_sched_getcpu(void) { return sim ? T[cur].cpu : __real_sched_getcpu(); }
extern "C" int __wrap_pthread_setaffinity_np(pthread_t t, size_t n, const cpu_set_t *s) { if (!sim) return __real_pthread_setaffinity_np(t, n, s); M m = tom(s); if (!m) return EINVAL; T[cur].aff = m; if (!(m >> T[cur].cpu & 1)) T[cur].cpu = __builtin_ctzl(m); return 0; }
extern "C" int __wrap_pthread_getaffinity_np(pthread_t t, size_t n, cpu_set_t *s) { if (!sim) return __real_pthread_getaffinity_np(t, n, s); *s = tos(T[cur].aff); return 0; }
extern "C" int __wrap_sched_getaffinity(pid_t p, size_t n, cpu_set_t *s) { if (!sim) return __real_sched_getaffinity(p, n, s); *s = tos(T[cur].aff); return 0; }
static std::map<int, ompt_callback_t> CB;
static ompt_set_result_t set_cb(ompt_callbacks_t e, ompt_callback_t f) { if (f) CB[e] = f; else CB.erase(e); return ompt_set_always; }
static ompt_interface_fn_t lookup_fn(const char *n) { return !strcmp(n, "ompt_set_callback") ? (ompt_interface_fn_t)set_cb : nullptr; }
#define CALL(type, ev, ...) do { if (CB.count(ev)) ((type)CB[ev])(__VA_ARGS__); } while (0)
enum { INIT, TBEGIN, SHIFT, CREATE, SWITCH, COMPLETE, PAR, PAREND, MPI_IN, MPI_OUT, FIN, OINIT, X_LEND, X_RECLAIM, X_LENDCPU, X_BORROW, X_RETURN, NEST, DUMP };
struct Dump { std::vector<std::array<i64, 3>> cpu; };
static void dump(const char *key, int n, std::vector<i64> &o) {       // owner, guest, busy
    int fd = memfd_create("reg", 0); fflush(stderr); int save = dup(2); dup2(fd, 2); shmem_cpuinfo__print_info(key, 0, 1, (dlb_printshmem_flags_t)0); fflush(stderr); dup2(save, 2); close(save);
    std::string t(lseek(fd, 0, SEEK_END), 0); pread(fd, &t[0], t.size(), 0); close(fd); o.assign(3 * n, 0); size_t p = 0;
    while (p < t.size()) { size_t e = t.find('\n', p); if (e == std::string::npos) e = t.size(); std::string l = t.substr(p, e - p); p = e + 1; size_t q = l.find('['); if (q == std::string::npos) continue; while (q > 0 && (isspace(l[q - 1]) || isdigit(l[q - 1]))) --q; int c, ow, g; char st[8]; if (l.find("Cpu requests") != std::string::npos) break; if (sscanf(l.c_str() + q, " %d [ %d / %d / %4s ]", &c, &ow, &g, st) == 4 && c >= 0 && c < n) { o[3 * c] = ow; o[3 * c + 1] = g; o[3 * c + 2] = !strcmp(st, "busy") || !strcmp(st, "recl"); } }
}
static int kmp_id, NFA, SYS, nthreads; static std::map<int, int> target; static std::vector<int> reqs;      // fake OpenMP runtime with threads that change of role
extern "C" { extern __thread int global_tid; int *omptm_role_shift_testing__get_cpu_by_id_ptr(void);
int __kmp_get_thread_id(void) { return kmp_id; } int __kmp_get_num_threads_role(ompt_role_t r) { return r == OMP_ROLE_FREE_AGENT ? NFA : 0; } int __kmp_get_thread_roles(int, ompt_role_t *) { return 0; } void __kmp_set_thread_roles1(int, ompt_role_t) {}
void __kmp_set_thread_roles2(int tid, ompt_role_t r) { if (tid == SYS) tid = nthreads++; else if (tid >= nthreads) abort(); target[tid] = r == OMP_ROLE_FREE_AGENT; reqs.push_back(tid); } }
static void as(int t) { cur = t; kmp_id = t; global_tid = t; }
static Msg handle(const Msg &m) {
    Msg r; auto V = [&](int i) { return m.v[i]; }; static ompt_data_t par, itask, nested, td; static ompt_frame_t outer, inner; inner.exit_frame.ptr = &inner; static char code; ompt_data_t xt{}; reqs.clear();
    switch (m.op) {
    case INIT: { T.assign(200, Thread{}); { int k = 0; for (int i = 0; i < 64; ++i) if (V(0) >> i & 1) T[k++] = Thread{1ul << i, i}; } cur = 0; sim = true; NFA = V(1); nthreads = V(1); SYS = V(2); for (int i = 0; i < NFA; ++i) target[i] = 1; size_t p = 0; std::string s = m.s; while ((p = s.find('\n')) != std::string::npos) { std::string kv = s.substr(0, p); s = s.substr(p + 1); size_t q = kv.find('='); setenv(kv.substr(0, q).c_str(), kv.substr(q + 1).c_str(), 1); }
        cpu_set_t k = tos(V(0)); int e = DLB_Init(0, &k, nullptr); if (e) { r.v = {-1, e}; return r; } tool = ompt_start_tool(201811, "fake"); int ok = tool->initialize(lookup_fn, 0, &tool->tool_data); r.v = {ok, (i64)CB.size()}; as(0); CALL(ompt_callback_thread_begin_t, ompt_callback_thread_begin, ompt_thread_initial, &itask); return r; }
    case TBEGIN: { int k = V(0); if (V(1)) T[k] = Thread{(M)V(1), __builtin_ctzl(V(1))}; kmp_id = k; cur = k; global_tid = -1; CALL(ompt_callback_thread_begin_t, ompt_callback_thread_begin, ompt_thread_other, &xt); r.v = {(i64)T[k].aff}; break; }
    case SHIFT: as(V(0)); CALL(ompt_callback_thread_role_shift_t, ompt_callback_thread_role_shift, &xt, V(1) ? OMP_ROLE_NONE : OMP_ROLE_FREE_AGENT, V(1) ? OMP_ROLE_FREE_AGENT : OMP_ROLE_NONE); r.v = {0}; break;
    case CREATE: as(V(0)); CALL(ompt_callback_task_create_t, ompt_callback_task_create, &itask, &outer, &xt, ompt_task_explicit, 0, &code); r.v = {0}; break;
    case SWITCH: as(V(0)); CALL(ompt_callback_task_schedule_t, ompt_callback_task_schedule, &itask, ompt_task_switch, &xt); r.v = {0}; break;
    case COMPLETE: as(V(0)); CALL(ompt_callback_task_schedule_t, ompt_callback_task_schedule, &xt, ompt_task_complete, &itask); r.v = {0}; break;
    case PAR: as(0); par.value = 0; CALL(ompt_callback_parallel_begin_t, ompt_callback_parallel_begin, &itask, &outer, &par, 1, ompt_parallel_team | ompt_parallel_invoker_program, &code); CALL(ompt_callback_implicit_task_t, ompt_callback_implicit_task, ompt_scope_begin, &par, &td, 1, 0, ompt_task_implicit); r.v = {0}; break;
    case PAREND: as(0); CALL(ompt_callback_implicit_task_t, ompt_callback_implicit_task, ompt_scope_end, nullptr, &td, 1, 0, ompt_task_implicit); CALL(ompt_callback_parallel_end_t, ompt_callback_parallel_end, &par, &itask, ompt_parallel_team | ompt_parallel_invoker_program, &code); r.v = {0}; break;
    case MPI_IN: case MPI_OUT: { as(0); sync_call_flags_t f{}; f.is_mpi = true; f.is_blocking = true; f.do_lewi = true; spd_enter_dlb(nullptr); if (m.op == MPI_IN) into_sync_call(f); else out_of_sync_call(f); r.v = {0}; break; }
    case FIN: tool->finalize(&tool->tool_data); sim = false; r.v = {DLB_Finalize()}; return r;
    case OINIT: { cpu_set_t k = tos(V(0)); r.v = {DLB_Init(0, &k, m.s.c_str())}; return r; }
    case X_LEND: r.v = {DLB_Lend()}; return r; case X_RECLAIM: r.v = {DLB_Reclaim()}; return r; case X_LENDCPU: r.v = {DLB_LendCpu(V(0))}; return r; case X_BORROW: r.v = {DLB_BorrowCpus(V(0))}; return r; case X_RETURN: r.v = {DLB_Return()}; return r;
    case DUMP: dump(m.s.c_str(), (int)V(0), r.v); return r;
    }
    M want = 0; for (auto &t : target) if (t.second) want |= 1ul << t.first; r.v.push_back(want); r.v.push_back(nthreads); return r;
}

static void c27(Ctx &c) {
    int n = c.range(1, 8); mu_testing_set_sys_size(n); M mine = 0, other = 0; for (int i = 0; i < n; ++i) { int w = c.weighted({4, 4, 1}); if (w == 0) mine |= 1ul << i; else if (w == 1) other |= 1ul << i; } if (!mine) { mine = 1; other &= ~1ul; }
    int lo = c.weighted({3, 2, 1, 2}); bool lend = lo >= 2; const char *los[] = {"borrow", "none", "lend", "borrow:lend"}; std::vector<int> own; for (int i = 0; i < n; ++i) if (mine >> i & 1) own.push_back(i); int nf = own.size();
    std::string key = c.key, env = "DLB_ARGS=--ompt --ompt-thread-manager=role-shift --lewi --lewi-ompt=" + std::string(los[lo]) + " --shm-key=" + key + "\nOMP_NUM_THREADS=1\n";
    rpc::Pool P(c); for (int i = 0; i < 2; ++i) P.spawn([](int) { unsetenv("DLB_ARGS"); unsetenv("OMP_NUM_THREADS"); unsetenv("LB_ARGS"); return rpc::Handler(handle); }); i64 me = P.p[0].pid; std::vector<i64> cpu; auto look = [&] { cpu = P.call(0 + (other ? 1 : 0), Msg(DUMP, {n}, key)).v; };
    c.note("%d CPUs; process with %s, OMP_NUM_THREADS=1, %d free agents, --lewi-ompt=%s", n, ms(mine).c_str(), nf, los[lo]);
    bool here = false; auto other_in = [&] { int r = P.call(1, Msg(OINIT, {(i64)other}, "--lewi --shm-key=" + key)).v[0]; c.note("other process: Init with %s = %d", ms(other).c_str(), r); PCHECK(c, r == 0, "Init of the other process returns %d", r); here = true; }; if (other && c.flip()) other_in();
    auto r = P.call(0, Msg(INIT, {(i64)mine, nf, n}, env)); PCHECK(c, r.v[0] == 1, "the tool is not initialized: %ld", (long)r.v[0]); if (other && !here) other_in();
    int pend = 0, events = 0, nt = nf; bool inmpi = false, inpar = false; M role = (1ul << nf) - 1, want = role; std::vector<int> tc(64, -1); std::vector<char> run(64, 0), begun(64, 0); for (int i = 0; i < nf; ++i) { tc[i] = own[i]; begun[i] = 1; }
    auto guest = [&](int x) { return cpu[3 * x + 1] == me; }; auto busy = [&](int x) { return (bool)cpu[3 * x + 2]; }; auto has = [&](int x) { return guest(x) || (cpu[3 * x] == me && busy(x)); };
    auto cpus = [&](M w) { M m = 0; for (int k = 1; k < 64; ++k) if ((w >> k & 1) && tc[k] >= 0) m |= 1ul << tc[k]; return m; };
    auto absorb = [&](const Msg &a) { want = (M)a.v[a.v.size() - 2]; nt = (int)a.v.back(); PCHECK(c, nt <= n, "%d threads are created with %d CPUs", nt, n); };
    // deliver the events of the OpenMP runtime that follow a call: new threads begin, threads without task change of role
    auto settle = [&](const char *w, bool work) { M before = role; for (int round = 0; round < 200; ++round) { bool any = false;
            for (int k = 1; k < nt; ++k) if (!begun[k]) { any = true; begun[k] = 1; Msg a = P.call(0, Msg(TBEGIN, {k, (i64)mine})); M af = (M)a.v[0]; PCHECK(c, __builtin_popcountl(af) == 1, "%s: the new free agent %d may run on %s", w, k, ms(af).c_str()); int x = __builtin_ctzl(af); for (int q = 0; q < 64; ++q) PCHECK(c, tc[q] != x, "%s: the new free agent %d is bound to CPU %d, where thread %d runs", w, k, x, q); tc[k] = x; role |= 1ul << k; absorb(a); c.note("free agent %d begins on CPU %d", k, x); }
            for (int k = 1; k < nt; ++k) if (begun[k] && !run[k] && ((role ^ want) >> k & 1)) { any = true; bool fa = want >> k & 1; if (fa) role |= 1ul << k; else role &= ~(1ul << k); absorb(P.call(0, Msg(SHIFT, {k, fa}))); }
            if (!any) break; PCHECK(c, round < 199, "%s: the free agents change of role forever", w); }
        look(); c.note("%s: free agents on %s", w, ms(cpus(want)).c_str()); for (int k = 1; k < nt; ++k) if (want >> k & 1) PCHECK(c, has(tc[k]), "%s: free agent %d is active on CPU %d, that the process does not have", w, k, tc[k]); M grow = cpus(want) & ~cpus(before); if (!work) PCHECK(c, !(grow & ~mine), "%s: the free agents on %s are activated without pending tasks", w, ms(grow & ~mine).c_str()); M g = 0; for (int x = 0; x < n; ++x) if (guest(x) && !(mine >> x & 1)) g |= 1ul << x; PCHECK(c, (g & ~cpus(want)) == 0, "%s: the process keeps CPU %s without an active free agent", w, ms(g & ~cpus(want)).c_str()); if (role != before) ++events; };
    for (int k = 1; k < nf; ++k) { Msg a = P.call(0, Msg(TBEGIN, {k, 0})); absorb(a); PCHECK(c, (M)a.v[0] == 1ul << own[k], "free agent %d is bound to %s", k, ms((M)a.v[0]).c_str()); } settle("free agents created", false); PCHECK(c, want == role && cnt(want) == nf, "the initial free agents are not active");
    int steps = c.len(1, 50); for (int s = 0; s < steps; ++s) {
        int k = c.weighted({10, 10, 10, 2, 3, 6}); look(); std::vector<int> ths; if (!inmpi) ths.push_back(0); for (int q = 1; q < nt; ++q) if (run[q] || (role & want) >> q & 1) ths.push_back(q);
        if (k == 0) { std::vector<int> cr; for (int t : ths) if (t == 0 || run[t]) cr.push_back(t); if (cr.empty()) continue; int t = cr[c.draw(cr.size())]; M idle = 0; for (int x = 0; x < n; ++x) if (!(mine >> x & 1) && cpu[3 * x] && !cpu[3 * x + 1] && !busy(x)) idle |= 1ul << x; bool lent = false, pendrec = false; for (int x : own) { if (!busy(x) && (lo != 2 || !cpu[3 * x + 1])) lent = true; if (busy(x) && !guest(x)) pendrec = true; } if (pendrec) lent = false; for (int x : own) if (!guest(x)) idle = 0; M b = want; ++pend; absorb(P.call(0, Msg(CREATE, {t}))); settle(("task created by thread " + std::to_string(t)).c_str(), true); M up = cpus(want) & ~cpus(b); PCHECK(c, cnt(up) <= 1, "task created: the free agents on %s are activated for one task", ms(up).c_str()); if ((idle || lent) && !inmpi) PCHECK(c, up, "task created: no free agent is activated with the idle CPUs %s%s", ms(idle).c_str(), lent ? " and CPUs of the process lent" : ""); if (up & ~mine) c.label("borrowed"); c.count(1);
        } else if (k == 1) { std::vector<int> cr; for (int t : ths) if (!run[t]) cr.push_back(t); if (cr.empty() || !pend) continue; int t = cr[c.draw(cr.size())]; --pend; run[t] = 1; absorb(P.call(0, Msg(SWITCH, {t}))); settle(("task started by thread " + std::to_string(t)).c_str(), pend > 0);
        } else if (k == 2) { std::vector<int> cr; for (int q = 0; q < nt; ++q) if (run[q] && (q || !inmpi)) cr.push_back(q); if (cr.empty()) continue; int t = cr[c.draw(cr.size())]; auto bc = cpu; M before = want; absorb(P.call(0, Msg(COMPLETE, {t}))); run[t] = 0; M now = want; settle(("task completed by thread " + std::to_string(t)).c_str(), pend > 0);
            if (t > 0 && (before >> t & 1)) { int x = tc[t]; bool on = now >> t & 1, ours = mine >> x & 1; if (!ours && bc[3 * x + 2]) { PCHECK(c, !on && !guest(x), "free agent %d completed a task and still uses CPU %d, wanted by its owner", t, x); c.label("returned"); ++events; } else if (!pend && (!ours || lend)) { PCHECK(c, !on, "free agent %d is still active without pending tasks", t); if (!ours) PCHECK(c, !guest(x), "CPU %d is still borrowed without pending tasks", x); else PCHECK(c, !busy(x), "CPU %d is not lent without pending tasks with the policy lend", x); c.label("given back"); } else PCHECK(c, on, "free agent %d on CPU %d is not active after a task with %d pending tasks", t, x, pend); } c.count(1);
        } else if (k == 3) { if (inmpi || run[0]) continue; absorb(P.call(0, Msg(inpar ? PAREND : PAR))); inpar = !inpar; settle(inpar ? "parallel region" : "end of the parallel region", pend > 0);
        } else if (k == 4 && !inpar) { if (!inmpi) { if (run[0]) continue; M rn = 0; for (int q = 1; q < nt; ++q) if (run[q]) rn = 1; if (rn) continue; inmpi = true; absorb(P.call(0, Msg(MPI_IN))); settle("blocking call begins", pend > 0); PCHECK(c, !(cpus(want) & mine), "in a blocking call the free agents on %s are active", ms(cpus(want) & mine).c_str()); for (int x : own) PCHECK(c, !busy(x), "in a blocking call CPU %d is not lent", x); ++events; }
            else { inmpi = false; absorb(P.call(0, Msg(MPI_OUT))); settle("blocking call ends", true); PCHECK(c, busy(own[0]), "after a blocking call the CPU of the primary thread is not recovered"); if (!lend) { for (int x : own) PCHECK(c, busy(x), "after a blocking call CPU %d is not recovered", x); PCHECK(c, (cpus(want) & mine) == (mine & ~(1ul << own[0])), "after a blocking call only the free agents on %s are active", ms(cpus(want)).c_str()); } }
        } else if (k == 5 && here) { int o = c.weighted({4, 4, 2, 2, 2}), e; const char *w; switch (o) { case 0: w = "Lend"; e = P.call(1, Msg(X_LEND)).v[0]; break; case 1: w = "Reclaim"; e = P.call(1, Msg(X_RECLAIM)).v[0]; break; case 2: w = "LendCpu"; e = P.call(1, Msg(X_LENDCPU, {c.draw(n)})).v[0]; break; case 3: w = "Borrow"; e = P.call(1, Msg(X_BORROW, {c.range(1, 4)})).v[0]; break; default: w = "Return"; e = P.call(1, Msg(X_RETURN)).v[0]; } c.note("the other process calls %s = %d", w, e); ++events; }
    }
    if (inmpi) P.call(0, Msg(MPI_OUT)); int e = P.call(0, Msg(FIN)).v[0]; PCHECK(c, e == 0, "DLB_Finalize returns %d", e); if (here) { cpu = P.call(1, Msg(DUMP, {n}, key)).v; for (int i = 0; i < n; ++i) PCHECK(c, cpu[3 * i] != me && cpu[3 * i + 1] != me, "after finalizing the process still has CPU %d", i); }
    c.label("%s", los[lo]); if (events >= 6) c.nontrivial();
}
int main(int argc, char **argv) {
    pbt::Options o; o.property = "C27"; o.rule = "at least six changes of active free agents or CPUs."; o.quick_cases = 6000; o.thorough_cases = 1000000; o.hang_is_violation = true;
    return pbt::run(argc, argv, o, c27);
}
