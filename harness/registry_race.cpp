// C09 / C20: the process registry (DROM) and the TALP registry used by several real processes at the same time, in a library
// built so that each of its memory accesses may be delayed.
#include "rpc.hpp"
extern "C" {
#include "apis/dlb.h"
#include "apis/dlb_drom.h"
#include "apis/dlb_talp.h"
#include "LB_core/spd.h"
#include "support/mask_utils.h"
}
using pbt::Ctx; using rpc::Msg; typedef int64_t i64;
extern "C" void yrt_set(int, int, unsigned) __attribute__((weak));
static int g_n; static bool g_admin; static std::string g_args, g_prop; static cpu_set_t own; static i64 cur; static char bad[400]; static std::vector<int> g_pids; static std::vector<dlb_monitor_t *> regs; static std::vector<std::string> names;
static i64 bits(const cpu_set_t &s) { i64 m = 0; for (int i = 0; i < 64; ++i) if (CPU_ISSET(i, &s)) m |= 1ll << i; return m; }
static cpu_set_t cs(i64 m) { cpu_set_t s; CPU_ZERO(&s); for (int i = 0; i < 64; ++i) if (m >> i & 1) CPU_SET(i, &s); return s; }
enum { INIT = 1, FIN, STORM, ADMIN, POLL, GET, ATTACH, DETACH, SETM, PIDS, WHOLE, TSTORM, READER, TSTAT, NODE, TIMES };
static unsigned x; static int rnd(int k) { x = x * 1664525u + 1013904223u; return (int)((x >> 12) % k); }
static int poll1() { int n = -1; cpu_set_t s; CPU_ZERO(&s); int e = DLB_PollDROM(&n, &s); if (e == 0) { cur = bits(s); if (n != CPU_COUNT(&s) || cur >> g_n) snprintf(bad, sizeof bad, "poll gives %d CPUs and the mask %#llx", n, (long long)cur); } else if (e != DLB_NOUPDT) snprintf(bad, sizeof bad, "poll returns %d", e); return e; }
static int setm() { i64 m = 0; while (!(m &= (1ll << g_n) - 1)) m = (i64)rnd(1 << 20) & (rnd(2) ? -1 : (i64)rnd(1 << 20)); cpu_set_t s = cs(m); int f = rnd(3) == 0 ? 0 : DLB_STEAL_CPUS; int t = g_pids[rnd(g_pids.size())]; if (t == getpid() && !g_admin) return DLB_NOUPDT; return DLB_DROM_SetProcessMask(t, &s, (dlb_drom_flags_t)f); } // a process that sets its own mask has it at once: left out
static Msg handle(const Msg &m) {
    Msg r; int e = 0; i64 a = m.v.empty() ? 0 : m.v[0]; switch (m.op) {
        case INIT: { cpu_set_t s = own; e = DLB_Init(CPU_COUNT(&s), &s, g_args.c_str()); cur = bits(own); for (auto p : m.v) g_pids.push_back(p); break; }
        case FIN: e = DLB_Finalize(); break;
        case ATTACH: setenv("DLB_ARGS", g_args.c_str(), 1); for (auto p : m.v) g_pids.push_back(p); e = g_prop == "C20" ? DLB_TALP_Attach() : DLB_DROM_Attach(); break;
        case DETACH: e = g_prop == "C20" ? DLB_TALP_Detach() : DLB_DROM_Detach(); break;
        case STORM: case ADMIN: { x = a; if (yrt_set) yrt_set(m.v[3], m.v[4], x); int done = 0; for (int k = 0; k < m.v[1] && !bad[0]; ++k) { if (m.v[2] && rnd(8) == 0) usleep(rnd(60));
                switch (m.op == ADMIN ? rnd(3) + 2 : rnd(6)) {
                    case 0: case 1: case 5: poll1(); break; case 2: { int q = setm(); if (q == 0) ++done; else if (q != DLB_ERR_PERM && q != DLB_ERR_PDIRTY && q != DLB_NOUPDT) snprintf(bad, sizeof bad, "SetProcessMask returns %d", q); break; }
                    case 3: { cpu_set_t s; CPU_ZERO(&s); int t = g_pids[rnd(g_pids.size())]; int q = DLB_DROM_GetProcessMask(t, &s, (dlb_drom_flags_t)0); if (q == DLB_NOTED && t == getpid()) cur = bits(s); if (q < 0 || bits(s) >> g_n) snprintf(bad, sizeof bad, "GetProcessMask returns %d, mask %#llx", q, (long long)bits(s)); break; }
                    case 4: { int l[64], n = -1; int q = DLB_DROM_GetPidList(l, &n, 64); std::set<int> u(l, l + std::max(0, n)); if (q || (int)u.size() != n || n < (int)g_pids.size()) snprintf(bad, sizeof bad, "GetPidList returns %d with %d processes, %d different, %d are attached", q, n, (int)u.size(), (int)g_pids.size()); break; }
                } }
            if (yrt_set) yrt_set(0, 1, 1); r.v = {done}; r.s = bad; return r; }
        case POLL: e = poll1(); r.v = {e, cur}; r.s = bad; return r;
        case GET: { cpu_set_t s; CPU_ZERO(&s); e = DLB_DROM_GetProcessMask(a, &s, (dlb_drom_flags_t)0); r.v = {e, bits(s)}; return r; }
        case SETM: { cpu_set_t s = cs(m.v[1]); e = DLB_DROM_SetProcessMask(a, &s, (dlb_drom_flags_t)m.v[2]); break; }
        case WHOLE: { cpu_set_t s = cs((1ll << g_n) - 1); e = DLB_Init(g_n, &s, g_args.c_str()); if (!e) DLB_Finalize(); break; }
        case TSTORM: { x = a; if (yrt_set) yrt_set(m.v[3], m.v[4], x); for (int k = 0; k < m.v[1]; ++k) { if (m.v[2] && rnd(8) == 0) usleep(rnd(60)); switch (rnd(5)) { case 0: { std::string s = "r" + std::to_string(rnd(6)); dlb_monitor_t *d = DLB_MonitoringRegionRegister(s.c_str()); if (!d) { snprintf(bad, sizeof bad, "Register returns nothing"); break; } if (std::find(names.begin(), names.end(), s) == names.end()) { names.push_back(s); regs.push_back(d); } else if (std::find(regs.begin(), regs.end(), d) == regs.end()) snprintf(bad, sizeof bad, "region registered again with another handle"); break; }
                case 1: if (!regs.empty()) DLB_MonitoringRegionStart(regs[rnd(regs.size())]); break; case 2: if (!regs.empty()) DLB_MonitoringRegionStop(regs[rnd(regs.size())]); break; case 3: DLB_MonitoringRegionsUpdate(); break; case 4: usleep(rnd(30)); break; } } for (auto d : regs) DLB_MonitoringRegionStop(d); if (yrt_set) yrt_set(0, 1, 1); r.s = bad; return r; }
        case READER: { x = a; if (yrt_set) yrt_set(m.v[3], m.v[4], x); static std::map<std::pair<std::string, int>, std::pair<i64, i64>> last; for (int k = 0; k < m.v[1] && !bad[0]; ++k) { if (rnd(3) == 0) usleep(rnd(60)); if (rnd(4) == 0) { int p = g_pids[rnd(g_pids.size())]; double mt = -1, ut = -1; int q = DLB_TALP_GetTimes(p, &mt, &ut); auto &l = last[{"", p}]; i64 u = llround(ut * 1e9); if (q == 0 && (u < l.second || mt != 0)) snprintf(bad, sizeof bad, "GetTimes: useful time %lld after %lld, MPI time %g", (long long)u, (long long)l.second, mt); if (q == 0) l.second = u; continue; }
                std::string s = "r" + std::to_string(rnd(6)); dlb_node_times_t l[64]; int n = -1; int q = DLB_TALP_GetNodeTimes(s.c_str(), l, &n, 64); if (q == 0) for (int i = 0; i < n; ++i) { if (std::find(g_pids.begin(), g_pids.end(), l[i].pid) == g_pids.end() || (i && l[i].pid <= l[i - 1].pid)) snprintf(bad, sizeof bad, "GetNodeTimes(%s): entry %d of %d is of process %d", s.c_str(), i, n, l[i].pid); auto &t = last[{s, l[i].pid}]; if (l[i].useful_time < t.second || l[i].mpi_time) snprintf(bad, sizeof bad, "GetNodeTimes(%s): useful time of %d is %lld, before %lld", s.c_str(), l[i].pid, (long long)l[i].useful_time, (long long)t.second); t.second = l[i].useful_time; } }
            if (yrt_set) yrt_set(0, 1, 1); r.s = bad; return r; }
        case TSTAT: for (size_t i = 0; i < regs.size(); ++i) { r.s += names[i] + " "; r.v.push_back(regs[i]->useful_time); } return r;
        case NODE: { dlb_node_times_t l[64]; int n = -1; e = DLB_TALP_GetNodeTimes(m.s.c_str(), l, &n, 64); r.v = {e}; if (!e) for (int i = 0; i < n; ++i) { r.v.push_back(l[i].pid); r.v.push_back(l[i].useful_time); } return r; }
    }
    r.v = {e}; return r;
}
static void one(Ctx &c) {
    bool talp = g_prop == "C20"; int np = c.range(2, 4), na = c.range(1, 2), n = c.range(std::max(np + na, 4), 12); g_n = n; mu_testing_set_sys_size(n); unsetenv("DLB_ARGS"); g_args = "--shm-key=" + c.key + " --quiet=yes --barrier=no " + (talp ? "--talp --talp-external-profiler --talp-summary=none" : "--drom");
    std::vector<i64> mask(np); for (int i = 0; i < n; ++i) { if (i < np) mask[i] |= 1ll << i; else if (c.chance(3, 4)) mask[c.range(0, np - 1)] |= 1ll << i; }
    rpc::Pool P(c); c.note("%d processes and %d %s, node of %d CPUs", np, na, talp ? "readers" : "administrators", n);
    for (int i = 0; i < np + na; ++i) { i64 mk = i < np ? mask[i] : 0; P.spawn([=](int) { own = cs(mk); return [](const Msg &m) { return handle(m); }; }); }
    std::vector<i64> pids; for (int i = 0; i < np; ++i) pids.push_back(P.p[i].pid); for (int i = 0; i < np; ++i) P.post(i, Msg(INIT, pids)); for (int i = 0; i < np; ++i) { auto r = P.wait(i); PCHECK(c, r.v[0] == 0, "Init of process %d returned %ld", i, (long)r.v[0]); }
    for (int i = np; i < np + na; ++i) { auto r = P.call(i, Msg(ATTACH, pids)); PCHECK(c, r.v[0] == 0, "Attach returned %ld", (long)r.v[0]); }
    int rounds = c.len(1, 4), sets = 0; for (int k = 0; k < rounds; ++k) {
        int calls = c.oneof<int>({5, 30, 120}), yp = c.oneof<int>({0, 4, 20, 100}), ym = c.oneof<int>({1, 20, 200}); c.note("%d calls each at the same time", calls); for (int i = 0; i < np + na; ++i) P.post(i, Msg(talp ? i < np ? TSTORM : READER : i < np ? STORM : ADMIN, {(i64)c.draw(1u << 31), calls, c.range(0, 1), yp, ym}));
        for (int i = 0; i < np + na; ++i) { auto r = P.wait(i, 40); PCHECK(c, r.s.empty(), "process %d: %s", i, r.s.c_str()); if (!talp) sets += r.v[0]; } c.count(calls * (np + na));
        if (!talp) {
            std::vector<i64> cu(np); for (int rep = 0; rep < 3; ++rep) for (int i = 0; i < np; ++i) { auto r = P.call(i, Msg(POLL)); PCHECK(c, r.s.empty(), "process %d: %s", i, r.s.c_str()); cu[i] = r.v[1]; PCHECK(c, rep < 2 || r.v[0] == DLB_NOUPDT, "process %d: poll returned %ld, nothing has changed", i, (long)r.v[0]); }
            i64 all = 0; for (int i = 0; i < np; ++i) { auto r = P.call(np, Msg(GET, {pids[i]})); PCHECK(c, r.v[0] == 0 && r.v[1] == cu[i], "process %d has the mask %#llx, the registry %#llx (%ld)", i, (long long)cu[i], (long long)r.v[1], (long)r.v[0]); PCHECK(c, !(all & cu[i]), "two processes have the CPUs %#llx", (long long)(all & cu[i])); all |= cu[i]; }
            i64 fr = ((1ll << n) - 1) & ~all; if (fr) { int t = c.range(0, np - 1); auto r = P.call(np, Msg(SETM, {pids[t], cu[t] | fr, 0})); PCHECK(c, r.v[0] == 0, "the CPUs %#llx, which nobody has, cannot be given to process %d: %ld", (long long)fr, t, (long)r.v[0]); r = P.call(t, Msg(POLL)); PCHECK(c, r.v[0] == 0 && r.v[1] == (cu[t] | fr), "process %d does not receive the free CPUs", t); }
        } else {
            std::map<std::string, std::map<i64, i64>> w; for (int i = 0; i < np; ++i) { auto r = P.call(i, Msg(TSTAT)); size_t p = 0; for (size_t q = 0; q < r.v.size(); ++q) { size_t e = r.s.find(' ', p); w[r.s.substr(p, e - p)][pids[i]] = r.v[q]; p = e + 1; } }
            for (auto &e : w) { auto r = P.call(np, Msg(NODE, {}, e.first)); std::map<i64, i64> g; for (size_t q = 1; q + 1 < r.v.size(); q += 2) g[r.v[q]] = r.v[q + 1]; PCHECK(c, r.v[0] == 0 && g == e.second && r.v.size() == 1 + 2 * g.size(), "region %s: the registry lists %zu processes (%ld), %zu have registered it, or the times differ", e.first.c_str(), r.v.size() / 2, (long)r.v[0], e.second.size()); ++sets; }
        }
    }
    for (int i = np; i < np + na; ++i) { auto r = P.call(i, Msg(DETACH)); PCHECK(c, r.v[0] == 0, "Detach returned %ld", (long)r.v[0]); } for (int i = 0; i < np; ++i) P.post(i, Msg(FIN)); for (int i = 0; i < np; ++i) { auto r = P.wait(i); PCHECK(c, r.v[0] == 0, "Finalize returned %ld", (long)r.v[0]); }
    if (!talp) { auto r = P.call(0, Msg(WHOLE)); PCHECK(c, r.v[0] == 0, "after everybody finished the whole node cannot be used: %ld", (long)r.v[0]); }
    for (const char *m : {"talp", "procinfo", "cpuinfo"}) { std::string p = std::string("/dev/shm/DLB_") + m + "_" + c.key; PCHECK(c, access(p.c_str(), F_OK), "%s remains", p.c_str()); } if (sets) c.nontrivial();
}
int main(int argc, char **argv) {
    g_prop = "C09"; std::vector<char *> a; for (int i = 0; i < argc; ++i) { if (!strcmp(argv[i], "--prop") && i + 1 < argc) { g_prop = argv[++i]; continue; } a.push_back(argv[i]); }
    pbt::Options o; o.property = g_prop.c_str(); o.quick_cases = 6000; o.thorough_cases = 200000; o.quick_cap_s = 40; o.case_timeout = 60; o.hang_is_violation = true;
    return pbt::run(a.size(), a.data(), o, one);
}
