// C11 / C25: the public API: lifecycle, failed calls, callbacks and both interfaces, by several real processes.
#include "rpc.hpp"
#include <dirent.h>
#include <thread>
#include <stddef.h>
extern "C" {
#include "apis/dlb.h"
#include "apis/dlb_sp.h"
#include "apis/dlb_drom.h"
#include "apis/dlb_talp.h"
#include "apis/dlb_stats.h"
#include "LB_comm/shmem.h"
#include "support/mask_utils.h"
int __real_sched_getaffinity(pid_t, size_t, cpu_set_t *); int __real_pthread_getaffinity_np(pthread_t, size_t, cpu_set_t *);
}
using pbt::Ctx; using rpc::Msg; typedef int64_t i64;
static cpu_set_t g_aff; static bool use_aff;
extern "C" int __wrap_sched_getaffinity(pid_t p, size_t n, cpu_set_t *s) { if (use_aff) { memcpy(s, &g_aff, std::min(n, sizeof g_aff)); return 0; } return __real_sched_getaffinity(p, n, s); }
extern "C" int __wrap_pthread_getaffinity_np(pthread_t t, size_t n, cpu_set_t *s) { if (use_aff) { memcpy(s, &g_aff, std::min(n, sizeof g_aff)); return 0; } return __real_pthread_getaffinity_np(t, n, s); }

enum Op { INIT = 1, FIN, ENABLE, DISABLE, SETMAX, UNSETMAX, CBSET, CBGET, LEND, LENDCPU, LENDCPUS, LENDMASK, RECLAIM, RECCPU, RECCPUS, RECMASK, ACQCPU, ACQCPUS, ACQMASK, ACQIN, BORROW, BORCPU, BORCPUS, BORMASK, BORIN, RETALL, RETCPU, RETMASK, POLL, POLLUPD, CHECK, SETVAR, GETVAR,
    BAR, BARATT, BARDET, NREG, NBAR, NATT, NDET, PRINTVAR, PRINTSHM, STRERR, OBSERVER, GETVERSION,
    DATT, DDET, DNCPU, DPIDS, DGET, DSET, DRECOVER, DPOSTFIN, TATT, TDET, TNCPU, TPIDS, TTIMES, TNODE, TQUERY, MGLOBAL, MREG, MRESET, MSTART, MSTOP, MREPORT, MUPDATE, TCOLL, TCOLLN, SINIT, SFIN, SNCPU, SPIDS, SLOAD, INFO, LASTOP };
static const char *names[] = {"", "Init", "Finalize", "Enable", "Disable", "SetMaxParallelism", "UnsetMaxParallelism", "CallbackSet", "CallbackGet", "Lend", "LendCpu", "LendCpus", "LendCpuMask", "Reclaim", "ReclaimCpu", "ReclaimCpus", "ReclaimCpuMask", "AcquireCpu", "AcquireCpus", "AcquireCpuMask", "AcquireCpusInMask", "Borrow", "BorrowCpu", "BorrowCpus", "BorrowCpuMask", "BorrowCpusInMask", "Return", "ReturnCpu", "ReturnCpuMask", "PollDROM", "PollDROM_Update", "CheckCpuAvailability", "SetVariable", "GetVariable",
    "Barrier", "BarrierAttach", "BarrierDetach", "BarrierNamedRegister", "BarrierNamed", "BarrierNamedAttach", "BarrierNamedDetach", "PrintVariables", "PrintShmem", "Strerror", "SetObserverRole", "GetVersion",
    "DROM_Attach", "DROM_Detach", "DROM_GetNumCpus", "DROM_GetPidList", "DROM_GetProcessMask", "DROM_SetProcessMask", "DROM_RecoverStolenCpus", "DROM_PostFinalize", "TALP_Attach", "TALP_Detach", "TALP_GetNumCPUs", "TALP_GetPidList", "TALP_GetTimes", "TALP_GetNodeTimes", "TALP_QueryPOPNodeMetrics", "MonitoringRegionGetGlobal", "MonitoringRegionRegister", "MonitoringRegionReset", "MonitoringRegionStart", "MonitoringRegionStop", "MonitoringRegionReport", "MonitoringRegionsUpdate", "TALP_CollectPOPMetrics", "TALP_CollectPOPNodeMetrics", "Stats_Init", "Stats_Finalize", "Stats_GetNumCpus", "Stats_GetPidList", "Stats_GetLoadAvg", "(info)"};
// ---- in the process
struct Cb { i64 which, var, arg, val; };
static std::vector<Cb> cbs; static std::mutex cbm;
static i64 m2i(const void *m) { i64 r = 0; for (int i = 0; i < 62; ++i) if (CPU_ISSET(i, (const cpu_set_t *)m)) r |= 1ll << i; return r; }
static void i2m(i64 v, cpu_set_t *s) { CPU_ZERO(s); for (int i = 0; i < 62; ++i) if (v >> i & 1) CPU_SET(i, s); }
static void rec(i64 w, i64 v, void *a, i64 x) { std::lock_guard<std::mutex> g(cbm); cbs.push_back({w, v, (i64)(intptr_t)a, x}); }
template <int W, int V> static void cb_int(int x, void *a) { rec(W, V, a, x); }
template <int W, int V> static void cb_mask(const_dlb_cpu_set_t x, void *a) { rec(W, V, a, m2i(x)); }
#define CBM(w) {(dlb_callback_t)cb_mask<w, 0>, (dlb_callback_t)cb_mask<w, 1>}
#define CBI(w) {(dlb_callback_t)cb_int<w, 0>, (dlb_callback_t)cb_int<w, 1>}
static dlb_callback_t fns[10][2] = {{}, CBI(1), CBM(2), CBM(3), CBM(4), CBM(5), CBI(6), CBI(7), CBM(8), CBM(9)};
static i64 fnid(i64 w, dlb_callback_t f) { if (!f) return -1; if (w >= 1 && w <= 9) for (int v = 0; v < 2; ++v) if (fns[w][v] == f) return v; return -2; }
static std::map<int, dlb_handler_t> H; static std::vector<dlb_barrier_t *> bh; static std::vector<dlb_monitor_t *> mh; static std::vector<dlb_monitor_t> snap;
static i64 bid(dlb_barrier_t *b) { if (!b) return -1; for (size_t i = 0; i < bh.size(); ++i) if (bh[i] == b) return i; bh.push_back(b); return bh.size() - 1; }
static i64 mid(dlb_monitor_t *b) { if (!b) return -1; for (size_t i = 0; i < mh.size(); ++i) if (mh[i] == b) return i; mh.push_back(b); return mh.size() - 1; }
static int pidof_(i64 p) { return (int)p; }
// v: {vproc, sp, thread, a0, a1, ...}
static void docall(const Msg &m, Msg &r) {
    int vp = m.v[0]; bool sp = m.v[1]; const i64 *a = m.v.data() + 3; cpu_set_t k; dlb_handler_t h = sp && H.count(vp) ? H[vp] : nullptr; auto R = [&](i64 x) { r.v.push_back(x); };
#define CALL0(F) R(sp ? F##_sp(h) : F())
#define CALLI(F) R(sp ? F##_sp(h, (int)a[0]) : F((int)a[0]))
#define CALLM(F) (i2m(a[0], &k), R(sp ? F##_sp(h, &k) : F(&k)))
#define CALLIM(F) (i2m(a[1], &k), R(sp ? F##_sp(h, (int)a[0], &k) : F((int)a[0], &k)))
    switch (m.op) {
        case INIT: { i2m(a[1], &k); g_aff = k; use_aff = true; cpu_set_t *pk = a[2] ? &k : nullptr; if (sp) { dlb_handler_t x = DLB_Init_sp((int)a[0], pk, m.s.c_str()); if (x) H[vp] = x; R(x ? 0 : -1); } else R(DLB_Init((int)a[0], pk, m.s.c_str())); break; }
        case FIN: if (sp) { R(DLB_Finalize_sp(h)); H.erase(vp); } else R(DLB_Finalize()); break;
        case ENABLE: CALL0(DLB_Enable); break; case DISABLE: CALL0(DLB_Disable); break;
        case SETMAX: CALLI(DLB_SetMaxParallelism); break; case UNSETMAX: CALL0(DLB_UnsetMaxParallelism); break;
        case CBSET: { dlb_callback_t f = a[0] >= 1 && a[0] <= 9 && a[1] >= 0 ? fns[a[0]][a[1]] : nullptr; R(sp ? DLB_CallbackSet_sp(h, (dlb_callbacks_t)a[0], f, (void *)(intptr_t)a[2]) : DLB_CallbackSet((dlb_callbacks_t)a[0], f, (void *)(intptr_t)a[2])); break; }
        case CBGET: { dlb_callback_t f = (dlb_callback_t)docall; void *g = (void *)77; int e = sp ? DLB_CallbackGet_sp(h, (dlb_callbacks_t)a[0], &f, &g) : DLB_CallbackGet((dlb_callbacks_t)a[0], &f, &g); R(e); R(f == (dlb_callback_t)docall ? -3 : fnid(a[0], f)); R((i64)(intptr_t)g); break; }
        case LEND: CALL0(DLB_Lend); break; case LENDCPU: CALLI(DLB_LendCpu); break; case LENDCPUS: CALLI(DLB_LendCpus); break; case LENDMASK: CALLM(DLB_LendCpuMask); break;
        case RECLAIM: CALL0(DLB_Reclaim); break; case RECCPU: CALLI(DLB_ReclaimCpu); break; case RECCPUS: CALLI(DLB_ReclaimCpus); break; case RECMASK: CALLM(DLB_ReclaimCpuMask); break;
        case ACQCPU: CALLI(DLB_AcquireCpu); break; case ACQCPUS: CALLI(DLB_AcquireCpus); break; case ACQMASK: CALLM(DLB_AcquireCpuMask); break; case ACQIN: CALLIM(DLB_AcquireCpusInMask); break;
        case BORROW: CALL0(DLB_Borrow); break; case BORCPU: CALLI(DLB_BorrowCpu); break; case BORCPUS: CALLI(DLB_BorrowCpus); break; case BORMASK: CALLM(DLB_BorrowCpuMask); break; case BORIN: CALLIM(DLB_BorrowCpusInMask); break;
        case RETALL: CALL0(DLB_Return); break; case RETCPU: CALLI(DLB_ReturnCpu); break; case RETMASK: CALLM(DLB_ReturnCpuMask); break;
        case POLL: { int n = -7; CPU_ZERO(&k); R(sp ? DLB_PollDROM_sp(h, a[0] ? &n : nullptr, a[1] ? &k : nullptr) : DLB_PollDROM(a[0] ? &n : nullptr, a[1] ? &k : nullptr)); R(n); R(m2i(&k)); break; }
        case POLLUPD: CALL0(DLB_PollDROM_Update); break; case CHECK: CALLI(DLB_CheckCpuAvailability); break;
        case SETVAR: { size_t t = m.s.find('\n'); std::string x = m.s.substr(0, t), y = m.s.substr(t + 1); R(sp ? DLB_SetVariable_sp(h, x.c_str(), y.c_str()) : DLB_SetVariable(x.c_str(), y.c_str())); break; }
        case GETVAR: { char buf[8192]; strcpy(buf, "unset!"); R(sp ? DLB_GetVariable_sp(h, m.s.c_str(), buf) : DLB_GetVariable(m.s.c_str(), buf)); r.s = buf; break; }
        case BAR: R(DLB_Barrier()); break; case BARATT: R(DLB_BarrierAttach()); break; case BARDET: R(DLB_BarrierDetach()); break;
        case NREG: R(bid(a[1] ? DLB_BarrierNamedGet(m.s.c_str(), (dlb_barrier_flags_t)a[0]) : DLB_BarrierNamedRegister(m.s.c_str(), (dlb_barrier_flags_t)a[0]))); break;
        case NBAR: case NATT: case NDET: { dlb_barrier_t *b = a[0] >= 0 && a[0] < (i64)bh.size() ? bh[a[0]] : (dlb_barrier_t *)&k; R(m.op == NBAR ? DLB_BarrierNamed(b) : m.op == NATT ? DLB_BarrierNamedAttach(b) : DLB_BarrierNamedDetach(b)); break; }
        case PRINTVAR: R(sp ? DLB_PrintVariables_sp(h, (int)a[0]) : DLB_PrintVariables((int)a[0])); break; case PRINTSHM: R(DLB_PrintShmem((int)a[0], (dlb_printshmem_flags_t)a[1])); break;
        case STRERR: { const char *s = DLB_Strerror((int)a[0]); R(s && *s ? 0 : -1); break; }
        case OBSERVER: R(DLB_SetObserverRole(a[0])); break; case GETVERSION: { int x = -1, y = -1, z = -1; R(DLB_GetVersion(a[0] & 1 ? &x : 0, a[0] & 2 ? &y : 0, a[0] & 4 ? &z : 0)); R(x); R(y); R(z); break; }
        case DATT: R(DLB_DROM_Attach()); break; case DDET: R(DLB_DROM_Detach()); break;
        case DNCPU: case TNCPU: case SNCPU: { int n = -1; R(m.op == DNCPU ? DLB_DROM_GetNumCpus(&n) : m.op == TNCPU ? DLB_TALP_GetNumCPUs(&n) : DLB_Stats_GetNumCpus(&n)); R(n); break; }
        case DPIDS: case TPIDS: case SPIDS: { int l[16], n = -1; for (int &x : l) x = -1; R(m.op == DPIDS ? DLB_DROM_GetPidList(l, &n, (int)a[0]) : m.op == TPIDS ? DLB_TALP_GetPidList(l, &n, (int)a[0]) : DLB_Stats_GetPidList(l, &n, (int)a[0])); R(n); for (int x : l) R(x); break; }
        case DGET: { CPU_ZERO(&k); R(DLB_DROM_GetProcessMask(pidof_(a[0]), &k, (dlb_drom_flags_t)0)); R(m2i(&k)); break; }
        case DSET: i2m(a[1], &k); R(DLB_DROM_SetProcessMask(pidof_(a[0]), &k, (dlb_drom_flags_t)a[2])); break;
        case DRECOVER: R(DLB_DROM_RecoverStolenCpus(pidof_(a[0]))); break; case DPOSTFIN: R(DLB_DROM_PostFinalize(pidof_(a[0]), (dlb_drom_flags_t)a[1])); break;
        case TATT: R(DLB_TALP_Attach()); break; case TDET: R(DLB_TALP_Detach()); break;
        case TTIMES: { double x = -1, y = -1; R(DLB_TALP_GetTimes(pidof_(a[0]), &x, &y)); R(x == -1 && y == -1); R(x >= 0 && y >= 0); break; }
        case TNODE: { static dlb_node_times_t l[64]; int n = -1; R(DLB_TALP_GetNodeTimes(a[1] ? m.s.c_str() : DLB_GLOBAL_REGION, l, &n, (int)a[0])); R(n); break; }
        case TQUERY: { dlb_node_metrics_t x; memset(&x, 0x5a, sizeof x); dlb_node_metrics_t y = x; R(DLB_TALP_QueryPOPNodeMetrics(a[1] ? m.s.c_str() : DLB_GLOBAL_REGION, &x)); R(!memcmp(&x, &y, sizeof x)); break; }
        case MGLOBAL: R(mid(DLB_MonitoringRegionGetGlobal())); break; case MREG: R(mid(DLB_MonitoringRegionRegister(m.s.c_str()))); break;
        case MRESET: case MSTART: case MSTOP: case MREPORT: { dlb_monitor_t *x = a[0] == -2 ? (dlb_monitor_t *)(m.op == MREPORT ? DLB_GLOBAL_REGION : a[1] && m.op == MSTOP ? DLB_LAST_OPEN_REGION : DLB_GLOBAL_REGION) : a[0] >= 0 && a[0] < (i64)mh.size() ? mh[a[0]] : nullptr; R(m.op == MRESET ? DLB_MonitoringRegionReset(x) : m.op == MSTART ? DLB_MonitoringRegionStart(x) : m.op == MSTOP ? DLB_MonitoringRegionStop(x) : DLB_MonitoringRegionReport(x)); break; }
        case MUPDATE: R(DLB_MonitoringRegionsUpdate()); break;
        case TCOLL: { dlb_pop_metrics_t x; R(DLB_TALP_CollectPOPMetrics(nullptr, &x)); break; } case TCOLLN: { dlb_node_metrics_t x; R(DLB_TALP_CollectPOPNodeMetrics(nullptr, &x)); break; }
        case SINIT: R(DLB_Stats_Init()); break; case SFIN: R(DLB_Stats_Finalize()); break; case SLOAD: { double l[3] = {-1, -1, -1}; R(DLB_Stats_GetLoadAvg(pidof_(a[0]), l)); break; }
        case INFO: { // 0: threads and mappings; 1: keep the monitors; 2: compare the monitors
            if (a[0] == 0) { int t = 0; if (DIR *d = opendir("/proc/self/task")) { while (auto *e = readdir(d)) if (e->d_name[0] != '.') ++t; closedir(d); } R(t); std::string mp = pbt::Engine::slurp("/proc/self/maps", 1 << 18); R(mp.find("/DLB_") == std::string::npos); int f = 0; if (DIR *d = opendir("/proc/self/fd")) { while (auto *e = readdir(d)) if (e->d_name[0] != '.') { char l[600], p[300]; snprintf(p, sizeof p, "/proc/self/fd/%s", e->d_name); ssize_t n = readlink(p, l, 599); if (n > 0) { l[n] = 0; if (strstr(l, "/DLB_")) ++f; } } closedir(d); } R(f); }
            else if (a[0] == 1) { mh.clear(); bh.clear(); }
            break; }
    }
}
static Msg handle(const Msg &m) {
    Msg r; cbs.clear(); if (m.v[2]) { std::thread t([&] { docall(m, r); }); t.join(); } else docall(m, r);
    if (r.v.empty()) r.v.push_back(0); i64 n = r.v.size(); r.v.push_back(n); std::lock_guard<std::mutex> g(cbm); for (auto &x : cbs) { r.v.push_back(x.which); r.v.push_back(x.var); r.v.push_back(x.arg); r.v.push_back(x.val); } r.v.push_back(n); return r; // last: number of results
}
struct Res { i64 e; std::vector<i64> out; std::vector<Cb> cb; std::string s; };
static Res unpack(const Msg &r) { Res x; i64 n = r.v.back(); x.out.assign(r.v.begin(), r.v.begin() + n); x.e = x.out[0]; for (size_t i = n + 1; i + 4 <= r.v.size() - 1; i += 4) x.cb.push_back({r.v[i], r.v[i + 1], r.v[i + 2], r.v[i + 3]}); x.s = r.s; return x; }
// ---- the case
enum Pol { PNONE, PCLASSIC, PASYNC, PMASK };
struct VP { int os; bool sp; bool init = false, everinit = false; Pol pol = PNONE; bool lewi = false, drom = false, barrier = false, talp = false, async = false, ext = false, enabled = false, mneed = false, listed = false; i64 mask = 0; int nd = 0, nt = 0, ns = 0; std::map<i64, std::pair<i64, i64>> cb; std::set<i64> known; std::map<std::string, std::string> vars; bool bardef = false; int pid = 0; int nreg = 0; std::set<i64> nb; };
struct Rec { int vp; Msg m; Res r; };
struct Case {
    Ctx &c; bool c11; rpc::Pool P; std::vector<VP> q; int n, nos; std::vector<Rec> hist; int fails = 0, calls = 0, cycles = 0, sharing = -1; bool anycpu = false; std::string key;
    Case(Ctx &cc, bool f) : c(cc), c11(f), P(cc) {}
    // every byte of every segment but the mutexes
    std::map<std::string, std::string> segs() {
        std::map<std::string, std::string> r; DIR *d = opendir("/dev/shm"); if (!d) return r; std::string suf = "_" + key;
        while (auto *e = readdir(d)) { std::string nm = e->d_name; if (nm.compare(0, 4, "DLB_") || nm.size() < suf.size() || nm.compare(nm.size() - suf.size(), suf.size(), suf)) continue; std::string b; int fd = open(("/dev/shm/" + nm).c_str(), O_RDONLY | O_CLOEXEC); if (fd < 0) continue; b.resize(lseek(fd, 0, SEEK_END)); if (b.size()) pread(fd, &b[0], b.size(), 0); close(fd); size_t o = offsetof(shmem_sync_t, shmem_mutex); if (b.size() > o + sizeof(pthread_mutex_t)) memset(&b[o], 0, sizeof(pthread_mutex_t)); r[nm] = b; }
        closedir(d); return r;
    }
    Msg mk(int op, int v, std::vector<i64> a = {}, const std::string &s = "") { VP &p = q[v]; bool th = !p.sp && op != FIN && op != OBSERVER && c.chance(1, 8) && !(op == INIT) && !(op >= MGLOBAL && op <= TCOLLN); a.insert(a.begin(), {v, p.sp, th}); return Msg(op, a, s); }
    Res go(int v, const Msg &m) { Res r = unpack(P.call(q[v].os, m)); std::string s; for (size_t i = 3; i < m.v.size(); ++i) s += " " + std::to_string(m.v[i]); std::string o; for (size_t i = 1; i < std::min<size_t>(r.out.size(), 5); ++i) o += " " + std::to_string(r.out[i]); std::string k; for (auto &x : r.cb) k += " cb" + std::to_string(x.which) + "(" + std::to_string(x.val) + ")"; c.note("%s%d%s: %s%s%s%s -> %ld%s%s", q[v].sp ? "sp" : "main", v, m.v[2] ? "t" : "", names[m.op], s.c_str(), m.s.empty() ? "" : " ", m.op == INIT ? m.s.substr(m.s.find("--lewi")).c_str() : m.s.c_str(), (long)r.e, o.c_str(), k.c_str()); hist.push_back({v, m, r}); ++calls; return r; }
    bool any_async() { for (auto &p : q) if (p.init && p.async) return true; return false; }
    int refs_cpu(const VP &p) { return (p.init && p.mneed) + p.nd + p.nt; }
    int refs_proc(const VP &p) { return (p.init && p.listed) + p.nd + p.nt + p.ns; }
    int refs_talp(const VP &p) { return (p.init && p.talp && p.ext) + p.nt; }
    int os_refs_cpu(int os) { int k = 0; for (auto &p : q) if (p.os == os) k += refs_cpu(p); return k; }
    int os_refs_proc(int os) { int k = 0; for (auto &p : q) if (p.os == os) k += refs_proc(p); return k; }
    i64 all() { return (1ll << n) - 1; }
    i64 owned() { i64 r = 0; for (auto &p : q) if (p.init && p.mneed) r |= p.mask; return r; }
    i64 rmask(i64 w) { i64 r = 0; for (int i = 0; i < 62; ++i) if ((w >> i & 1) && c.flip()) r |= 1ll << i; return r; }
    int cpu() { switch (c.weighted({10, 1, 1, 1, 1})) { case 0: return c.range(0, n - 1); case 1: return c.oneof<int>({-1, -2, -1000}); case 2: return n + c.range(0, 3); case 3: return c.oneof<int>({1023, 1024, 4096}); default: return c.oneof<int>({INT_MIN, INT_MAX}); } }
    int cnt() { return c.chance(3, 4) ? c.range(0, n) : c.oneof<int>({-1, -5, n + 3, DLB_MAX_CPUS, INT_MAX, INT_MIN}); }
    // the documented answers of the calls that need initialization and LeWI
    bool needs(Pol p, int op) {
        if (p == PNONE) return false; if (op == ENABLE || op == DISABLE) return true;
        if (p == PCLASSIC) return op == SETMAX || op == UNSETMAX || op == LEND || op == RECLAIM || op == BORROW || op == BORCPUS;
        if (p == PASYNC) return op == LEND || op == LENDCPUS || op == RECLAIM || op == ACQCPUS || op == BORROW || op == BORCPUS;
        return op != LENDCPUS; }
    void expect(int v, const Msg &m, const Res &r) {
        VP &p = q[v]; int op = m.op; const char *nm = names[op]; auto is = [&](i64 x, const char *why) { PCHECK(c, r.e == x, "%s returned %ld %s, expected %ld", nm, (long)r.e, why, (long)x); };
        PCHECK(c, op == NREG || op == MREG || op == MGLOBAL || op == CBGET || op == BARATT || op == NATT || op == BARDET || op == NDET || (r.e < 4 && r.e > -18), "%s returned %ld, which is not a code", nm, (long)r.e);
        if ((op >= SETMAX && op <= UNSETMAX) || (op >= LEND && op <= RETMASK) || op == CHECK) {
            if (!p.init) { if (op == CHECK) PCHECK(c, r.e == DLB_ERR_NOINIT || r.e == DLB_ERR_NOLEWI || r.e == DLB_ERR_DISBLD, "%s returned %ld without DLB", nm, (long)r.e); else is(DLB_ERR_NOINIT, "without DLB"); }
            else if (!p.lewi) is(DLB_ERR_NOLEWI, "without LeWI"); else if (!p.enabled) is(DLB_ERR_DISBLD, "while disabled"); else if (!needs(p.pol, op)) is(DLB_ERR_NOPOL, "for this policy");
            else PCHECK(c, r.e != DLB_ERR_NOINIT && r.e != DLB_ERR_DISBLD && r.e != DLB_ERR_NOLEWI && r.e != DLB_ERR_NOPOL && r.e != DLB_ERR_NOSHMEM && (r.e != DLB_ERR_UNKNOWN || (m.v.size() > 3 && m.v[3] < 0)), "%s returned %ld with LeWI enabled", nm, (long)r.e);
            c.label(r.e == DLB_SUCCESS ? "LeWI call done" : r.e == DLB_NOTED ? "LeWI call noted" : r.e == DLB_NOUPDT ? "LeWI call without update" : "LeWI call refused"); return;
        }
        switch (op) {
            case ENABLE: if (!p.init) is(DLB_ERR_NOINIT, "without DLB"); else if (p.enabled) is(DLB_NOUPDT, "while enabled"); else { is(DLB_SUCCESS, "while disabled"); p.enabled = true; } return;
            case DISABLE: if (!p.init) is(DLB_ERR_NOINIT, "without DLB"); else if (!p.enabled) is(DLB_NOUPDT, "while disabled"); else { is(DLB_SUCCESS, "while enabled"); p.enabled = false; } return;
            case CBSET: { i64 w = m.v[3]; if (w < 1 || w > 9) { is(DLB_ERR_NOCBK, "for an unknown callback"); return; } is(DLB_SUCCESS, ""); p.cb[w] = {m.v[4], m.v[5]}; return; }
            case CBGET: { i64 w = m.v[3]; if (w < 1 || w > 9) { is(DLB_ERR_NOCBK, "for an unknown callback"); PCHECK(c, r.out[1] == -3 && r.out[2] == 77, "CallbackGet failed and changed its arguments"); return; } is(DLB_SUCCESS, ""); if (p.cb.count(w)) PCHECK(c, r.out[1] == p.cb[w].first && r.out[2] == p.cb[w].second, "CallbackGet(%ld) returned callback %ld with argument %ld, set was %ld with %ld", (long)w, (long)r.out[1], (long)r.out[2], (long)p.cb[w].first, (long)p.cb[w].second); else PCHECK(c, r.out[1] == -1, "CallbackGet(%ld) returned a callback that was never set", (long)w); return; }
            case POLL: case POLLUPD: if (!p.init) is(DLB_ERR_NOINIT, "without DLB"); else if (!p.drom) is(DLB_ERR_NOCOMP, "without DROM"); else PCHECK(c, r.e == DLB_SUCCESS || r.e == DLB_NOUPDT, "%s returned %ld", nm, (long)r.e); if (r.e != DLB_SUCCESS && op == POLL) PCHECK(c, r.out[1] == -7 && r.out[2] == 0, "PollDROM without update wrote its arguments"); if (r.e == DLB_SUCCESS && op == POLL && m.v[3] && m.v[4]) PCHECK(c, r.out[1] == __builtin_popcountll(r.out[2]), "PollDROM: %ld CPUs, mask %lx", (long)r.out[1], (long)r.out[2]); return;
            case BAR: if (!p.init || !p.barrier) is(DLB_ERR_NOCOMP, "without barrier"); else is(p.bardef ? DLB_SUCCESS : DLB_NOUPDT, p.bardef ? "while attached" : "while detached"); return;
            case BARATT: if (!p.init || !p.barrier) is(DLB_ERR_NOCOMP, "without barrier"); else if (p.bardef) is(DLB_ERR_PERM, "while attached"); else { PCHECK(c, r.e > 0, "BarrierAttach returned %ld", (long)r.e); p.bardef = true; } return;
            case BARDET: if (!p.init || !p.barrier) is(DLB_ERR_NOCOMP, "without barrier"); else if (!p.bardef) is(DLB_ERR_PERM, "while detached"); else { PCHECK(c, r.e >= 0, "BarrierDetach returned %ld", (long)r.e); p.bardef = false; } return;
            case NREG: if (!p.init || !p.barrier) is(-1, "without barrier"); else if (r.e >= 0) p.nb.insert(r.e); return;
            case NBAR: case NATT: case NDET: if (!p.init || !p.barrier) is(DLB_ERR_NOCOMP, "without barrier"); return;
            case STRERR: is(0, ""); return; case GETVERSION: is(0, ""); return; case OBSERVER: case PRINTVAR: case PRINTSHM: is(0, ""); return;
            case DATT: is(0, ""); ++p.nd; return; case TATT: is(0, ""); ++p.nt; return; case SINIT: is(0, ""); ++p.ns; return;
            case DDET: if (p.nd) { is(0, "while attached"); --p.nd; } else is(DLB_ERR_NOSHMEM, "while not attached"); return;
            case TDET: if (p.nt) { is(0, "while attached"); --p.nt; } else is(DLB_ERR_NOSHMEM, "while not attached"); return;
            case SFIN: if (p.ns) --p.ns; return;
            case DNCPU: case TNCPU: case SNCPU: is(0, ""); PCHECK(c, r.out[1] == n, "%s: %ld CPUs, the node has %d", nm, (long)r.out[1], n); return;
            case DPIDS: case TPIDS: case SPIDS: { if (!os_refs_proc(p.os)) { if (op != SPIDS) is(DLB_ERR_NOSHMEM, "while not attached"); return; } is(0, ""); std::set<i64> want, got; for (auto &x : q) if (x.init && x.listed) want.insert(x.pid); i64 k = r.out[1]; i64 mx = m.v[3]; PCHECK(c, k >= 0 && k <= std::max<i64>(mx, 0), "%s: %ld processes in a list of %ld", nm, (long)k, (long)mx); for (int i = 0; i < k; ++i) got.insert(r.out[2 + i]); for (int i = k; i < 16; ++i) PCHECK(c, r.out[2 + i] == -1, "%s wrote after the end of the list", nm); PCHECK(c, (i64)got.size() == k, "%s: repeated processes", nm); if (!has_sp()) { for (i64 x : got) PCHECK(c, want.count(x), "%s: process %ld is not registered", nm, (long)x); if (mx >= (i64)want.size()) PCHECK(c, got.size() == want.size(), "%s: %zu processes, expected %zu", nm, got.size(), want.size()); } return; }
            case MGLOBAL: case MREG: PCHECK(c, (r.e >= 0) == (p.init && p.talp), "%s returned %s", nm, r.e < 0 ? "NULL" : "a region"); return;
            case MRESET: case MSTART: case MSTOP: case MREPORT: case MUPDATE: if (!p.init || !p.talp) is(DLB_ERR_NOTALP, "without TALP"); else PCHECK(c, r.e == DLB_SUCCESS || r.e == DLB_NOUPDT || r.e == DLB_ERR_NOENT, "%s returned %ld", nm, (long)r.e); return;
            case TCOLL: if (!p.init || !p.talp) is(DLB_ERR_NOTALP, "without TALP"); return;
            case TCOLLN: if (!p.init || !p.talp) is(DLB_ERR_NOTALP, "without TALP"); else if (!p.barrier) is(DLB_ERR_NOCOMP, "without barrier"); return;
            case TTIMES: if (m.v[3] == 0) { if (p.init && p.talp) is(0, "for itself"); else is(DLB_ERR_NOTALP, "for itself without TALP"); } else if (!refs_talp(p) && m.v[3] != p.pid) PCHECK(c, r.e == DLB_ERR_NOSHMEM, "TALP_GetTimes returned %ld while not attached", (long)r.e); PCHECK(c, r.e == DLB_SUCCESS ? r.out[2] : r.out[1], "TALP_GetTimes returned %ld and %s its results", (long)r.e, r.e ? "changed" : "did not set"); return;
            case TNODE: if (!refs_talp(p)) is(DLB_ERR_NOSHMEM, "while not attached"); return; case TQUERY: if (!refs_talp(p)) is(DLB_ERR_NOSHMEM, "while not attached"); if (r.e < 0) PCHECK(c, r.out[1], "QueryPOPNodeMetrics failed and changed its result"); return;
            case DRECOVER: case DPOSTFIN: if (!os_refs_proc(p.os)) is(DLB_ERR_NOSHMEM, "while not attached"); else PCHECK(c, r.e == DLB_SUCCESS || r.e == DLB_NOUPDT || r.e == DLB_ERR_NOPROC || (r.e == DLB_ERR_NOCOMP && sharing == 1), "%s returned %ld", nm, (long)r.e); return;
            case DGET: if (m.v[3] == 1) is(DLB_ERR_NOPROC, "for a process that is not registered"); return; case DSET: if (m.v[3] == 1 && !(r.e == DLB_ERR_NOCOMP && sharing == 1)) is(DLB_ERR_NOPROC, "for a process that is not registered"); return;
            case SETVAR: case GETVAR: PCHECK(c, r.e == DLB_SUCCESS || r.e == DLB_ERR_PERM || r.e == DLB_ERR_NOENT, "%s returned %ld", nm, (long)r.e); if (op == GETVAR && r.e) PCHECK(c, r.s == "unset!", "GetVariable failed and wrote its result"); return;
        }
    }
    bool has_sp() { for (auto &p : q) if (p.sp) return true; return false; }
    void callbacks(int v, const Res &r) { // only callbacks set, with their argument (unless helper threads may call at any time)
        for (auto &x : r.cb) { bool ok = false; for (size_t w = 0; w < q.size(); ++w) { auto &p = q[w]; if (p.os != q[v].os || !p.cb.count(x.which)) continue; if (p.cb[x.which].first == x.var && p.cb[x.which].second == x.arg && (int(w) == v || p.async)) ok = true; } PCHECK(c, ok, "callback %ld (function %ld) was called with argument %ld, which is not the one set", (long)x.which, (long)x.var, (long)x.arg); }
    }
    void gone() { bool any = false; for (auto &x : q) any |= refs_proc(x) > 0; if (!any) sharing = -1; }
    std::string printed() { int fd = memfd_create("prn", 0); fflush(stderr); int save = dup(2); dup2(fd, 2); DLB_PrintShmem(8, (dlb_printshmem_flags_t)0); fflush(stderr); dup2(save, 2); close(save); std::string t; t.resize(lseek(fd, 0, SEEK_END)); pread(fd, &t[0], t.size(), 0); close(fd); std::string r; size_t pos = 0; while (pos < t.size()) { size_t e = t.find('\n', pos); if (e == std::string::npos) e = t.size(); std::string l = t.substr(pos, e - pos); pos = e + 1; if (l.find("Load") == std::string::npos) r += l + "\n"; } return r; }
    // a call that failed changes nothing
    void unchanged(const std::map<std::string, std::string> &a, const char *what, i64 e, bool bytes = true, bool cpubytes = true) {
        auto b = segs(); for (auto &s : a) { if (s.first.find("DLB_async") == 0 && any_async()) continue; if (!bytes && (s.first.find("DLB_procinfo") == 0 || s.first.find("DLB_barrier") == 0)) continue; if (!cpubytes && s.first.find("DLB_cpuinfo") == 0) continue; if (!b.count(s.first)) c.fail("%s returned %ld and segment %s disappeared", what, (long)e, s.first.c_str()); auto &t = b[s.first]; if (t != s.second) { size_t o = 0; for (;;) { while (o < t.size() && o < s.second.size() && t[o] == s.second[o]) ++o; size_t w = o & ~(size_t)7; i64 x; if (o >= t.size() || o >= s.second.size() || w + 8 > t.size()) break; memcpy(&x, &t[w], 8); timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); i64 now = ts.tv_sec * 1000000000ll + ts.tv_nsec; if (x > now || x < now - 20000000000ll) break; o = w + 8; } if (o >= t.size() && t.size() == s.second.size()) continue; // (the time of the last lend only saves useless searches)
            std::string x, y; for (size_t i = o & ~(size_t)3; i < std::min(t.size(), (o & ~(size_t)3) + 16); ++i) { char h[8]; snprintf(h, 8, "%02x", (unsigned char)s.second[i]); x += h; snprintf(h, 8, "%02x", (unsigned char)t[i]); y += h; } c.fail("%s returned %ld and changed segment %s (byte %zu of %zu: %s became %s)", what, (long)e, s.first.c_str(), o, t.size(), x.c_str(), y.c_str()); } }
        for (auto &s : b) if (!a.count(s.first)) c.fail("%s returned %ld and left segment %s", what, (long)e, s.first.c_str());
    }
    bool noeffect_expected(int op, i64 e) { if (e >= 0 && e != DLB_NOUPDT) return false; return true; }
    void op(int v, const Msg &m) {
        auto before = segs(); bool was = q[v].init; i64 cbok = 0; (void)was; (void)cbok; Res r = go(v, m); expect(v, m, r); gone(); callbacks(v, r);
        bool handle_ret = m.op == NREG || m.op == MREG || m.op == MGLOBAL || m.op == BARATT || m.op == NATT || m.op == BARDET || m.op == NDET; bool failed = r.e < 0 || (!handle_ret && r.e == DLB_NOUPDT);
        if (failed && m.op == NATT) for (auto &b : before) if (b.first.find("DLB_barrier") == 0) { b.second = segs()[b.first]; } // (its lock is taken)
        if (failed && m.op == RECMASK && r.e == DLB_ERR_PERM) { ++fails; return; } // the CPUs that belong to the process are reclaimed
        if (failed) { ++fails; unchanged(before, names[m.op], r.e); if (!any_async()) PCHECK(c, r.cb.empty(), "%s returned %ld and called callback %ld", names[m.op], (long)r.e, r.cb.empty() ? 0l : (long)r.cb[0].which); }
    }
    void init(int v) {
        VP &p = q[v]; bool lewi = c.chance(2, 3), drom = c.chance(1, 4), talp = c.chance(1, 3), bar = c.chance(1, 3), async = c.chance(1, 5), aff = c.chance(1, 5), ext = c.flip(), usemask = c.chance(4, 5); i64 fr = all() & ~owned(); i64 mask = rmask(fr); if (!mask) mask = fr & -fr; if (c.chance(1, 8) || !mask) mask = rmask(all()); if (!mask) mask = 1;
        if (p.sp) talp = false;
        // one process per mask kind: overlap decides the answer
        Pol pol = !lewi ? PNONE : aff ? PCLASSIC : usemask ? PMASK : PCLASSIC; if (pol == PCLASSIC && !async) for (size_t w = 0; w < q.size(); ++w) if ((int)w != v && q[w].os == p.os && q[w].init && q[w].pol == PCLASSIC) async = true; // (the state of this policy is that of the OS process)
        for (size_t w = 0; w < q.size(); ++w) if ((int)w != v && q[w].os == p.os && q[w].init && q[w].barrier) bar = false; // (the barriers neither)
        if (pol == PCLASSIC && async) pol = PASYNC; bool mneed = pol == PMASK || drom; bool nocomp = mneed && (pol == PCLASSIC || pol == PASYNC);
        int ncpus = c.range(0, n); std::string args = "--shm-key=" + key + " --quiet=yes --lewi=" + (lewi ? "yes" : "no") + " --drom=" + (drom ? "yes" : "no") + " --talp=" + (talp ? "yes" : "no") + " --talp-summary=none --barrier=" + (bar ? "yes" : "no") + " --mode=" + (async ? "async" : "polling") + (aff ? " --lewi-affinity=none" : "") + (ext ? " --talp-external-profiler=yes" : "") + (anycpu ? " --lewi-respect-cpuset=no" : "") + (c.chance(1, 6) ? " --lewi-max-parallelism=" + std::to_string(c.range(1, n)) : "");
        auto before = segs(); std::string pb = before.empty() ? "" : printed(); Msg m = mk(INIT, v, {ncpus, mask, usemask}, args); if (c.chance(1, 10) && p.init && !p.sp) { Res r = go(v, m); PCHECK(c, r.e == DLB_ERR_INIT, "Init twice returned %ld", (long)r.e); unchanged(before, "Init", r.e); PCHECK(c, r.cb.empty(), "Init twice called a callback"); return; }
        if (p.init) return; gone(); int reg = 0; bool useproc = mneed || talp; i64 own = 0; for (auto &x : q) if (x.init && x.listed) { ++reg; own |= x.mneed ? x.mask : 0; }
        Res r = go(v, m); bool overlap = own & mask; if (nocomp) PCHECK(c, p.sp ? r.e == -1 : r.e == DLB_ERR_NOCOMP, "Init with incompatible options returned %ld", (long)r.e); else if (mneed && sharing == 1) PCHECK(c, p.sp ? r.e == -1 : r.e == DLB_ERR_NOCOMP, "Init of a process that %s its CPUs returned %ld, the others do not", mneed ? "registers" : "shares", (long)r.e); else if (mneed && overlap) PCHECK(c, p.sp ? r.e == -1 : r.e == DLB_ERR_PERM || (reg >= n && r.e == DLB_ERR_NOMEM), "Init with CPUs of other processes returned %ld", (long)r.e);
        else if ((int)q.size() <= n) PCHECK(c, r.e == DLB_SUCCESS, "Init returned %ld", (long)r.e); else PCHECK(c, r.e == DLB_SUCCESS || (p.sp ? r.e == -1 : r.e == DLB_ERR_NOMEM), "Init returned %ld", (long)r.e);
        if (r.e != DLB_SUCCESS) { ++fails; c.label(nocomp ? "Init incompatible" : overlap ? "Init overlaps" : "Init without room"); bool cpu0 = false; for (auto &x : q) cpu0 |= x.init && x.mneed; unchanged(before, "Init", r.e, false, cpu0); if (!before.empty()) { std::string pa = printed(); PCHECK(c, pa == pb, "Init returned %ld and changed the registry from\n%s\nto\n%s", (long)r.e, pb.c_str(), pa.c_str()); } p.cb.clear(); for (int w = 1; w <= 9; ++w) { /* callbacks are learnt again */ } relearn(v); return; }
        bool listed = useproc && !(talp && !mneed && (sharing == 0 || reg >= n)); if (listed && sharing < 0) sharing = !mneed; p.init = p.everinit = p.enabled = true; p.pol = pol; p.lewi = lewi; p.drom = drom; p.talp = talp; p.barrier = bar; p.async = async; p.ext = ext; p.mneed = mneed; p.listed = listed; p.mask = mask; p.bardef = bar; p.nb.clear(); p.cb.clear(); relearn(v); ++cycles;
        if (c.chance(4, 5)) for (int w = 1; w <= 9; ++w) if (c.flip()) op(v, mk(CBSET, v, {w, c.draw(2) ? 1 : 0, c.range(0, 5)}));
    }
    void relearn(int v) { VP &p = q[v]; if (p.sp && !p.init) return; for (int w = 1; w <= 9; ++w) { Res r = unpack(P.call(p.os, Msg(CBGET, {v, p.sp, 0, w}))); if (r.out[1] >= 0) p.cb[w] = {r.out[1], r.out[2]}; } }
    void fin(int v) {
        VP &p = q[v]; if (p.sp && !p.init) return; auto before = segs(); Res r = go(v, mk(FIN, v)); callbacks(v, r); if (!p.init) { PCHECK(c, r.e == DLB_NOUPDT, "Finalize without Init returned %ld", (long)r.e); unchanged(before, "Finalize", r.e); ++fails; return; }
        PCHECK(c, r.e == DLB_SUCCESS, "Finalize returned %ld", (long)r.e); bool sp = p.sp; int os = p.os; i64 pid = p.pid; int a = p.nd, b = p.nt, d = p.ns; p = VP{os, sp}; p.pid = pid; p.nd = a; p.nt = b; p.ns = d; p.everinit = true; gone(); relearn(v);
        bool alone = true; for (size_t w = 0; w < q.size(); ++w) if (q[w].os == os && (q[w].init || q[w].nd || q[w].nt || q[w].ns)) alone = false;
        if (alone) { Res x = unpack(P.call(os, Msg(INFO, {v, 0, 0, 0}))); PCHECK(c, x.out[0] == 1, "after Finalize the process has %ld threads", (long)x.out[0]); PCHECK(c, x.out[1] == 1, "after Finalize shared memory is still mapped"); PCHECK(c, x.out[2] == 0, "after Finalize shared memory files are still open"); }
        P.call(os, Msg(INFO, {v, 0, 0, 1}));
    }
    bool sole_barrier(int v) { for (size_t w = 0; w < q.size(); ++w) if ((int)w != v && q[w].init && q[w].barrier) return false; return true; }
    static const char *var(Ctx &c) { static const char *vs[] = {"--lewi", "--drom", "--talp", "--mode", "--lewi-max-parallelism", "--lewi-ompt", "LB_X", "--barrier-id", "--verbose", "--shm-key", "--talp-summary", "", "--quiet", "--lewi-affinity"}; return vs[c.draw(14)]; }
    void step(int v) {
        VP &p = q[v]; if (!p.sp || p.init) { } else { if (c.chance(2, 3)) init(v); return; }
        int w = c.weighted({p.init ? 2u : 10u, 2, 26, 6, 8, 4, p.sp ? 0u : 5u, p.sp ? 0u : 3u, p.sp ? 0u : 6u, p.sp ? 0u : 6u});
        switch (w) {
            case 0: init(v); return; case 1: fin(v); return;
            case 2: { static const int ops[] = {LEND, LENDCPU, LENDCPUS, LENDMASK, RECLAIM, RECCPU, RECCPUS, RECMASK, ACQCPU, ACQCPUS, ACQMASK, ACQIN, BORROW, BORCPU, BORCPUS, BORMASK, BORIN, RETALL, RETCPU, RETMASK, CHECK, LEND, LENDCPU, BORROW}; int o = ops[c.draw(24)];
                switch (o) { case LENDCPU: case RECCPU: case ACQCPU: case BORCPU: case RETCPU: case CHECK: op(v, mk(o, v, {cpu()})); return; case LENDCPUS: case RECCPUS: case ACQCPUS: case BORCPUS: op(v, mk(o, v, {cnt()})); return; case LENDMASK: case RECMASK: case ACQMASK: case BORMASK: case RETMASK: op(v, mk(o, v, {lmask(p)})); return; case ACQIN: case BORIN: { i64 k = cnt(); op(v, mk(o, v, {k, lmask(p)})); return; } default: op(v, mk(o, v)); return; } }
            case 3: op(v, mk(c.oneof<int>({ENABLE, DISABLE, DISABLE, SETMAX, UNSETMAX}), v, {cnt()})); return;
            case 4: { i64 k = c.chance(7, 8) ? c.range(1, 9) : c.oneof<int>({0, 10, -1, 1000}); if (c.flip()) op(v, mk(CBSET, v, {k, c.range(-1, 1), c.range(0, 5)})); else op(v, mk(CBGET, v, {k})); return; }
            case 5: switch (c.range(0, 3)) { case 0: { std::string x = var(c); op(v, mk(SETVAR, v, {}, x + "\n" + c.oneof<const char *>({"yes", "no", "1", "0", "abc", "", "none"}))); return; } case 1: op(v, mk(GETVAR, v, {}, var(c))); return; case 2: op(v, mk(PRINTVAR, v, {c.range(0, 1)})); return; default: op(v, mk(CHECK, v, {cpu()})); return; }
            case 6: { int o = c.oneof<int>({BAR, BARATT, BARDET, NREG, NBAR, NATT, NDET}); bool ok = sole_barrier(v); if (o == BAR && p.init && p.barrier && !ok && p.bardef) return; if (o == NREG) { op(v, mk(o, v, {c.range(0, 2), c.flip()}, c.oneof<const char *>({"x", "y", "default", "a long name of a barrier......."}))); return; } if (o >= NBAR && o <= NDET) { if (p.nb.empty() && p.init && p.barrier && o == NATT) return; if (o == NBAR && !ok && p.init && p.barrier) return; if (!p.init || !p.barrier) op(v, mk(o, v, {-1})); else if (p.nb.size()) { auto it = p.nb.begin(); std::advance(it, c.draw(p.nb.size())); if (!ok) return; op(v, mk(o, v, {*it})); } return; } op(v, mk(o, v)); return; }
            case 7: op(v, mk(c.oneof<int>({PRINTSHM, STRERR, GETVERSION}), v, {c.oneof<int>({0, 1, 2, 4, -3, 7, -17, -18, 3, 100}), c.range(0, 2)})); return;
            case 8: { int o = c.range(DATT, DPOSTFIN); if (c.chance(1, 4)) o = c.range(SINIT, SLOAD);
                switch (o) { case DATT: if (p.nd < 2) op(v, mk(o, v)); return; case SINIT: if (p.ns < 2) op(v, mk(o, v)); return; case DDET: if (p.nd || (!os_refs_cpu(p.os) && !os_refs_proc(p.os))) op(v, mk(o, v)); return; case SFIN: if (p.ns || !os_refs_proc(p.os)) op(v, mk(o, v)); return; case DPIDS: case SPIDS: op(v, mk(o, v, {c.oneof<int>({0, 1, 2, 3, 8, 16, -1})})); return;
                    case DGET: case DRECOVER: case DPOSTFIN: case SLOAD: { i64 pid = c.chance(1, 3) ? 1 : c.chance(1, 2) ? p.pid : q[c.draw(q.size())].pid; if (o == DPOSTFIN) pid = 1; if (o == DGET && p.drom && p.init && pid != 1 && pid != p.pid) return; op(v, mk(o, v, {pid, 0})); return; }
                    case DSET: { bool self = p.init && p.mneed && c.chance(1, 2); if (self) { i64 mk_ = p.mask & rmask(all()); if (!mk_) mk_ = p.mask; if (p.lewi) mk_ = p.mask; op(v, mk(o, v, {c.flip() ? 0 : p.pid, mk_, 0})); if (hist.back().r.e == DLB_SUCCESS) p.mask = mk_; } else op(v, mk(o, v, {1, rmask(all()) | 1, 0})); return; }
                    default: op(v, mk(o, v)); return; } }
            default: { int o = c.range(TATT, TCOLLN); switch (o) { case TATT: if (p.nt < 2) op(v, mk(o, v)); return; case TDET: if (p.nt || (!os_refs_cpu(p.os) && !os_refs_proc(p.os))) op(v, mk(o, v)); return; case TPIDS: op(v, mk(o, v, {c.oneof<int>({0, 1, 2, 8, 16, -1})})); return; case TTIMES: op(v, mk(o, v, {c.oneof<i64>({0, 0, 1, (i64)p.pid})})); return; case TNODE: case TQUERY: op(v, mk(o, v, {c.oneof<int>({0, 1, 8}), c.flip()}, c.oneof<const char *>({"reg", "nothing"}))); return; case MREG: op(v, mk(o, v, {}, c.oneof<const char *>({"reg", "r2"}))); return; case MRESET: case MSTART: case MSTOP: case MREPORT: op(v, mk(o, v, {c.oneof<int>({-2, -2, 0, 0}), c.flip()})); return; case TCOLLN: if (p.init && p.barrier && p.talp && (!sole_barrier(v) || !p.bardef)) return; op(v, mk(o, v)); return; default: op(v, mk(o, v)); return; } }
        }
    }
    i64 lmask(VP &p) { switch (c.range(0, 4)) { case 0: return rmask(all()); case 1: return p.mask & rmask(all()); case 2: return 1ll << c.draw(n); case 3: return 0; default: return rmask(all()) | (c.chance(1, 3) ? 1ll << (n + 1) : 0); } }
    void phase() {
        anycpu = c.chance(1, 4); int k = q.size(), steps = c.len(10, 60); for (int i = 0; i < steps; ++i) step(c.draw(q.size()));
        // leave in any order
        std::vector<int> o; for (int i = 0; i < k; ++i) o.push_back(i); for (int i = k; i > 1; --i) std::swap(o[i - 1], o[c.draw(i)]);
        for (int v : o) { VP &p = q[v]; bool df = c.flip(); if (df && p.init) fin(v); while (p.nd) op(v, mk(DDET, v)); while (p.nt) op(v, mk(TDET, v)); while (p.ns) op(v, mk(SFIN, v)); if (p.init) fin(v); if (!p.sp && c.flip()) fin(v); }
        auto s = segs(); PCHECK(c, s.empty(), "everybody has finished and segment %s exists", s.begin()->first.c_str());
    }
    // the same calls from new processes, by the same or by the other interface, have the same results
    void replay(size_t from, bool swap) {
        for (size_t i = from; i < hist.size(); ++i) { auto &h = hist[i]; if (h.m.op == INIT && (h.m.s.find("--mode=async") != std::string::npos || (swap && h.m.s.find("--talp=yes") != std::string::npos))) return; if (swap && (h.m.op == OBSERVER || (h.m.op >= MGLOBAL && h.m.op <= TCOLLN) || h.m.op == TTIMES)) return; }
        rpc::Pool R(c); std::map<int, int> ix; std::vector<int> newpid, oldpid; for (auto &p : q) if (!ix.count(p.os)) { ix[p.os] = (int)newpid.size(); R.spawn([](int) { return rpc::Handler(handle); }); newpid.push_back(R.p[newpid.size()].pid); oldpid.push_back(p.pid); }
        std::vector<int> ninit(newpid.size(), 0); std::vector<bool> on(q.size(), false); c.label(swap ? "by the other interface" : "by new processes"); const char *how = swap ? "by the other interface" : "from a new process";
        auto tok = [&](i64 x, std::vector<int> &pids) { for (size_t i = 0; i < pids.size(); ++i) if (x >= pids[i] && (x - pids[i]) % 100000 == 0) return -1000 - (i64)i; return x; };
        for (size_t i = from; i < hist.size(); ++i) {
            auto &h = hist[i]; int v = h.vp, os = ix[q[v].os], op = h.m.op; bool sp = q[v].sp != swap; Msg m = h.m; m.v[1] = sp; if (sp || swap) m.v[2] = 0;
            bool needinit = (op >= FIN && op <= GETVAR) || op == PRINTVAR || op == TTIMES; if (swap && ((needinit && !on[v]) || (op == INIT && on[v]))) continue;
            bool pid = op == DGET || op == DSET || op == DRECOVER || op == DPOSTFIN || op == SLOAD || op == TTIMES; if (pid && m.v[3] > 1) { if (swap && q[v].sp) continue; int t = -1; for (size_t w = 0; w < oldpid.size(); ++w) if (oldpid[w] == m.v[3]) t = w; if (t >= 0) { m.v[3] = newpid[t]; if (swap) { if (!ninit[t]) continue; m.v[3] += 100000 * ninit[t]; } } }
            if (op == INIT && sp) ++ninit[os];
            Res r = unpack(R.call(os, m)), &o = h.r; if (op == FIN) R.call(os, Msg(INFO, {v, 0, 0, 1})); if (op == INIT && r.e == 0) on[v] = true; bool was = on[v]; if (op == FIN) on[v] = false;
            if (op == INIT ? (r.e < 0) != (o.e < 0) : r.e != o.e) if (!(needinit && !was)) c.fail("call %zu (%s by process %d) returned %ld, and %ld %s", i - from + 1, names[op], v, (long)o.e, (long)r.e, how);
            if (needinit && !was) continue; if (op == SLOAD || op == TTIMES) continue; PCHECK(c, r.s == o.s, "call %zu (%s by process %d) gave %s, and %s %s", i - from + 1, names[op], v, o.s.c_str(), r.s.c_str(), how);
            for (size_t w = 1; w < o.out.size() && w < r.out.size(); ++w) PCHECK(c, tok(o.out[w], oldpid) == tok(r.out[w], newpid), "call %zu (%s by process %d): result %zu was %ld, and %ld %s", i - from + 1, names[op], v, w, (long)o.out[w], (long)r.out[w], how);
            std::string a, b; for (auto &x : o.cb) a += " " + std::to_string(x.which) + "(" + std::to_string(x.val) + "," + std::to_string(x.arg) + ")"; for (auto &x : r.cb) b += " " + std::to_string(x.which) + "(" + std::to_string(x.val) + "," + std::to_string(x.arg) + ")"; PCHECK(c, a == b, "call %zu (%s by process %d) called the callbacks%s, and%s %s", i - from + 1, names[op], v, a.c_str(), b.c_str(), how); ++calls;
        }
        auto s = segs(); PCHECK(c, s.empty(), "the same calls %s leave segment %s", how, s.begin()->first.c_str());
    }
    void run() {
        n = c.weighted({1, 2, 3, 3, 3, 3, 1, 2}) + 1; key = c.key; int k = c.range(1, 3); bool spw = c.chance(1, 3), share = spw && k > 1 && c.flip(); if (!share && n < k) n = k; /* the registry of attached processes has one slot for each CPU */ mu_testing_set_sys_size(n); setenv("DLB_ARGS", ("--shm-key=" + key).c_str(), 1);
        for (int i = 0; i < k; ++i) { VP p; p.sp = spw && (share || c.flip()); p.os = share ? 0 : i; q.push_back(p); } int nproc = share ? 1 : k; for (int i = 0; i < nproc; ++i) P.spawn([](int) { return rpc::Handler(handle); }); for (auto &p : q) p.pid = P.p[p.os].pid;
        c.note("%d CPUs, %d processes%s", n, k, share ? " inside one" : ""); phase(); bool two = !c11 && c.flip(); size_t from = 0; if (two) { from = hist.size(); c.note("again"); phase(); }
        if (!c11) { if (two) replay(from, false); if (!share && c.flip()) replay(from, true); }
        std::set<int> kinds; for (auto &h : hist) kinds.insert(h.m.op); c.count(calls); c.label(has_sp() ? "subprocess interface" : "main interface"); if (c11 ? fails >= 5 : cycles >= 1 && kinds.size() >= 8) c.nontrivial();
    }
};
int main(int argc, char **argv) {
    bool c11 = false; for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], "--prop")) c11 = !strcmp(argv[i + 1], "C11");
    pbt::Options o; o.property = c11 ? "C11" : "C25"; o.quick_cases = 6000; o.thorough_cases = 200000; o.case_timeout = 60;
    return pbt::run(argc, argv, o, [=](Ctx &c) { Case k(c, c11); k.run(); });
}
