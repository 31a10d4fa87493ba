// C29: the MPI wrappers (C, Fortran 77, Fortran 2008 and the enter/leave functions)
#include "pbt.hpp"
#include "mpi_mock.hpp"
#include <string.h>
#include <thread>
#include <map>
#include <vector>
#include <string>
extern "C" {
#include <mpi.h>
#include "apis/dlb.h"
#include "apis/dlb_talp.h"
#include "LB_core/DLB_kernel.h"
#include "LB_core/spd.h"
#include "support/mask_utils.h"
void __real_into_sync_call(sync_call_flags_t); void __real_out_of_sync_call(sync_call_flags_t); int __real_DLB_Init(int, const_dlb_cpu_set_t, const char *); int __real_DLB_Finalize(void);
}
bool arrays(int);
namespace {
typedef std::vector<std::string> VS; VS ev; int expect = -1; bool fortran; int nf; long result; int arena[24][16]; bool track; std::vector<int> elems; long got[24]; int ngot, seen; pbt::Ctx *C; std::map<std::string, int> idx;
void event(const std::string &s) { if (track) ev.push_back(s); }
std::string flags(sync_call_flags_t f) { return std::string(f.is_mpi ? "mpi" : "") + (f.is_blocking ? " blocking" : "") + (f.is_collective ? " collective" : "") + (f.is_dlb_barrier ? " dlb-barrier" : "") + (f.do_lewi ? " lewi" : ""); }
}
extern "C" void __wrap_into_sync_call(sync_call_flags_t f) { event("into(" + flags(f) + ")"); __real_into_sync_call(f); }
extern "C" void __wrap_out_of_sync_call(sync_call_flags_t f) { event("out(" + flags(f) + ")"); __real_out_of_sync_call(f); }
extern "C" int __wrap_DLB_Init(int a, const_dlb_cpu_set_t b, const char *d) { int r = __real_DLB_Init(a, b, d); event(r == 0 ? "DLB_Init" : "DLB_Init refused"); return r; }
extern "C" int __wrap_DLB_Finalize(void) { int r = __real_DLB_Finalize(); event(r == 0 ? "DLB_Finalize" : "DLB_Finalize refused"); return r; }
extern "C" int mock_call(int i, int n, long *a, long *r) {
    const std::string name = mock_rows[i].name;
    if (i == expect && !fortran) { event("PMPI_" + name); if (seen++ == 0) { ngot = n; memcpy(got, a, n * 8); } *r = result; return 0; }
    *r = 0; // called by DLB itself: one process
    if (name == "Comm_rank") *(int *)a[1] = 0; else if (name == "Comm_size") *(int *)a[1] = 1;
    else if (name == "Comm_dup") *(long *)a[1] = a[0]; else if (name == "Comm_split") *(long *)a[3] = a[0]; else if (name == "Comm_split_type") *(long *)a[4] = a[0];
    else if (name == "Bcast" || name == "Barrier" || name == "Comm_free") ; else if (name == "Get_library_version") { strcpy((char *)a[0], "mock"); *(int *)a[1] = 4; }
    else if (name == "Type_match_size") *(long *)a[2] = (long)&ompi_mpi_int;
    else C->fail("DLB calls PMPI_%s", name.c_str());
    return 0;
}
extern "C" void mock_fcall(int i, long *a) {
    if (i == expect && fortran) { event("PMPI_" + std::string(mock_rows[i].name)); if (seen++ == 0) { ngot = 24; memcpy(got, a, 24 * 8); if (arrays(i)) { elems.assign((int *)a[1], (int *)a[1] + *(int *)a[0]); ++*(int *)a[1]; } } *(int *)a[mock_rows[i].fargs - 1] = (int)result; return; }
    C->fail("pmpi_%s is called", mock_rows[i].name);
}
bool arrays(int i) { std::string n = mock_rows[i].name; return n == "Waitall" || n == "Waitany" || n == "Waitsome" || n == "Testall" || n == "Testany" || n == "Testsome" || n == "Startall"; } // arrays of requests
static void property(pbt::Ctx &c) {
    C = &c; ev.clear(); track = false; for (int i = 0; i < mock_nrows; ++i) idx[mock_rows[i].name] = i;
    std::string a = "--shm-key=" + std::string(c.key); bool lewi = c.flip(), talp = c.flip(); int mc = c.weighted({2, 1, 1, 1}); const char *mcs[] = {"", "all", "barrier", "collectives"}; if (lewi) a += " --lewi"; if (mc) a += std::string(" --lewi-mpi-calls=") + mcs[mc]; if (talp) a += " --talp --talp-summary=none"; if (!lewi && c.flip()) a += " --drom"; if (c.chance(1, 4)) a += " --barrier"; if (c.chance(1, 8)) a += " --verbose=mpi_api:mpi_intercept"; if (c.chance(1, 6)) a += " --no-lewi-mpi"; a += " --quiet=yes"; setenv("DLB_ARGS", a.c_str(), 1); c.note("DLB_ARGS=%s", a.c_str());
    enum { BEFORE, READY, AFTER } st = BEFORE; bool dlb = false, frommpi = false, ready = false; long calls = 0; int total = 0; bool threads = false; std::map<std::string, int> kinds;
    auto want_flags = [&](int i) { const char *k = mock_rows[i].cls; bool b = strchr(k, 'B'), co = strchr(k, 'C'); bool l = b && (mc <= 1 || (mc == 2 && i == idx["Barrier"]) || (mc == 3 && co)); return std::string("mpi") + (b ? " blocking" : "") + (co ? " collective" : "") + (l ? " lewi" : ""); };
    auto invoke = [&](int i, int f) {
        const row &r = mock_rows[i]; long v[24]; for (int j = 0; j < 24; ++j) v[j] = (long)arena[j]; int n = (int)strlen(r.kinds); bool isinit = !strncmp(r.name, "Init", 4) && (!r.name[4] || r.name[4] == '_'), isfin = !strcmp(r.name, "Finalize"); bool f77 = f >= F_F && f <= F_F08, split = f == F_ENTER || f == F_FENTER; result = isinit ? 0 : c.oneof<int>({0, 0, 1, 5, 16, 92, -1, 0x7fffffff}); for (auto &x : arena) for (int j = 0; j < 16; ++j) x[j] = j ? (int)c.u64() : c.range(1, 6);
        if (!f77 && f != F_FENTER) for (int j = 0; j < n; ++j) v[j] = r.kinds[j] == 'i' ? (long)(int)c.u64() : c.chance(1, 6) ? 0 : (long)c.u64();
        bool absent = false; if (f77) { for (int j = 0; j < r.flens; ++j) v[r.fargs + j] = c.range(1, 200); if (f == F_F08) { std::string nm = r.name; if (nm == "Lookup_name") v[r.fargs + 1] = 1023; if (nm == "Open_port") v[r.fargs] = 1023; if (nm.size() > 9 && nm.substr(nm.size() - 9) == "_get_name") v[r.fargs] = 63; } if (f == F_F08 && (absent = c.chance(1, 3))) v[r.fargs - 1] = 0; else *(int *)v[r.fargs - 1] = -77; }
        const char *in[] = {"MPI_%s", "mpi_%s (Fortran)", "mpi_%s_ (Fortran)", "mpi_%s__ (Fortran)", "MPI_%s_f08", "DLB_MPI_%s_enter, _leave", "", "DLB_MPI_%s_F_enter, _F_leave"}; char w[200]; snprintf(w, sizeof w, in[f], r.name); bool thr = !isinit && !isfin && c.chance(1, 8); c.note("%s%s%s", w, absent ? " without ierror" : "", thr ? " in another thread" : ""); PCHECK(c, r.f[f] && (!split || r.f[f + 1]), "%s is not provided by the library", w);
        // events expected, in order
        VS want; std::string fw = isinit || isfin ? "" : want_flags(i); bool fail = false; (void)fail;
        if (isfin && dlb && frommpi) want.push_back("DLB_Finalize"); if (ready && !isinit && !isfin) want.push_back("into(" + fw + ")"); if (!split) want.push_back(std::string("PMPI_") + r.name); if (ready && !isinit && !isfin) want.push_back("out(" + fw + ")"); if (isinit) want.push_back(dlb ? "DLB_Init refused" : "DLB_Init");
        ev.clear(); expect = i; fortran = f77; seen = ngot = 0; long ret = 0; auto go = [&] { track = true; if (split) { call24(r.f[f], v); track = false; VS half(want.begin(), want.begin() + (ready && !isinit && !isfin ? 1 : isfin ? want.size() : 0)); PCHECK(c, ev == half, "%s: after the enter function the events are not the expected ones", w); track = true; call24(r.f[f + 1], v); } else ret = call24(r.f[f], v); track = false; };
        if (thr) { std::thread t(go); t.join(); threads = true; } else go(); expect = -1;
        std::string e, x; for (auto &s : ev) e += " " + s; for (auto &s : want) x += " " + s; PCHECK(c, ev == want, "%s: the events are:%s; expected:%s", w, e.c_str(), x.c_str());
        if (!split) {
            int m = f77 ? r.fargs + r.flens : n; for (int j = 0; j < m; ++j) { if (f == F_F08 && j == r.fargs - 1) continue; if (f77 && j == 1 && arrays(i)) { std::vector<int> sent(arena[1], arena[1] + arena[0][0]); --sent[0]; PCHECK(c, elems == sent, "%s: the implementation does not receive the requests of the caller, or its changes are lost", w); if (f == F_F08) continue; } bool w32 = f77 ? j >= r.fargs : r.kinds[j] == 'i'; bool same = w32 ? (int)got[j] == (int)v[j] : got[j] == v[j]; PCHECK(c, same, "%s: the implementation receives %#lx as argument %d, the caller passed %#lx", w, (unsigned long)got[j], j, (unsigned long)v[j]); }
            if (!f77) PCHECK(c, (int)ret == (int)result, "%s returns %d, the implementation returned %d", w, (int)ret, (int)result); else if (!absent) PCHECK(c, *(int *)v[r.fargs - 1] == (int)result, "%s: ierror is %d, the implementation returned %d", w, *(int *)v[r.fargs - 1], (int)result);
        }
        if (isinit) { st = READY; ready = true; if (!dlb) { dlb = frommpi = true; } calls = 1; } else if (isfin) { st = AFTER; ready = false; if (frommpi) dlb = false; frommpi = false; } else if (ready) ++calls;
        c.count(1); ++total; ++kinds[r.name];
    };
    auto counted = [&] { if (!talp || !ready) return; DLB_MonitoringRegionsUpdate(); const dlb_monitor_t *m = DLB_MonitoringRegionGetGlobal(); PCHECK(c, m, "there is no global region"); PCHECK(c, m->num_mpi_calls == calls, "TALP counts %ld MPI calls, expected %ld", (long)m->num_mpi_calls, calls); c.label("calls counted"); };
    int steps = c.len(1, 120); int f; for (int s = 0; s < steps; ++s) {
        int k = c.weighted({16, 2, 2, 1, 1, 1, 1}); f = c.oneof<int>({F_C, F_C, F_F, F_F1, F_F2, F_F08, F_F08, F_ENTER, F_FENTER});
        if (k == 0) { int i = c.range(0, mock_nwrapped - 1); if (c.chance(1, 4)) i = idx[c.oneof<std::string>({"Barrier", "Bcast", "Send", "Recv", "Wait", "Allreduce", "Isend", "Ibarrier", "Test", "Alltoall", "Sendrecv", "Comm_rank", "Comm_dup", "Comm_split", "Op_create", "Comm_spawn", "Reduce"})]; if (!strncmp(mock_rows[i].name, "Init", 4) && strcmp(mock_rows[i].name, "Initialized")) i = idx["Initialized"]; if (!strcmp(mock_rows[i].name, "Finalize")) i = idx["Finalized"]; invoke(i, f); }
        else if (k == 1) { if (st == BEFORE) invoke(idx[c.flip() ? "Init" : "Init_thread"], f); }
        else if (k == 2) { if (st == READY && (s > steps / 2 || c.chance(1, 4))) { counted(); invoke(idx["Finalize"], f); } }
        else if (k == 3) { if (!dlb && c.chance(1, 2)) { int r = DLB_Init(0, nullptr, nullptr); c.note("DLB_Init = %d", r); PCHECK(c, r == 0, "DLB_Init returns %d", r); dlb = true; frommpi = false; } }
        else if (k == 4) { if (dlb && c.chance(1, 3)) { counted(); int r = DLB_Finalize(); c.note("DLB_Finalize = %d", r); PCHECK(c, r == 0, "DLB_Finalize returns %d", r); dlb = frommpi = ready = false; c.label("DLB finalized by the program"); } }
        else if (k == 5) { if (dlb) { bool d = c.flip(); int r = d ? DLB_Disable() : DLB_Enable(); c.note("%s = %d", d ? "DLB_Disable" : "DLB_Enable", r); } }
        else counted();
    }
    counted(); if (st == READY) invoke(idx["Finalize"], F_C); if (dlb) DLB_Finalize(); if (threads) c.label("calls in other threads"); if (kinds.size() > 5 && total > 8) c.nontrivial(); for (int i = 0; i < mock_nwrapped; ++i) if (kinds.count(mock_rows[i].name)) c.shape(&i, sizeof i);
}
int main(int argc, char **argv) {
    pbt::Options o; o.property = "C29"; o.rule = "more than eight calls of more than five different MPI functions."; o.quick_cases = 6000; o.thorough_cases = 150000; o.hang_is_violation = true;
    return pbt::run(argc, argv, o, property);
}
