// C20: the TALP registry in shared memory, several processes and external readers.
#include "rpc.hpp"
extern "C" {
#include "apis/dlb.h"
#include "apis/dlb_talp.h"
#include "LB_core/spd.h"
#include "LB_comm/shmem_talp.h"
#include "support/mask_utils.h"
}
using pbt::Ctx; using rpc::Msg;

enum { OP_INIT = 1, OP_REG, OP_SET, OP_AVG, OP_FIN, OP_ATTACH, OP_DETACH, OP_PIDS, OP_REGION, OP_LIST, OP_TIMES, OP_NODETIMES, OP_GETTIMES, OP_MAX, OP_NODEMETRICS, OP_PRINT };

static Msg handle(const std::string &key, const Msg &m) {
    Msg r; int64_t a = 0, b = 0; int id = -77;
    switch (m.op) {
        case OP_INIT: r.v = {shmem_talp__init(key.c_str(), m.v[0])}; break;
        case OP_REG: { int e = shmem_talp__register(m.v[0], m.v[1], m.s.c_str(), &id); r.v = {e, id}; break; }
        case OP_SET: r.v = {shmem_talp__set_times(m.v[0], m.v[1], m.v[2])}; break;
        case OP_AVG: r.v = {shmem_talp__set_avg_cpus(m.v[0], m.v[1])}; break;
        case OP_FIN: r.v = {shmem_talp__finalize(m.v[0])}; break;
        case OP_ATTACH: { setenv("DLB_ARGS", ("--shm-key=" + key + " --quiet=yes --shm-size-multiplier=" + std::to_string(m.v[0])).c_str(), 1); r.v = {DLB_TALP_Attach()}; break; }
        case OP_DETACH: r.v = {DLB_TALP_Detach()}; break;
        case OP_PIDS: { int n = -1; std::vector<pid_t> l(m.v[0] + 4, -9); int e = shmem_talp__get_pidlist(l.data(), &n, m.v[0]); r.v = {e, n}; for (auto x : l) r.v.push_back(x); break; }
        case OP_REGION: { talp_region_list_t t; memset(&t, 0, sizeof t); int e = shmem_talp__get_region(&t, m.v[0], m.s.c_str()); r.v = {e, t.pid, t.region_id, t.mpi_time, t.useful_time, (int64_t)t.avg_cpus}; break; }
        case OP_LIST: { int n = -1; talp_region_list_t z; memset(&z, 0xf7, sizeof z); std::vector<talp_region_list_t> l(m.v[0] + 4, z); int e = shmem_talp__get_regionlist(l.data(), &n, m.v[0], m.s.c_str()); r.v = {e, n};
            for (auto &t : l) { bool raw = !memcmp(&t, &z, sizeof z); for (int64_t x : {(int64_t)!raw, (int64_t)t.pid, (int64_t)t.region_id, (int64_t)t.mpi_time, (int64_t)t.useful_time, raw ? 0 : (int64_t)t.avg_cpus}) r.v.push_back(x); } break; }
        case OP_TIMES: { int e = shmem_talp__get_times(m.v[0], &a, &b); r.v = {e, a, b}; break; }
        case OP_NODETIMES: { int n = -1; dlb_node_times_t z; memset(&z, 0xf7, sizeof z); std::vector<dlb_node_times_t> l(m.v[0] + 4, z); int e = DLB_TALP_GetNodeTimes(m.v[1] ? NULL : m.s.c_str(), l.data(), &n, m.v[0]); r.v = {e, n};
            for (auto &t : l) { bool raw = !memcmp(&t, &z, sizeof z); for (int64_t x : {(int64_t)!raw, (int64_t)t.pid, (int64_t)t.mpi_time, (int64_t)t.useful_time}) r.v.push_back(x); } break; }
        case OP_GETTIMES: { double x = -1, y = -1; int e = DLB_TALP_GetTimes(m.v[0], &x, &y); r.v = {e, llround(x * 1e9), llround(y * 1e9)}; break; }
        case OP_MAX: r.v = {shmem_talp__get_max_regions()}; break;
        case OP_NODEMETRICS: { dlb_node_metrics_t nm; memset(&nm, 0, sizeof nm); int e = DLB_TALP_QueryPOPNodeMetrics(m.v[1] ? NULL : m.s.c_str(), &nm); r.v = {e, nm.processes_per_node, nm.total_useful_time, nm.total_mpi_time, nm.max_useful_time, nm.max_mpi_time}; break; }
        case OP_PRINT: { fflush(stderr); int sv = dup(2); int f = open("print.txt", O_CREAT | O_TRUNC | O_RDWR, 0600); dup2(f, 2); shmem_talp__print_info(key.c_str(), m.v[0]); fflush(stderr); dup2(sv, 2); close(sv); lseek(f, 0, SEEK_SET); char b[4096]; ssize_t n; while ((n = read(f, b, sizeof b)) > 0) r.s.append(b, n); close(f); break; }
    }
    return r;
}

struct Reg { int64_t pid = 0; std::string name; int64_t mpi = 0, useful = 0, avg = 0; int id = -1; int owner = -1; };

static void one(Ctx &c) {
    int ncpus = c.oneof<int>({4, 6, 2, 3, 1, 5}), mult = c.range(1, 3), fmult = mult;      // multiplier passed by applications
    bool api_mult = c.flip(); if (api_mult) { fmult = mult * 100; }      // the one DLB_Init would use with an external profiler
    int cap = ncpus * fmult;
    int na = c.range(1, std::min(4, ncpus)), nx = c.range(0, std::min(2, ncpus - na));   // the registry keeps track of one attached process per CPU
    mu_testing_set_sys_size(ncpus);
    rpc::Pool P(c);
    std::string key = c.key;
    for (int i = 0; i < na + nx; ++i) P.spawn([&](int) { return [key](const Msg &m) { return handle(key, m); }; });
    std::vector<bool> in(na), att(nx); std::vector<std::set<int64_t>> pids(na);
    std::map<int, Reg> R; size_t high = 0; int nextpid = 1000;
    bool seg = false;                 // some application is or was attached while the segment lives
    std::vector<std::string> names = {"Global", "solver", "a", "", std::string(127, 'x'), std::string(127, 'x').substr(0, 126) + "y", std::string(140, 'x'), "solver 2"};
    auto cut = [](const std::string &s) { return s.substr(0, 127); };
    auto users = [&] { int n = 0; for (bool b : in) n += b; for (bool b : att) n += b; return n; };
    int sharers = 0, reads = 0; size_t maxr = 0;
    int n = c.len(8, 60);
    auto readers = [&](bool ok) { std::vector<int> v; for (int i = 0; i < na; ++i) if (in[i] == ok) v.push_back(i); for (int i = 0; i < nx; ++i) if (att[i] == ok) v.push_back(na + i); return v; };
    auto gone = [&] { if (users() == 0) { R.clear(); high = 0; seg = false; } };
    for (int step = 0; step < n; ++step) {
        int op = c.weighted({4, 8, 8, 2, 2, 2, 1, 3, 4, 4, 2, 3, 2, 2, 1, 1});
        maxr = std::max(maxr, R.size());
        if (step < na && c.chance(3, 4)) op = 0;
        else if (R.size() < 2 && c.flip()) op = 1;
        switch (op) {
            case 0: { int i = c.range(0, na - 1); if (in[i]) break; int m = fmult; bool other = seg && c.chance(1, 6); if (other) m = fmult == 1 ? 2 : fmult - 1;
                auto r = P.call(i, Msg(OP_INIT, {m})); c.note("app %d: init multiplier %d -> %ld", i, m, (long)r.v[0]);
                if (other) { PCHECK(c, r.v[0] == DLB_ERR_INIT, "init with another size returned %ld", (long)r.v[0]); c.label("size mismatch"); }
                else { PCHECK(c, r.v[0] == DLB_SUCCESS, "init returned %ld", (long)r.v[0]); in[i] = true; seg = true; } break; }
            case 1: { int i = c.range(0, na - 1); if (!in[i]) { auto r = P.call(i, Msg(OP_REG, {5, 1}, "z")); PCHECK(c, r.v[0] == DLB_ERR_NOSHMEM, "register before init returned %ld", (long)r.v[0]); break; }
                int64_t pid = pids[i].empty() || (pids[i].size() < 3 && c.chance(1, 4)) ? 0 : *std::next(pids[i].begin(), c.range(0, pids[i].size() - 1)); if (!pid) { pid = ++nextpid; }
                std::string nm = c.chance(1, 3) ? "r" + std::to_string(c.range(0, 40)) : c.pick(names); int64_t avg = c.range(0, 64);
                auto r = P.call(i, Msg(OP_REG, {pid, avg}, nm)); c.note("app %d: register pid %ld '%.20s'(%zu) -> %ld id %ld", i, (long)pid, nm.c_str(), nm.size(), (long)r.v[0], (long)r.v[1]);
                int found = -1; for (auto &k : R) if (k.second.pid == pid && k.second.name == cut(nm)) found = k.first;
                if (found >= 0) { PCHECK(c, r.v[0] == DLB_NOUPDT && r.v[1] == found, "registering again: %ld, id %ld, expected id %d", (long)r.v[0], (long)r.v[1], found); }
                else if ((int)R.size() >= cap) { PCHECK(c, r.v[0] == DLB_ERR_NOMEM, "register with %zu of %d regions returned %ld", R.size(), cap, (long)r.v[0]); c.label("full"); }
                else { PCHECK(c, r.v[0] == DLB_SUCCESS, "register with %zu of %d regions returned %ld", R.size(), cap, (long)r.v[0]); PCHECK(c, r.v[1] >= 0 && r.v[1] < cap && !R.count(r.v[1]), "region id %ld is out of range or in use", (long)r.v[1]);
                    Reg g; g.pid = pid; g.name = cut(nm); g.avg = avg; g.id = r.v[1]; g.owner = i; R[g.id] = g; pids[i].insert(pid); high = std::max<size_t>(high, g.id + 1); }
                break; }
            case 2: case 3: { std::vector<int> mine; int i = c.range(0, na - 1); for (auto &k : R) if (k.second.owner == i) mine.push_back(k.first);
                int id = mine.empty() || c.chance(1, 8) ? c.oneof<int>({-1, (int)high, cap, cap + 5, 1 << 30}) : c.pick(mine); bool ok = R.count(id);
                if (!ok && id >= 0 && id < (int)high) break;
                if (op == 2) { int64_t m = c.u64() >> 2, u = c.u64() >> 2; auto r = P.call(i, Msg(OP_SET, {id, m, u})); c.note("app %d: set_times %d mpi %ld useful %ld -> %ld", i, id, (long)m, (long)u, (long)r.v[0]);
                    PCHECK(c, (r.v[0] == DLB_SUCCESS) == (ok && in[i]), "set_times(%d) returned %ld", id, (long)r.v[0]); if (!in[i]) PCHECK(c, r.v[0] == DLB_ERR_NOSHMEM, "set_times before init returned %ld", (long)r.v[0]); if (ok && in[i]) { R[id].mpi = m; R[id].useful = u; } }
                else { int64_t a = c.range(0, 500); auto r = P.call(i, Msg(OP_AVG, {id, a})); c.note("app %d: set_avg %d %ld -> %ld", i, id, (long)a, (long)r.v[0]); PCHECK(c, (r.v[0] == DLB_SUCCESS) == (ok && in[i]), "set_avg_cpus(%d) returned %ld", id, (long)r.v[0]); if (ok && in[i]) R[id].avg = a; }
                break; }
            case 4: { int i = c.range(0, na - 1); if (!in[i]) { auto r = P.call(i, Msg(OP_FIN, {12})); PCHECK(c, r.v[0] == DLB_ERR_NOSHMEM, "finalize before init returned %ld", (long)r.v[0]); break; }
                // every process identifier but the last is finalized as a further attachment
                while (pids[i].size() > 1) { int64_t pid = *pids[i].begin(); P.call(i, Msg(OP_INIT, {fmult})); auto r = P.call(i, Msg(OP_FIN, {pid})); PCHECK(c, r.v[0] == DLB_SUCCESS, "finalize returned %ld", (long)r.v[0]); for (auto it = R.begin(); it != R.end();) if (it->second.pid == pid) it = R.erase(it); else ++it; pids[i].erase(pid); c.note("app %d: finalize pid %ld", i, (long)pid); }
                int64_t pid = pids[i].empty() ? 7 : *pids[i].begin(); auto r = P.call(i, Msg(OP_FIN, {pid})); c.note("app %d: finalize pid %ld -> %ld", i, (long)pid, (long)r.v[0]); PCHECK(c, r.v[0] == DLB_SUCCESS, "finalize returned %ld", (long)r.v[0]);
                for (auto it = R.begin(); it != R.end();) if (it->second.pid == pid) it = R.erase(it); else ++it; pids[i].clear(); in[i] = false; gone(); break; }
            case 5: { if (!nx) break; int i = c.range(0, nx - 1); if (att[i]) break; int em = api_mult ? mult : fmult; if (seg && c.chance(1, 3)) em = c.range(1, 5);
                if (!seg && !api_mult) break;
                auto r = P.call(na + i, Msg(OP_ATTACH, {em})); c.note("external %d: attach with multiplier %d -> %ld", i, em, (long)r.v[0]); PCHECK(c, r.v[0] == DLB_SUCCESS, "attach returned %ld", (long)r.v[0]); att[i] = true; break; }
            case 6: { if (!nx) break; int i = c.range(0, nx - 1); if (!att[i]) break; auto r = P.call(na + i, Msg(OP_DETACH)); c.note("external %d: detach -> %ld", i, (long)r.v[0]); PCHECK(c, r.v[0] == DLB_SUCCESS, "detach returned %ld", (long)r.v[0]); att[i] = false; gone(); break; }
            case 7: { auto v = readers(true); if (v.empty()) break; int i = c.pick(v); int ml = c.oneof<int>({0, 1, 2, 50, 50}); auto r = P.call(i, Msg(OP_PIDS, {ml})); ++reads;
                std::set<int64_t> all; for (auto &k : R) all.insert(k.second.pid); c.note("reader %d: pidlist max %d -> %ld", i, ml, (long)r.v[1]);
                PCHECK(c, r.v[0] == DLB_SUCCESS && r.v[1] == std::min<int64_t>(all.size(), ml), "pid list: %ld, %ld elements of %zu (max %d)", (long)r.v[0], (long)r.v[1], all.size(), ml);
                std::set<int64_t> got; for (int k = 0; k < r.v[1]; ++k) { PCHECK(c, all.count(r.v[2 + k]), "pid list contains %ld", (long)r.v[2 + k]); PCHECK(c, got.insert(r.v[2 + k]).second, "pid %ld listed twice", (long)r.v[2 + k]); }
                for (int k = r.v[1]; k < ml + 4; ++k) PCHECK(c, r.v[2 + k] == -9, "pid list written beyond its length"); break; }
            case 8: { auto v = readers(true); if (v.empty()) break; int i = c.pick(v); ++reads;
                int64_t pid; std::string nm; if (!R.empty() && c.chance(4, 5)) { auto it = std::next(R.begin(), c.range(0, R.size() - 1)); pid = it->second.pid; nm = it->second.name; if (c.chance(1, 8)) nm = "solver"; } else { pid = nextpid + 1; nm = "Global"; }
                auto r = P.call(i, Msg(OP_REGION, {pid}, nm)); int f = -1; for (auto &k : R) if (k.second.pid == pid && k.second.name == nm) f = k.first;
                c.note("reader %d: region %ld '%.20s' -> %ld", i, (long)pid, nm.c_str(), (long)r.v[0]);
                if (f < 0) PCHECK(c, r.v[0] == DLB_ERR_NOPROC, "unknown region: %ld", (long)r.v[0]);
                else { Reg &g = R[f]; PCHECK(c, r.v[0] == DLB_SUCCESS && r.v[1] == pid && r.v[2] == f && r.v[3] == g.mpi && r.v[4] == g.useful && r.v[5] == g.avg, "region of %ld: code %ld id %ld mpi %ld useful %ld avg %ld; published mpi %ld useful %ld avg %ld", (long)pid, (long)r.v[0], (long)r.v[2], (long)r.v[3], (long)r.v[4], (long)r.v[5], (long)g.mpi, (long)g.useful, (long)g.avg); if (g.owner != i) ++sharers; }
                break; }
            case 9: case 11: case 14: { auto v = readers(true); if (v.empty()) break; int i = c.pick(v); std::string nm = R.empty() || c.chance(1, 8) ? "Global" : std::next(R.begin(), c.range(0, R.size() - 1))->second.name; int ml = c.oneof<int>({0, 1, 3, 60, 60}); bool null = nm == "Global" && c.flip(); ++reads;
                std::vector<Reg> ex; for (auto &k : R) if (k.second.name == nm) ex.push_back(k.second);
                if (op == 14) { int64_t su = 0, sm = 0, mu = 0, mm = 0; int np = 0; for (auto &g : ex) { if (g.mpi > 0 || g.useful > 0) ++np; if (su > INT64_MAX / 4 || sm > INT64_MAX / 4) { np = -1; break; } su += g.useful; sm += g.mpi; mu = std::max(mu, g.useful); mm = std::max(mm, g.mpi); }
                    if (np < 0 || su + sm < 0 || su > (1ll << 60) || sm > (1ll << 60)) break;
                    if (ex.size() > (size_t)ncpus) break;     // the node list holds one process per CPU
                    bool shown = seg; auto r = P.call(i, Msg(OP_NODEMETRICS, {0, null}, nm)); c.note("reader %d: node metrics '%.20s' -> %ld", i, nm.c_str(), (long)r.v[0]);
                    if (!shown) { PCHECK(c, r.v[0] == DLB_ERR_NOSHMEM, "node metrics without registry returned %ld", (long)r.v[0]); break; }
                    if (!np) PCHECK(c, r.v[0] == DLB_ERR_NOENT, "node metrics of an unused region returned %ld", (long)r.v[0]);
                    else PCHECK(c, r.v[0] == DLB_SUCCESS && r.v[1] == np && r.v[2] == su && r.v[3] == sm && r.v[4] == mu && r.v[5] == mm, "node metrics: code %ld, %ld processes, useful %ld mpi %ld; published %d processes, useful %ld mpi %ld", (long)r.v[0], (long)r.v[1], (long)r.v[2], (long)r.v[3], np, (long)su, (long)sm);
                    break; }
                int w = op == 9 ? 6 : 4; auto r = P.call(i, Msg(op == 9 ? OP_LIST : OP_NODETIMES, {ml, null}, nm)); c.note("reader %d: %s '%.20s' max %d -> %ld, %ld", i, op == 9 ? "list" : "node times", nm.c_str(), ml, (long)r.v[0], (long)r.v[1]);
                if (op == 11 && !seg) { PCHECK(c, r.v[0] == DLB_ERR_NOSHMEM, "node times without registry returned %ld", (long)r.v[0]); break; }
                int64_t expn = std::min<int64_t>(ex.size(), ml); PCHECK(c, r.v[0] == DLB_SUCCESS && r.v[1] == expn, "list of '%.30s': code %ld, %ld elements, %zu regions, max %d", nm.c_str(), (long)r.v[0], (long)r.v[1], ex.size(), ml);
                int64_t prev = -1; for (int k = 0; k < ml + 4; ++k) { int64_t *e = &r.v[2 + w * k]; if (k >= expn) { PCHECK(c, !e[0], "list written beyond its length"); continue; }
                    PCHECK(c, e[1] > prev, "list not sorted or repeated: %ld after %ld", (long)e[1], (long)prev); prev = e[1]; const Reg *g = nullptr; for (auto &x : ex) if (x.pid == e[1]) g = &x; PCHECK(c, g, "list contains process %ld, which has no region '%s'", (long)e[1], nm.c_str());
                    int64_t *t = op == 9 ? e + 3 : e + 2; PCHECK(c, t[0] == g->mpi && t[1] == g->useful, "process %ld reported with mpi %ld useful %ld, published %ld %ld", (long)g->pid, (long)t[0], (long)t[1], (long)g->mpi, (long)g->useful); if (op == 9) PCHECK(c, e[2] == g->id && e[5] == g->avg, "process %ld reported with id %ld avg %ld", (long)g->pid, (long)e[2], (long)e[5]); if (g->owner != i) ++sharers; }
                break; }
            case 10: { auto v = readers(true); if (v.empty()) break; int i = c.pick(v); int id = R.empty() || c.chance(1, 5) ? c.oneof<int>({-1, (int)high, cap, 1 << 29}) : std::next(R.begin(), c.range(0, R.size() - 1))->first;
                auto r = P.call(i, Msg(OP_TIMES, {id})); if (R.count(id)) PCHECK(c, r.v[0] == DLB_SUCCESS && r.v[1] == R[id].mpi && r.v[2] == R[id].useful, "times of region %d: %ld %ld %ld", id, (long)r.v[0], (long)r.v[1], (long)r.v[2]); else PCHECK(c, r.v[0] < 0, "times of region %d returned %ld", id, (long)r.v[0]); break; }
            case 12: { std::vector<int> v; for (int i = 0; i < nx; ++i) if (att[i]) v.push_back(na + i); if (v.empty()) break; int i = c.pick(v); std::vector<int> gl; for (auto &k : R) if (k.second.name == "Global" && k.second.mpi < (1ll << 52) && k.second.useful < (1ll << 52)) gl.push_back(k.first);
                int64_t pid = gl.empty() ? nextpid + 3 : R[c.pick(gl)].pid; auto r = P.call(i, Msg(OP_GETTIMES, {pid})); c.note("external %d: GetTimes(%ld) -> %ld", i, (long)pid, (long)r.v[0]);
                if (gl.empty()) { bool has = false; (void)has; PCHECK(c, r.v[0] == DLB_ERR_NOPROC, "times of an unknown process returned %ld", (long)r.v[0]); }
                else { for (int k : gl) if (R[k].pid == pid) { int64_t tol = 2 + (R[k].mpi + R[k].useful >> 50); PCHECK(c, r.v[0] == DLB_SUCCESS && std::llabs(r.v[1] - R[k].mpi) <= tol && std::llabs(r.v[2] - R[k].useful) <= tol, "times of %ld: %ld %ld, published %ld %ld", (long)pid, (long)r.v[1], (long)r.v[2], (long)R[k].mpi, (long)R[k].useful); } } break; }
            case 13: { auto v = readers(true); if (v.empty()) break; int i = c.pick(v); if (i < na || seg) { auto r = P.call(i, Msg(OP_MAX)); if (i < na) PCHECK(c, r.v[0] == cap, "capacity is %ld, expected %d", (long)r.v[0], cap); } break; }
            default: { auto v = readers(true); if (v.empty()) break; int i = c.pick(v); auto r = P.call(i, Msg(OP_PRINT, {api_mult ? mult : fmult})); std::multiset<std::vector<std::string>> ex, got;
                for (auto &k : R) ex.insert({std::to_string(k.second.pid), k.second.name, std::to_string(k.second.mpi), std::to_string(k.second.useful)});
                size_t pos = 0; while (pos < r.s.size()) { size_t e = r.s.find('\n', pos); if (e == std::string::npos) e = r.s.size(); std::string l = r.s.substr(pos, e - pos); pos = e + 1; size_t b = l.find("  | "); if (b == std::string::npos || l.find("Useful time") != std::string::npos) continue;
                    std::vector<std::string> f; size_t p = b + 3; while (true) { size_t q = l.find(" |", p); if (q == std::string::npos) break; std::string x = l.substr(p, q - p); size_t s0 = x.find_first_not_of(' '); f.push_back(s0 == std::string::npos ? "" : x.substr(s0)); p = q + 2; } if (f.size() == 4) got.insert(f); }
                PCHECK(c, got == ex, "printed registry has %zu regions, expected %zu\n%s", got.size(), ex.size(), r.s.c_str()); break; }
        }
    }
    if (sharers > 1 && maxr > 1) c.nontrivial();
    c.label("apps=%d ext=%d", na, nx);
}

int main(int argc, char **argv) {
    pbt::Options o; o.property = "C20"; o.quick_cases = 4000; o.thorough_cases = 150000; o.case_timeout = 30; o.quick_cap_s = 60; o.thorough_cap_s = 900;
    return pbt::run(argc, argv, o, one);
}
