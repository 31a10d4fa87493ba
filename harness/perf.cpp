// C18: POP metrics against their definitions, identities and metamorphic relations.
#include "pbt.hpp"
extern "C" {
#include "apis/dlb.h"
#include "apis/dlb_talp.h"
#include "LB_core/spd.h"
#include "LB_comm/shmem_talp.h"
#include "support/mask_utils.h"
#include "support/perf_metrics.h"
void vf_pop(int v1, const char *name, const pop_base_metrics_t *b, dlb_pop_metrics_t *out);
}
using pbt::Ctx;
typedef long double L;

struct Proc { int node, cpus; int64_t useful, mpi, lb, sched, ser; double U() const { return (double)useful / cpus; } double M() const { return (double)mpi / cpus; } };

static bool near(double a, double b, double tol = 3e-5) { return std::isfinite(a) && fabs(a - b) <= tol * std::max(1.0, fabs(b)); }

static pop_base_metrics_t base_of(const std::vector<Proc> &ps) {
    pop_base_metrics_t b; memset(&b, 0, sizeof b);
    std::map<int, std::pair<int64_t, int>> node; int best = -1;
    for (size_t i = 0; i < ps.size(); ++i) {
        const Proc &p = ps[i];
        b.num_cpus += p.cpus; b.avg_cpus += p.cpus; b.useful_time += p.useful; b.mpi_time += p.mpi;
        b.omp_load_imbalance_time += p.lb; b.omp_scheduling_time += p.sched; b.omp_serialization_time += p.ser;
        node[p.node].first += p.useful; node[p.node].second += p.cpus;
        if (best < 0 || p.U() > ps[best].U() || (p.U() == ps[best].U() && p.M() > ps[best].M())) best = i;
        b.elapsed_time = std::max<int64_t>(b.elapsed_time, (p.useful + p.mpi + p.lb + p.sched + p.ser) / p.cpus);
    }
    b.num_mpi_ranks = ps.size(); b.num_nodes = node.size(); b.num_measurements = ps.size();
    b.useful_normd_app = (double)b.useful_time / b.num_cpus; b.mpi_normd_app = (double)b.mpi_time / b.num_cpus;
    for (auto &n : node) b.max_useful_normd_node = std::max(b.max_useful_normd_node, (double)n.second.first / n.second.second);
    b.max_useful_normd_proc = ps[best].U(); b.mpi_normd_of_max_useful = ps[best].M();
    return b;
}

static std::vector<double> effs(const dlb_pop_metrics_t &m) {
    return {m.parallel_efficiency, m.mpi_parallel_efficiency, m.mpi_communication_efficiency, m.mpi_load_balance, m.mpi_load_balance_in, m.mpi_load_balance_out,
            m.omp_parallel_efficiency, m.omp_load_balance, m.omp_scheduling_efficiency, m.omp_serialization_efficiency};
}
static const char *EN[] = {"parallel efficiency", "MPI parallel efficiency", "MPI communication efficiency", "MPI load balance", "MPI load balance in", "MPI load balance out", "OpenMP parallel efficiency", "OpenMP load balance", "OpenMP scheduling efficiency", "OpenMP serialization efficiency"};

static int64_t gtime(Ctx &c, int64_t top) { switch (c.weighted({2, 1, 6})) { case 0: return 0; case 1: return c.range(1, 1000); default: return c.range(0, top); } }

static void one_hybrid(Ctx &c) {
    int v1 = c.flip();
    int np = c.len(1, 24), nn = c.range(1, np);
    int64_t top = c.oneof<int64_t>({1000, 1000000, 1000000000ll, 3600ll * 1000000000});
    bool anyomp = c.flip();
    std::vector<Proc> ps(np);
    for (auto &p : ps) {
        p.node = c.range(0, nn - 1); p.cpus = c.oneof<int>({1, 1, 2, 3, 4, 8, 24, 56});
        p.useful = gtime(c, top) * p.cpus; p.mpi = gtime(c, top);
        p.lb = anyomp ? gtime(c, top) : 0; p.sched = anyomp ? gtime(c, top) : 0; p.ser = anyomp ? gtime(c, top) : 0;
        c.note("rank: node %d, %d cpus, useful %ld, mpi %ld, lb %ld, sched %ld, serial %ld", p.node, p.cpus, (long)p.useful, (long)p.mpi, (long)p.lb, (long)p.sched, (long)p.ser);
    }
    pop_base_metrics_t b = base_of(ps);
    b.cycles = gtime(c, top) * 3.0; b.instructions = gtime(c, top) * 2.0; b.num_mpi_calls = c.u64() >> 1; b.num_omp_parallels = c.u64() >> 1; b.num_omp_tasks = c.u64() >> 1;
    std::string name(c.oneof<int>({1, 6, 40, 126, 127}), 'n');
    dlb_pop_metrics_t m; memset(&m, 0x5a, sizeof m); vf_pop(v1, name.c_str(), &b, &m);
    c.label("%s", v1 ? "hybrid-v1" : "hybrid-v2");
    // measured values are passed through
#define SAME(f) PCHECK(c, (double)m.f == (double)b.f, "field %s changed", #f)
    SAME(num_cpus); SAME(num_mpi_ranks); SAME(num_nodes); SAME(avg_cpus); SAME(cycles); SAME(instructions); SAME(num_measurements); SAME(elapsed_time);
    PCHECK(c, m.num_mpi_calls == b.num_mpi_calls && m.num_omp_parallels == b.num_omp_parallels && m.num_omp_tasks == b.num_omp_tasks, "event counters changed");
    PCHECK(c, m.useful_time == b.useful_time && m.mpi_time == b.mpi_time && m.omp_load_imbalance_time == b.omp_load_imbalance_time && m.omp_scheduling_time == b.omp_scheduling_time && m.omp_serialization_time == b.omp_serialization_time, "times changed");
    SAME(useful_normd_app); SAME(mpi_normd_app); SAME(max_useful_normd_proc); SAME(max_useful_normd_node); SAME(mpi_normd_of_max_useful);
    PCHECK(c, name.substr(0, DLB_MONITOR_NAME_MAX - 1) == m.name, "name changed to %s", m.name);
    auto e = effs(m);
    for (size_t i = 0; i < e.size(); ++i) PCHECK(c, std::isfinite(e[i]) && e[i] >= 0, "%s is %g", EN[i], e[i]);
    if (b.useful_time == 0) { for (size_t i = 0; i < e.size(); ++i) PCHECK(c, e[i] == 0, "%s is %g with no useful time", EN[i], e[i]); c.label("no useful time"); return; }
    if (np > 1 && nn > 1) c.nontrivial();
    // definitions
    L U = b.useful_time, C = b.mpi_time, Il = b.omp_load_imbalance_time, Is = b.omp_scheduling_time, Ir = b.omp_serialization_time, T = U + C + Il + Is + Ir;
    PCHECK(c, near(e[0], U / T), "parallel efficiency %g, expected %Lg", e[0], U / T);
    PCHECK(c, near(e[6], (U + C) / T), "OpenMP parallel efficiency %g, expected %Lg", e[6], (U + C) / T);
    PCHECK(c, near(e[7] * e[8] * e[9], e[6]), "OpenMP load balance %g x scheduling %g x serialization %g is not the OpenMP parallel efficiency %g", e[7], e[8], e[9], e[6]);
    PCHECK(c, near(e[9], (U + C) / (U + C + Ir)), "OpenMP serialization efficiency %g", e[9]);
    PCHECK(c, near(e[7], (U + C + Ir) / (U + C + Ir + Il)), "OpenMP load balance %g", e[7]);
    PCHECK(c, near(e[8], (U + C + Ir + Il) / T), "OpenMP scheduling efficiency %g", e[8]);
    L app = b.useful_normd_app, mp = b.max_useful_normd_proc, mn = b.max_useful_normd_node, mo = b.mpi_normd_of_max_useful, ma = b.mpi_normd_app;
    PCHECK(c, near(e[3], app / mp), "MPI load balance %g, expected %Lg", e[3], app / mp);
    PCHECK(c, near(e[4], mn / mp), "MPI load balance in %g, expected %Lg", e[4], mn / mp);
    PCHECK(c, near(e[5], app / mn), "MPI load balance out %g, expected %Lg", e[5], app / mn);
    PCHECK(c, near(e[4] * e[5], e[3]), "load balance in x out = %g, load balance %g", e[4] * e[5], e[3]);
    PCHECK(c, near(e[2] * e[3], e[1]), "communication x load balance = %g, MPI parallel efficiency %g", e[2] * e[3], e[1]);
    if (v1) {
        PCHECK(c, near(e[1], U / (U + C)), "MPI parallel efficiency %g", e[1]);
        PCHECK(c, near(e[2], mp / (app + ma)), "MPI communication efficiency %g", e[2]);
        PCHECK(c, near(e[1] * e[6], e[0]), "MPI x OpenMP = %g, parallel efficiency %g", e[1] * e[6], e[0]);
        for (int i : {0, 1, 3, 4, 5, 6, 7, 8, 9}) PCHECK(c, e[i] <= 1 + 1e-5, "%s is %g", EN[i], e[i]);
    } else {
        PCHECK(c, near(e[1], app / (mp + mo)), "MPI parallel efficiency %g", e[1]);
        PCHECK(c, near(e[2], mp / (mp + mo)), "MPI communication efficiency %g", e[2]);
        for (size_t i = 0; i < e.size(); ++i) PCHECK(c, e[i] <= 1 + 1e-5, "%s is %g", EN[i], e[i]);
    }
    // scaling all times changes nothing
    int64_t k = c.oneof<int64_t>({2, 3, 10, 1000});
    std::vector<Proc> p2 = ps; for (auto &p : p2) { p.useful *= k; p.mpi *= k; p.lb *= k; p.sched *= k; p.ser *= k; }
    pop_base_metrics_t b2 = base_of(p2); dlb_pop_metrics_t m2; vf_pop(v1, "x", &b2, &m2); auto e2 = effs(m2);
    for (size_t i = 0; i < e.size(); ++i) PCHECK(c, near(e2[i], e[i]), "%s is %g, and %g with all the times multiplied by %ld", EN[i], e[i], e2[i], (long)k);
    // order of processes
    std::vector<Proc> p3(ps.rbegin(), ps.rend()); pop_base_metrics_t b3 = base_of(p3); dlb_pop_metrics_t m3; vf_pop(v1, "x", &b3, &m3); auto e3 = effs(m3);
    for (size_t i = 0; i < e.size(); ++i) PCHECK(c, near(e3[i], e[i]), "%s depends on the order of processes: %g %g", EN[i], e[i], e3[i]);
    // more idle time of one kind never improves the parallel efficiency nor touches the MPI model
    pop_base_metrics_t b4 = b; int which = c.range(0, 2); int64_t add = c.range(1, top);
    (which == 0 ? b4.omp_load_imbalance_time : which == 1 ? b4.omp_scheduling_time : b4.omp_serialization_time) += add;
    dlb_pop_metrics_t m4; vf_pop(v1, "x", &b4, &m4); auto e4 = effs(m4);
    PCHECK(c, e4[0] <= e[0] + 1e-6 && e4[6] <= e[6] + 1e-6, "idle time increases the efficiency");
    for (int i = 1; i <= 5; ++i) PCHECK(c, near(e4[i], e[i]), "%s depends on OpenMP idle time", EN[i]);
}

// node metrics through the shared registry
static void one_node(Ctx &c) {
    int np = c.len(1, 16); int ncpus = c.range(np, 40);
    mu_init(); mu_testing_set_sys_size(ncpus);
    PCHECK(c, shmem_talp__init(c.key.c_str(), c.range(1, 3)) == DLB_SUCCESS, "init");
    const char *name = "Region one";
    bool equal = c.flip(); int64_t top = c.oneof<int64_t>({1000, 1000000, 60000000000ll}); int64_t el = c.range(1, top);
    int64_t su = 0, sm = 0, mu = 0, mm = 0; int used = 0;
    for (int i = 0; i < np; ++i) {
        int64_t u = gtime(c, el), m = equal ? el - u : gtime(c, top); if (equal && u > el) { u = el; m = 0; }
        if (c.chance(1, 6)) { u = m = 0; }
        int id; PCHECK(c, shmem_talp__register(100 + i, 1, name, &id) == DLB_SUCCESS, "register"); PCHECK(c, shmem_talp__set_times(id, m, u) == DLB_SUCCESS, "set");
        c.note("process %d: useful %ld, mpi %ld", i, (long)u, (long)m);
        if (u || m) ++used; su += u; sm += m; mu = std::max(mu, u); mm = std::max(mm, m);
        if (c.chance(1, 3) && ncpus > 2 * np) { int x; if (shmem_talp__register(100 + i, 1, "other", &x) == DLB_SUCCESS) shmem_talp__set_times(x, c.range(0, top), c.range(0, top)); }
    }
    dlb_node_metrics_t nm; memset(&nm, 0x5a, sizeof nm);
    int err = DLB_TALP_QueryPOPNodeMetrics(name, &nm);
    PCHECK(c, err == (used ? DLB_SUCCESS : DLB_ERR_NOENT), "query returned %d with %d processes", err, used);
    if (used) {
        if (used > 2) c.nontrivial();
        PCHECK(c, !strcmp(nm.name, name), "name %s", nm.name);
        PCHECK(c, nm.processes_per_node == used && nm.total_useful_time == su && nm.total_mpi_time == sm && nm.max_useful_time == mu && nm.max_mpi_time == mm, "totals: %d processes, useful %ld, mpi %ld, max %ld %ld", nm.processes_per_node, (long)nm.total_useful_time, (long)nm.total_mpi_time, (long)nm.max_useful_time, (long)nm.max_mpi_time);
        double pe = nm.parallel_efficiency, ce = nm.communication_efficiency, lb = nm.load_balance;
        c.note("pe %g ce %g lb %g", pe, ce, lb);
        PCHECK(c, std::isfinite(pe) && std::isfinite(ce) && std::isfinite(lb) && pe >= 0 && ce >= 0 && lb >= 0, "metrics not finite: %g %g %g", pe, ce, lb);
        L elapsed = (L)(su + sm) / used;
        if (elapsed >= 1) {
            PCHECK(c, pe <= 1 + 1e-5 && lb <= 1 + 1e-5, "metrics above one: %g %g", pe, lb);
            PCHECK(c, near(pe, (L)su / (su + sm)), "parallel efficiency %g, expected %Lg", pe, (L)su / (su + sm));
            if (mu) PCHECK(c, near(lb, ((L)su / used) / mu), "load balance %g, expected %Lg", lb, ((L)su / used) / mu);
            double tr = 1.0 / (double)elapsed;    // the elapsed time is a whole number of nanoseconds
            PCHECK(c, near(ce, mu / elapsed, 3e-5 + 2 * tr), "communication efficiency %g, expected %Lg", ce, mu / elapsed);
            PCHECK(c, near(lb * ce, pe, 6e-5 + 3 * tr), "load balance %g x communication %g is not %g", lb, ce, pe);
            if (equal) PCHECK(c, ce <= 1 + 1e-5 + 2 * tr || used < np, "communication efficiency %g", ce);
        }
        if (!su) PCHECK(c, pe == 0 && ce == 0 && lb == 0, "no useful time, but %g %g %g", pe, ce, lb);
    }
    for (int i = 0; i < np; ++i) shmem_talp__finalize(100 + i);
}

int main(int argc, char **argv) {
    std::string v = "hybrid"; for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], "--kind")) v = argv[i + 1];
    pbt::Options o; o.property = "C18"; o.rule = "metrics";
    o.quick_cases = 30000; o.thorough_cases = 1500000; o.case_timeout = 20; o.quick_cap_s = 60; o.thorough_cap_s = 900;
    if (v == "node") { o.quick_cases = 8000; o.thorough_cases = 300000; }
    return pbt::run(argc, argv, o, [&](Ctx &c) { if (v == "node") one_node(c); else { for (int i = 0; i < 6; ++i) { one_hybrid(c); if (i == 5 || !c.chance(3, 4)) break; } } });
}
