// C19: TALP reports: what is recorded is what every output format says.
#include "pbt.hpp"
#include "json.hpp"
#include <locale.h>
#include <map>
#include <set>
extern "C" {
#include "apis/dlb_talp.h"
#include "support/talp_output.h"
#include "support/debug.h"
#include "support/options.h"
#include "support/mask_utils.h"
}
using pbt::Ctx; typedef int64_t i64; typedef std::string S;
static S locdir;

struct Xml { S name, text; std::vector<Xml> kids; const Xml *get(const S &n) const { for (auto &k : kids) if (k.name == n) return &k; return nullptr; } };
struct XP { const char *p, *e; [[noreturn]] void bad(const char *m) { throw S(m) + " at: " + S(p, std::min<size_t>(50, e - p)); }
    S text(char stop) { S o; while (p < e && *p != stop) { if (*p == '>') { } if (*p == '&') { const char *q = (const char *)memchr(p, ';', e - p); if (!q) bad("bad entity"); S n(p + 1, q - p - 1); if (n == "amp") o += '&'; else if (n == "lt") o += '<'; else if (n == "gt") o += '>'; else if (n == "quot") o += '"'; else if (n == "apos") o += '\''; else if (n.size() > 1 && n[0] == '#') o += (char)(n[1] == 'x' ? strtol(n.c_str() + 2, 0, 16) : atoi(n.c_str() + 1)); else bad("unknown entity"); p = q + 1; } else o += *p++; } return o; }
    Xml elem() { if (p >= e || *p != '<') bad("expected element"); ++p; Xml x; while (p < e && (isalnum((unsigned char)*p) || *p == '_')) x.name += *p++; if (x.name.empty() || p >= e || *p != '>') bad("bad tag"); ++p;
        while (true) { x.text += text('<'); if (p + 1 >= e) bad("unterminated element"); if (p[1] == '/') { S t = "</" + x.name + ">"; if ((size_t)(e - p) < t.size() || S(p, t.size()) != t) bad("wrong closing tag"); p += t.size(); return x; } x.kids.push_back(elem()); } }
    Xml doc() { S h = "<?xml version=\"1.0\" encoding=\"UTF-8\" ?>\n"; if ((size_t)(e - p) < h.size() || S(p, h.size()) != h) bad("no XML declaration"); p += h.size(); Xml x = elem(); while (p < e && isspace((unsigned char)*p)) ++p; if (p != e) bad("trailing text"); return x; } };
// RFC 4180
static std::vector<std::vector<S>> csv(const S &t) {
    std::vector<std::vector<S>> rows; std::vector<S> row; S f; size_t i = 0; if (!t.empty() && t.back() != '\n') throw S("file does not end with a newline");
    while (i < t.size()) { if (t[i] == '"' && f.empty()) { ++i; while (true) { if (i >= t.size()) throw S("unterminated quote"); if (t[i] == '"') { if (i + 1 < t.size() && t[i + 1] == '"') { f += '"'; i += 2; continue; } ++i; break; } f += t[i++]; } if (i < t.size() && t[i] != ',' && t[i] != '\n') throw S("text after closing quote: ") + t.substr(i, 30); }
        else if (t[i] == ',') { row.push_back(f); f.clear(); ++i; } else if (t[i] == '\n') { row.push_back(f); f.clear(); rows.push_back(row); row.clear(); ++i; } else f += t[i++]; }
    return rows;
}
struct Val { S key; int type; double d; i64 i; S s; };      // type 0 integer, 1 text, 2+n: decimal with n digits
static void same(Ctx &c, const char *fmt, const S &where, const Val &v, const S &got) {
    bool ok; if (v.type == 0) ok = got == std::to_string(v.i); else if (v.type == 1) ok = got == v.s; else { char *e; double g = strtod(got.c_str(), &e); double tol = (v.type == 2 ? 0.5 : v.type == 3 ? 0.05 : 0.005) * 1.001 + fabs(v.d) * 1e-9; ok = *e == 0 && !got.empty() && fabs(g - v.d) <= tol; }
    PCHECK(c, ok, "%s, %s: %s is '%.200s', recorded %s", fmt, where.c_str(), v.key.c_str(), got.c_str(), v.type == 1 ? v.s.c_str() : v.type == 0 ? std::to_string(v.i).c_str() : std::to_string(v.d).c_str());
}
struct Node { std::vector<char> buf; node_record_t *r() { return (node_record_t *)buf.data(); } };
struct Region { S name; std::vector<process_record_t> ranks; };
struct Rec { std::vector<dlb_pop_metrics_t> pops; std::vector<Node> nodes; std::vector<Region> regs; bool res = false; int rc = 0, rn = 0, rm = 0; };

static std::vector<Val> popv(const dlb_pop_metrics_t &m) {
#define I(k, f) {k, 0, 0, (i64)m.f, ""}
#define D(k, f, n) {k, 2 + n, (double)m.f, 0, ""}
    return {I("numCpus", num_cpus), I("numMpiRanks", num_mpi_ranks), I("numNodes", num_nodes), D("avgCpus", avg_cpus, 1), D("cycles", cycles, 0), D("instructions", instructions, 0), I("numMeasurements", num_measurements), I("numMpiCalls", num_mpi_calls), I("numOmpParallels", num_omp_parallels), I("numOmpTasks", num_omp_tasks), I("elapsedTime", elapsed_time), I("usefulTime", useful_time), I("mpiTime", mpi_time), I("ompLoadImbalanceTime", omp_load_imbalance_time), I("ompSchedulingTime", omp_scheduling_time), I("ompSerializationTime", omp_serialization_time),
        D("usefulNormdApp", useful_normd_app, 0), D("mpiNormdApp", mpi_normd_app, 0), D("maxUsefulNormdProc", max_useful_normd_proc, 0), D("maxUsefulNormdNode", max_useful_normd_node, 0), D("mpiNormdOfMaxUseful", mpi_normd_of_max_useful, 0), D("parallelEfficiency", parallel_efficiency, 2), D("mpiParallelEfficiency", mpi_parallel_efficiency, 2), D("mpiCommunicationEfficiency", mpi_communication_efficiency, 2), D("mpiLoadBalance", mpi_load_balance, 2), D("mpiLoadBalanceIn", mpi_load_balance_in, 2), D("mpiLoadBalanceOut", mpi_load_balance_out, 2), D("ompParallelEfficiency", omp_parallel_efficiency, 2), D("ompLoadBalance", omp_load_balance, 2), D("ompSchedulingEfficiency", omp_scheduling_efficiency, 2), D("ompSerializationEfficiency", omp_serialization_efficiency, 2)};
}
static S cpulist(const process_record_t &p) { S q = p.cpuset_quoted; return q.size() >= 2 ? q.substr(1, q.size() - 2) : q; }
static std::vector<Val> procv(const process_record_t &p) { const dlb_monitor_t &m = p.monitor;
    return {{"rank", 0, 0, p.rank, ""}, {"pid", 0, 0, p.pid, ""}, {"nodeId", 0, 0, p.node_id, ""}, {"hostname", 1, 0, 0, p.hostname}, {"cpuset", 1, 0, 0, cpulist(p)}, I("numCpus", num_cpus), D("avgCpus", avg_cpus, 1), I("cycles", cycles), I("instructions", instructions), I("numMeasurements", num_measurements), I("numResets", num_resets), I("numMpiCalls", num_mpi_calls), I("numOmpParallels", num_omp_parallels), I("numOmpTasks", num_omp_tasks), I("elapsedTime", elapsed_time), I("usefulTime", useful_time), I("mpiTime", mpi_time), I("ompLoadImbalanceTime", omp_load_imbalance_time), I("ompSchedulingTime", omp_scheduling_time), I("ompSerializationTime", omp_serialization_time)}; }
static const std::vector<S> CSVPROC = {"Region", "Rank", "PID", "NodeId", "Hostname", "CpuSet", "NumCpus", "AvgCpus", "Cycles", "Instructions", "NumMeasurements", "NumResets", "NumMpiCalls", "NumOmpParallels", "NumOmpTasks", "ElapsedTime", "UsefulTime", "MPITime", "OMPLoadImbalance", "OMPSchedulingTime", "OMPSerializationTime"};

static void check_json(Ctx &c, Rec &R, const S &t) {
    try { auto j = json::parse(t);
        PCHECK(c, j.count("dlbVersion") == 1 && j.count("timestamp") == 1 && j.count("resources") == 1, "common members missing");
        auto &rs = j["resources"]; PCHECK(c, rs["numCpus"].i() == R.rc && rs["numNodes"].i() == R.rn && rs["numMpiRanks"].i() == R.rm, "resources are %s, %s, %s; recorded %d, %d, %d", rs["numCpus"].s.c_str(), rs["numNodes"].s.c_str(), rs["numMpiRanks"].s.c_str(), R.rc, R.rn, R.rm);
        PCHECK(c, j.count("Application") == !R.pops.empty() && j.count("node") == !R.nodes.empty() && j.count("Process") == !R.regs.empty(), "sections do not match the records");
        if (!R.pops.empty()) { auto &a = j["Application"]; PCHECK(c, a.o.size() == R.pops.size(), "%zu application regions, recorded %zu", a.o.size(), R.pops.size()); for (auto &m : R.pops) { PCHECK(c, a.count(m.name) == 1, "region '%s' appears %d times", m.name, a.count(m.name)); auto &x = a[m.name]; auto v = popv(m); PCHECK(c, x.o.size() == v.size(), "%zu members", x.o.size()); for (auto &w : v) same(c, "JSON", m.name, w, x[w.key].s); } }
        if (!R.nodes.empty()) { auto &a = j["node"]; PCHECK(c, a.a.size() == R.nodes.size(), "%zu nodes", a.a.size()); for (size_t i = 0; i < R.nodes.size(); ++i) { auto *n = R.nodes[i].r(); auto &x = a.a[i]; PCHECK(c, x["id"].s == std::to_string(n->node_id) && (int)x["process"].a.size() == n->nelems, "node %zu differs", i); for (int k = 0; k < n->nelems; ++k) { auto &y = x["process"].a[k]; PCHECK(c, y["id"].i() == n->processes[k].pid && y["usefulTime"].i() == n->processes[k].useful_time && y["mpiTime"].i() == n->processes[k].mpi_time, "process %d of node %zu differs", k, i); }
            PCHECK(c, x["nodeAvg"]["usefulTime"].i() == n->avg_useful_time && x["nodeAvg"]["mpiTime"].i() == n->avg_mpi_time && x["nodeMax"]["usefulTime"].i() == n->max_useful_time && x["nodeMax"]["mpiTime"].i() == n->max_mpi_time, "totals of node %zu differ", i); } }
        if (!R.regs.empty()) { auto &a = j["Process"]; PCHECK(c, a.o.size() == R.regs.size(), "%zu regions, recorded %zu", a.o.size(), R.regs.size()); for (auto &r : R.regs) { PCHECK(c, a.count(r.name) == 1, "region '%s' appears %d times", r.name.c_str(), a.count(r.name)); auto &x = a[r.name]; PCHECK(c, x.a.size() == r.ranks.size(), "%zu ranks of '%s', recorded %zu", x.a.size(), r.name.c_str(), r.ranks.size()); for (size_t k = 0; k < r.ranks.size(); ++k) { auto v = procv(r.ranks[k]); PCHECK(c, x.a[k].o.size() == v.size(), "%zu members", x.a[k].o.size()); for (auto &w : v) same(c, "JSON", r.name, w, x.a[k][w.key].s); } } }
    } catch (S &e) { c.fail("JSON: %s", e.c_str()); }
}
static void check_xml(Ctx &c, Rec &R, const S &t) {
    try { XP p{t.data(), t.data() + t.size()}; Xml d = p.doc(); std::vector<const Xml *> A, N, P; for (auto &k : d.kids) { if (k.name == "Application") A.push_back(&k); if (k.name == "node") N.push_back(&k); if (k.name == "Process") P.push_back(&k); }
        auto val = [&](const Xml &x, const S &k) -> S { auto *y = x.get(k); if (!y) throw S("no element ") + k; return y->text; };
        PCHECK(c, d.get("dlbVersion") && d.get("timestamp") && d.get("resources"), "common elements missing"); PCHECK(c, val(*d.get("resources"), "numCpus") == std::to_string(R.rc), "resources differ");
        PCHECK(c, A.size() == R.pops.size() && N.size() == R.nodes.size() && P.size() == R.regs.size(), "%zu, %zu and %zu elements, recorded %zu, %zu and %zu", A.size(), N.size(), P.size(), R.pops.size(), R.nodes.size(), R.regs.size());
        for (size_t i = 0; i < A.size(); ++i) { same(c, "XML", "application", {"name", 1, 0, 0, R.pops[i].name}, val(*A[i], "name")); for (auto &w : popv(R.pops[i])) same(c, "XML", R.pops[i].name, w, val(*A[i], w.key)); }
        for (size_t i = 0; i < N.size(); ++i) { auto *n = R.nodes[i].r(); int k = 0; PCHECK(c, val(*N[i], "id") == std::to_string(n->node_id), "node id differs"); for (auto &y : N[i]->kids) if (y.name == "process") { PCHECK(c, k < n->nelems && val(y, "id") == std::to_string(n->processes[k].pid) && val(y, "usefulTime") == std::to_string(n->processes[k].useful_time) && val(y, "mpiTime") == std::to_string(n->processes[k].mpi_time), "process %d of node %zu differs", k, i); ++k; } PCHECK(c, k == n->nelems, "%d processes in node %zu", k, i);
            PCHECK(c, val(*N[i]->get("nodeAvg"), "usefulTime") == std::to_string(n->avg_useful_time) && val(*N[i]->get("nodeMax"), "mpiTime") == std::to_string(n->max_mpi_time) && val(*N[i]->get("nodeAvg"), "mpiTime") == std::to_string(n->avg_mpi_time) && val(*N[i]->get("nodeMax"), "usefulTime") == std::to_string(n->max_useful_time), "totals of node %zu differ", i); }
        for (size_t i = 0; i < P.size(); ++i) { auto &r = R.regs[i]; same(c, "XML", "process", {"name", 1, 0, 0, r.name}, val(*P[i], "name")); size_t k = 0; for (auto &y : P[i]->kids) if (y.name == "process") { PCHECK(c, k < r.ranks.size(), "too many ranks"); for (auto &w : procv(r.ranks[k])) if (w.key != "cpuset") same(c, "XML", r.name, w, val(y, w.key)); else same(c, "XML", r.name, {"cpuset", 1, 0, 0, r.ranks[k].cpuset_quoted}, val(y, w.key)); ++k; } PCHECK(c, k == r.ranks.size(), "%zu ranks of '%s'", k, r.name.c_str()); }
    } catch (S &e) { c.fail("XML: %s", e.c_str()); }
}
typedef std::vector<std::vector<S>> Rows;
static void check_csv_pop(Ctx &c, std::vector<dlb_pop_metrics_t> &E, Rows rows) { PCHECK(c, rows.size() == E.size() + 1, "%zu CSV rows, recorded %zu", rows.size(), E.size()); PCHECK(c, rows[0].size() == 32 && rows[0][0] == "name", "POP header has %zu columns", rows[0].size());
    for (size_t i = 0; i < E.size(); ++i) { auto &r = rows[i + 1]; PCHECK(c, r.size() == rows[0].size(), "row %zu has %zu columns, the header %zu", i, r.size(), rows[0].size()); same(c, "CSV", "application", {"name", 1, 0, 0, E[i].name}, r[0]); for (auto &w : popv(E[i])) { size_t k = std::find(rows[0].begin(), rows[0].end(), w.key) - rows[0].begin(); PCHECK(c, k < r.size(), "no column %s", w.key.c_str()); same(c, "CSV", E[i].name, w, r[k]); } } }
static void check_csv_node(Ctx &c, std::vector<Node> &E, Rows rows) { size_t k = 1; S h; for (auto &x : rows.at(0)) h += x + ","; PCHECK(c, h == "NodeId,ProcessId,ProcessUsefulTime,ProcessMPITime,NodeAvgUsefulTime,NodeAvgMPITime,NodeMaxUsefulTime,NodeMaxMPITime,", "node header is %s", h.c_str());
    for (auto &N : E) { auto *n = N.r(); for (int i = 0; i < n->nelems; ++i, ++k) { PCHECK(c, k < rows.size() && rows[k].size() == 8, "node row %zu missing or wrong", k); i64 ex[8] = {n->node_id, n->processes[i].pid, n->processes[i].useful_time, n->processes[i].mpi_time, n->avg_useful_time, n->avg_mpi_time, n->max_useful_time, n->max_mpi_time}; for (int q = 0; q < 8; ++q) PCHECK(c, rows[k][q] == std::to_string(ex[q]), "node row %zu column %d is '%s', recorded %ld", k, q, rows[k][q].c_str(), (long)ex[q]); } } PCHECK(c, k == rows.size(), "%zu node rows, expected %zu", rows.size(), k); }
static void check_csv_proc(Ctx &c, std::vector<Region> &E, Rows rows) { PCHECK(c, rows.size() && rows[0] == CSVPROC, "process header differs"); size_t k = 1;
    for (auto &r : E) for (auto &p : r.ranks) { PCHECK(c, k < rows.size() && rows[k].size() == CSVPROC.size(), "process row %zu is missing or has %zu columns, the header %zu", k, k < rows.size() ? rows[k].size() : 0, CSVPROC.size()); auto v = procv(p); v.insert(v.begin(), Val{"Region", 1, 0, 0, r.name}); for (size_t q = 0; q < v.size(); ++q) { v[q].key = CSVPROC[q]; same(c, "CSV", r.name, v[q], rows[k][q]); } ++k; } PCHECK(c, k == rows.size(), "%zu process rows, expected %zu", rows.size(), k); }
// plain text: the values in order, per block
static void check_txt(Ctx &c, Rec &R, const S &t, bool printed) {
    std::vector<std::vector<std::pair<S, S>>> blocks; std::vector<S> titles; std::stringstream ss(t); S l; std::map<S, int> cnt;
    while (std::getline(ss, l)) { size_t k = l.find("###"); if (k == S::npos) continue; l = l.substr(k); if (l.compare(0, 5, "#####") == 0) { titles.push_back(l); blocks.emplace_back(); continue; } if (blocks.empty()) continue; size_t q = l.find(':'); if (q == S::npos) { blocks.back().push_back({l, ""}); continue; } S v = l.substr(q + 1); v.erase(0, v.find_first_not_of(' ') == S::npos ? v.size() : v.find_first_not_of(' ')); S key = l.substr(3, q - 3); while (!key.empty() && (key[0] == ' ' || key[0] == '-')) key.erase(0, 1); blocks.back().push_back({key, v}); }
    std::vector<std::vector<std::pair<S, S>> *> P, M; for (size_t i = 0; i < titles.size(); ++i) { if (titles[i].find("Monitoring Region POP") != S::npos) P.push_back(&blocks[i]); else if (titles[i].find("Monitoring Region Summary") != S::npos) M.push_back(&blocks[i]); }
    auto val = [&](std::vector<std::pair<S, S>> *b, const S &k) -> S { for (auto &p : *b) if (p.first == k) return p.second; return "<none>"; };
    size_t np = 0; for (auto &r : R.regs) np += r.ranks.size();
    PCHECK(c, P.size() == R.pops.size() && M.size() == np, "text: %zu regions and %zu processes, recorded %zu and %zu", P.size(), M.size(), R.pops.size(), np);
    for (size_t i = 0; i < P.size(); ++i) { auto &m = R.pops[i]; same(c, "text", "application", {"Name", 1, 0, 0, m.name}, val(P[i], "Name"));
        if (m.elapsed_time <= 0) { PCHECK(c, P[i]->size() == 2 && (*P[i])[1].first.find("No data") != S::npos, "text: an empty region shows data"); continue; }
        if (printed) { if (m.mpi_parallel_efficiency > 0) for (auto &w : std::vector<Val>{D("MPI Parallel efficiency", mpi_parallel_efficiency, 2), D("MPI Load Balance", mpi_load_balance, 2), D("MPI Load Balance in", mpi_load_balance_in, 2), D("MPI Load Balance out", mpi_load_balance_out, 2)}) same(c, "text", m.name, w, val(P[i], w.key)); if (m.omp_parallel_efficiency > 0) same(c, "text", m.name, D("OpenMP Parallel efficiency", omp_parallel_efficiency, 2), val(P[i], "OpenMP Parallel efficiency")); continue; }
        for (auto &w : std::vector<Val>{I("Number of CPUs", num_cpus), I("Number of MPI processes", num_mpi_ranks), I("Number of nodes", num_nodes), I("Number of measurements", num_measurements), I("Number of MPI calls", num_mpi_calls), I("Elapsed Time (ns)", elapsed_time), I("Useful Time (ns)", useful_time), I("MPI Time (ns)", mpi_time), I("OpenMP Load Imbalance Time (ns)", omp_load_imbalance_time), I("OpenMP Scheduling Time (ns)", omp_scheduling_time), I("OpenMP Serialization Time (ns)", omp_serialization_time), I("Number of OpenMP parallel regions", num_omp_parallels), I("Number of OpenMP explicit tasks", num_omp_tasks), D("Parallel efficiency", parallel_efficiency, 2), D("MPI Load Balance", mpi_load_balance, 2), D("OpenMP Load Balance", omp_load_balance, 2), D("OpenMP Serialization efficiency", omp_serialization_efficiency, 2), D("Average CPUs", avg_cpus, 1)}) same(c, "text", m.name, w, val(P[i], w.key)); }
    size_t k = 0; for (auto &r : R.regs) for (auto &p : r.ranks) { auto &m = p.monitor; auto *b = M[k++]; same(c, "text", "process", {"Name", 1, 0, 0, r.name}, val(b, "Name")); same(c, "text", r.name, {"Process", 1, 0, 0, std::to_string(p.pid) + " (" + p.hostname + ")"}, val(b, "Process")); same(c, "text", r.name, {"CpuSet", 1, 0, 0, p.cpuset}, val(b, "CpuSet")); same(c, "text", r.name, {"Rank", 0, 0, p.rank, ""}, val(b, "Rank"));
        same(c, "text", r.name, {"Elapsed time", 1, 0, 0, std::to_string(m.elapsed_time) + " ns"}, val(b, "Elapsed time")); same(c, "text", r.name, {"Useful time", 1, 0, 0, std::to_string(m.useful_time) + " ns"}, val(b, "Useful time")); if (!printed || m.mpi_time > 0) same(c, "text", r.name, {"Not useful MPI", 1, 0, 0, std::to_string(m.mpi_time) + " ns"}, val(b, "Not useful MPI")); if (!printed || m.omp_serialization_time > 0) same(c, "text", r.name, {"Not useful OMP Serialization", 1, 0, 0, std::to_string(m.omp_serialization_time) + " ns"}, val(b, "Not useful OMP Serialization")); }
    for (auto &N : R.nodes) { auto *n = N.r(); char h[64]; snprintf(h, sizeof h, "Extended Report Node %4d ", n->node_id); PCHECK(c, t.find(h) != S::npos, "text: node %d missing", n->node_id); for (int i = 0; i < n->nelems; ++i) { char x[128]; snprintf(x, sizeof x, " | %-10d | %18e s | %18e s |", n->processes[i].pid, n->processes[i].useful_time / 1e9, n->processes[i].mpi_time / 1e9); PCHECK(c, t.find(x) != S::npos, "text: row '%s' missing", x); } }
}

static void one(Ctx &c) {
    if (c.chance(1, 2) && !locdir.empty()) { if (setlocale(LC_ALL, "de_DE.UTF-8")) c.label("comma locale"); }
    bool own = c.chance(1, 3); locale_t L = nullptr; if (own) { L = newlocale(LC_ALL_MASK, locdir.empty() ? "C" : "de_DE.UTF-8", 0); if (L) uselocale(L); }
    bool comma; { char b[16]; snprintf(b, sizeof b, "%.1f", 0.5); comma = !strcmp(b, "0,5"); }
    options_t opt; options_init(&opt, "--quiet=no"); debug_init(&opt);
    int fmt = c.range(0, 4);                           // json xml csv txt stderr
    int rounds = c.range(1, 3); int recs = 0;
    S f = c.scratch + "/" + c.oneof<const char *>({"out", "a.b", "x y"}) + (fmt == 0 ? ".json" : fmt == 1 ? ".xml" : fmt == 2 ? ".csv" : c.oneof<const char *>({".txt", "", ".jsonx"}));
    std::vector<dlb_pop_metrics_t> csvp; std::vector<Node> csvn; std::vector<Region> csvr; S csvfile[3]; bool mixed_single = false;
    auto name = [&]() -> S { S s; switch (c.range(0, 5)) { case 0: s = c.oneof<const char *>({"Global", "solver", "a", "b 2", "Anonymous Region 3"}); break; case 1: { int n = c.range(1, 20); const char *al = "ab\"\\,<>&' ;:/{}[]%sn\t"; for (int i = 0; i < n; ++i) s += al[c.draw(strlen(al))]; break; } case 2: s = S(c.range(120, 127), c.oneof<char>({'n', '"', '\\', '&', '<'})); break; case 3: s = c.oneof<const char *>({"región", "日本語", "%s%d%n", "a,b", "\"quoted\"", "</name>", "&amp;", "\\u0041", "a\\", "\""}); break; case 4: { int n = c.range(1, 8); for (int i = 0; i < n; ++i) s += (char)c.range(32, 126); break; } default: s = "r" + std::to_string(c.range(0, 9)); if ((fmt == 0 || fmt == 2) && c.flip()) s += c.oneof<const char *>({"\n2", "\r", "\x01", "\x1f", "\n"}); } return s; };
    auto clean = [&](S s) { if (fmt >= 3) { for (auto &x : s) if (x == ':' || (unsigned char)x < 32) x = '.'; while (!s.empty() && (s[0] == ' ')) s.erase(0, 1); if (s.empty()) s = "z"; } return s; };
    auto tm = [&]() -> i64 { switch (c.range(0, 3)) { case 0: return 0; case 1: return c.range(1, 100000); case 2: return c.range(1, 1000000000000ll); default: return c.range(1, INT64_MAX / 4); } };
    auto fr = [&]() -> float { return c.flip() ? c.range(0, 1000) / 1000.0f : c.oneof<float>({0.0f, 1.0f, 0.5f, 0.999f, 0.004f}); };
    for (int rd = 0; rd < rounds; ++rd) {
        Rec R; std::set<S> pn, rn; int np = c.range(0, 3), nn = c.range(0, 2), nr = c.range(0, 3);
        if (fmt == 2 && rd > 0) { if (csvp.empty() != (np == 0)) np = csvp.empty() ? 0 : 1; if (csvn.empty() != (nn == 0)) nn = csvn.empty() ? 0 : 1; if (csvr.empty() != (nr == 0)) nr = csvr.empty() ? 0 : 1; }
        for (int i = 0; i < np; ++i) { dlb_pop_metrics_t m; memset(&m, 0, sizeof m); S n = clean(name()).substr(0, 127); if (!pn.insert(n).second) continue; snprintf(m.name, sizeof m.name, "%s", n.c_str()); m.num_cpus = c.range(0, 100000); m.num_mpi_ranks = c.range(0, 5000); m.num_nodes = c.range(0, 100); m.avg_cpus = c.range(0, 10000) / 10.0f; m.cycles = (double)c.range(0, 1ll << 50) - (c.chance(1, 10) ? 1e15 : 0); m.instructions = (double)c.range(0, 1ll << 50) - (c.chance(1, 10) ? 1e15 : 0); m.num_measurements = tm(); m.num_mpi_calls = tm(); m.num_omp_parallels = tm(); m.num_omp_tasks = tm(); m.elapsed_time = tm(); m.useful_time = tm(); m.mpi_time = tm(); m.omp_load_imbalance_time = tm(); m.omp_scheduling_time = tm(); m.omp_serialization_time = tm(); m.useful_normd_app = tm(); m.mpi_normd_app = tm(); m.max_useful_normd_proc = c.range(0, 1ll << 50); m.max_useful_normd_node = c.range(0, 1ll << 50); m.mpi_normd_of_max_useful = c.range(0, 1000) + 0.25;
            m.parallel_efficiency = fr(); m.mpi_parallel_efficiency = fr(); m.mpi_communication_efficiency = fr(); m.mpi_load_balance = fr(); m.mpi_load_balance_in = fr(); m.mpi_load_balance_out = fr(); m.omp_parallel_efficiency = fr(); m.omp_load_balance = fr(); m.omp_scheduling_efficiency = fr(); m.omp_serialization_efficiency = fr();
            talp_output_record_pop_metrics(&m); m.cycles = std::max(0.0, (double)m.cycles); m.instructions = std::max(0.0, (double)m.instructions); R.pops.push_back(m); ++recs; }
        for (int i = 0; i < nn; ++i) { int k = c.range(fmt == 2 ? 1 : 0, 4); Node n; n.buf.resize(sizeof(node_record_t) + k * sizeof(process_in_node_record_t)); auto *r = n.r(); r->node_id = i + c.range(0, 3) * 10; r->nelems = k; r->avg_useful_time = tm(); r->avg_mpi_time = tm(); r->max_useful_time = tm(); r->max_mpi_time = tm(); for (int q = 0; q < k; ++q) r->processes[q] = {(pid_t)c.range(1, 4000000), tm(), tm()}; talp_output_record_node(r); R.nodes.push_back(n); ++recs; }
        std::vector<std::pair<int, int>> order;
        for (int i = 0; i < nr; ++i) { Region g; g.name = clean(name()).substr(0, 127); if (!rn.insert(g.name).second) continue; int k = c.range(1, 4); for (int q = 0; q < k; ++q) { process_record_t p; memset(&p, 0, sizeof p); p.rank = q; p.pid = c.range(1, 4000000); p.node_id = c.range(0, 50); snprintf(p.hostname, sizeof p.hostname, "%s", c.oneof<const char *>({"node01", "localhost", "s01r1b01.bsc.es"})); cpu_set_t mk; CPU_ZERO(&mk); int nc = c.range(1, 12); for (int z = 0; z < nc; ++z) CPU_SET(c.range(0, 200), &mk); mu_testing_set_sys_size(256); snprintf(p.cpuset, sizeof p.cpuset, "%s", mu_to_str(&mk)); mu_get_quoted_mask(&mk, p.cpuset_quoted, sizeof p.cpuset_quoted);
                auto &m = p.monitor; m.num_cpus = c.range(0, 1000); m.avg_cpus = c.range(0, 10000) / 10.0f; m.cycles = tm(); m.instructions = tm(); if (c.chance(1, 10)) m.cycles = -m.cycles; if (c.chance(1, 10)) m.instructions = -m.instructions; m.num_measurements = c.range(0, INT_MAX); m.num_resets = c.range(0, INT_MAX); m.num_mpi_calls = tm(); m.num_omp_parallels = tm(); m.num_omp_tasks = tm(); m.elapsed_time = tm(); m.useful_time = tm(); m.mpi_time = tm(); m.omp_load_imbalance_time = tm(); m.omp_scheduling_time = tm(); m.omp_serialization_time = tm(); g.ranks.push_back(p); order.push_back({(int)R.regs.size(), q}); ++recs; }
            R.regs.push_back(g); }
        // ranks arrive in any order, but a region is created by its first one
        bool shuf = c.flip(); if (shuf) for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[c.draw(i)]);
        std::vector<Region> asrec; std::set<int> seen; for (auto &o : order) { if (seen.insert(o.first).second) asrec.push_back(R.regs[o.first]); auto &g = R.regs[o.first]; talp_output_record_process(g.name.c_str(), &g.ranks[o.second], g.ranks.size()); } R.regs = asrec;
        for (auto &g : R.regs) for (auto &p : g.ranks) { p.monitor.cycles = std::max<i64>(0, p.monitor.cycles); p.monitor.instructions = std::max<i64>(0, p.monitor.instructions); }
        if (c.flip()) { R.res = true; R.rc = c.range(0, 100000); R.rn = c.range(0, 1000); R.rm = c.range(0, 100000); talp_output_record_resources(R.rc, R.rn, R.rm); }
        bool empty = R.pops.empty() && R.nodes.empty() && R.regs.empty(); bool existed = access(f.c_str(), F_OK) == 0;
        c.note("round %d: format %d, %zu regions, %zu nodes, %zu process regions", rd, fmt, R.pops.size(), R.nodes.size(), R.regs.size()); for (auto &m : R.pops) c.note(" application region '%s'", m.name); for (auto &r : R.regs) c.note(" process region '%s', %zu ranks", r.name.c_str(), r.ranks.size());
        locale_t before = uselocale((locale_t)0); S printed; int sv = -1;
        S errf = c.scratch + "/err.txt"; fflush(stderr); sv = dup(2); int ef = open(errf.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600); dup2(ef, 2); close(ef);
        talp_output_finalize(fmt == 4 ? NULL : f.c_str());
        fflush(stderr); dup2(sv, 2); close(sv); printed = json::slurp(errf);
        PCHECK(c, uselocale((locale_t)0) == before, "the locale of the thread was changed"); { char b[16]; snprintf(b, sizeof b, "%.1f", 0.5); PCHECK(c, strcmp(b, comma ? "0,5" : "0.5") == 0, "the locale of the thread was changed: %s", b); }
        struct CLoc { locale_t old, cl; CLoc() : cl(newlocale(LC_ALL_MASK, "C", 0)) { old = uselocale(cl); } ~CLoc() { uselocale(old); freelocale(cl); } } cloc;    // the checks below parse numbers
        if (fmt == 4) { check_txt(c, R, printed, true); continue; }
        bool ok; S t = json::slurp(f, &ok);
        if (fmt != 2) { if (empty) { PCHECK(c, ok == existed, "a file was written without records"); continue; } PCHECK(c, ok, "no output file"); if (fmt == 0) check_json(c, R, t); else if (fmt == 1) check_xml(c, R, t); else check_txt(c, R, t, false); continue; }
        // CSV files grow
        if (empty) continue; int kinds = !R.pops.empty() + !R.nodes.empty() + !R.regs.empty();
        for (auto &x : R.pops) csvp.push_back(x); for (auto &x : R.nodes) csvn.push_back(x); for (auto &x : R.regs) csvr.push_back(x);
        S base = f.substr(0, f.size() - 4);
        try { if (kinds == 1) { auto rows = csv(t); if (!R.pops.empty()) check_csv_pop(c, csvp, rows); else if (!R.nodes.empty()) check_csv_node(c, csvn, rows); else check_csv_proc(c, csvr, rows); }
            else { PCHECK(c, ok == existed, "both a single and several CSV files"); if (!R.pops.empty()) check_csv_pop(c, csvp, csv(json::slurp(base + "-pop.csv"))); if (!R.nodes.empty()) check_csv_node(c, csvn, csv(json::slurp(base + "-node.csv"))); if (!R.regs.empty()) check_csv_proc(c, csvr, csv(json::slurp(base + "-process.csv"))); } }
        catch (S &e) { c.fail("CSV: %s", e.c_str()); } catch (std::out_of_range &) { c.fail("CSV file is empty"); }
        // a later round must have the same kinds, or the files would be of another shape
        if (rd + 1 < rounds && (R.pops.empty() != csvp.empty() || R.nodes.empty() != csvn.empty() || R.regs.empty() != csvr.empty())) break;
    }
    static const char *fn[] = {"json", "xml", "csv", "text file", "stderr"}; c.label("%s", fn[fmt]); if (own) { uselocale(LC_GLOBAL_LOCALE); }
    if (recs >= 2) c.nontrivial(); c.count(recs);
}
int main(int argc, char **argv) {
    char d[] = "/tmp/vloc.XXXXXX"; if (mkdtemp(d)) { S cmd = S("localedef -i de_DE -f UTF-8 ") + d + "/de_DE.UTF-8 >/dev/null 2>&1"; setenv("LOCPATH", d, 1); if (system(cmd.c_str()) == 0 && access((S(d) + "/de_DE.UTF-8/LC_NUMERIC").c_str(), F_OK) == 0) locdir = d; else unsetenv("LOCPATH"); }
    pbt::Options o; o.property = "C19"; o.quick_cases = 12000; o.thorough_cases = 400000; o.quick_cap_s = 60; o.case_timeout = 20;
    int r = pbt::run(argc, argv, o, one);
    if (system((S("rm -rf ") + d).c_str())) { } return r;
}
