// C33: what TALP reports about an MPI application: ranks are real processes, MPI is a mock in which ranks live on simulated nodes.
#include "rpc.hpp"
#include "json.hpp"
#include "mpi_mock.hpp"
#include <setjmp.h>
#include <sys/mman.h>
#include <thread>
#include <atomic>
extern "C" {
#include <mpi.h>
#include "apis/dlb.h"
#include "apis/dlb_talp.h"
#include "LB_core/spd.h"
#include "support/mask_utils.h"
int __real_clock_gettime(clockid_t, struct timespec *);
}
using pbt::Ctx; using rpc::Msg; typedef int64_t i64; typedef std::string S;
enum { MAXR = 7, MAXC = 40, BUF = 24576 };
struct Slot { std::atomic<int> arrived, left; char tag[MAXR][24]; int len[MAXR]; char data[MAXR][BUF]; };
struct Shm { std::atomic<int> next, failed; std::atomic<i64> now; int node[MAXR], R; Slot s[MAXC]; };
static Shm *G;
extern "C" int __wrap_clock_gettime(clockid_t id, struct timespec *ts) {
    if (!G || (id != CLOCK_MONOTONIC && id != CLOCK_MONOTONIC_COARSE && id != CLOCK_MONOTONIC_RAW)) return __real_clock_gettime(id, ts);
    i64 n = G->now.load(); ts->tv_sec = n / 1000000000; ts->tv_nsec = n % 1000000000; return 0;
}
namespace {
int me; char bad[500]; jmp_buf out; thread_local bool app; unsigned order; bool started;
struct Comm { int id; std::vector<int> w; int rank; int round = 0; int collectives = 0; };                              // w: world ranks
struct Type { std::vector<std::pair<long, long>> m; long extent; bool committed = false, freed = false; };
struct Op { MPI_User_function *f; bool freed = false; };
std::map<long, Comm *> comms; std::map<long, Type *> types; std::map<long, Op *> ops; std::map<S, int> idx;
int rnd(int k) { order = order * 1664525u + 1013904223u; return (int)((order >> 10) % k); }
[[noreturn]] void die(const char *f, ...) { va_list a; va_start(a, f); vsnprintf(bad, sizeof bad, f, a); va_end(a); G->failed = 1; longjmp(out, 1); }
double wall() { struct timespec t; __real_clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
void until(std::atomic<int> &a, int v, const char *what) { double t0 = wall(); while (a.load() < v) { if (G->failed) die("abandoned in %s", what); if (wall() - t0 > 20) die("%s: the other ranks do not take part", what); usleep(20); } }
std::vector<S> exchange(Comm *c, const char *tag, const S &d) {
    Slot &s = G->s[c->id]; int n = c->w.size(); if (d.size() > BUF) die("%s: message of %zu bytes", tag, d.size());
    until(s.left, n * c->round, tag); snprintf(s.tag[c->rank], 24, "%s", tag); s.len[c->rank] = d.size(); memcpy(s.data[c->rank], d.data(), d.size()); ++s.arrived; ++c->round; until(s.arrived, n * c->round, tag);
    std::vector<S> r; for (int i = 0; i < n; ++i) { if (strcmp(s.tag[i], tag)) { char t[24]; memcpy(t, s.tag[i], 24); die("rank %d calls %s while rank %d calls %s on the same communicator", c->w[c->rank], tag, c->w[i], t); } r.emplace_back(s.data[i], s.len[i]); } ++s.left; return r;
}
Comm *comm(long h, const char *w) { auto i = comms.find(h); if (i == comms.end()) die("%s on an invalid communicator", w); return i->second; }
Type *type(long h, const char *w, bool use = true) { auto i = types.find(h); if (i == types.end() || i->second->freed) die("%s with an invalid datatype", w); if (use && !i->second->committed) die("%s with a datatype that is not committed", w); return i->second; }
long add(Type *t) { types[(long)t] = t; return (long)t; }
S pack(const void *b, long n, Type *t) { S s; for (long i = 0; i < n; ++i) for (auto &m : t->m) s.append((const char *)b + i * t->extent + m.first, m.second); return s; }
void unpack(void *b, const S &s, long n, Type *t, const char *w, int from) { size_t need = 0; for (auto &m : t->m) need += m.second; need *= n; if (need != s.size()) die("%s: rank %d of the communicator sends %zu bytes, %zu are expected", w, from, s.size(), need); size_t p = 0; for (long i = 0; i < n; ++i) for (auto &m : t->m) { memcpy((char *)b + i * t->extent + m.first, s.data() + p, m.second); p += m.second; } }
long newcomm(Comm *c, const char *tag, int color, int key) { // order by key, then rank
    int base = 0; if (c->rank == 0) base = G->next.fetch_add(c->w.size()); int v[4] = {color, key, c->w[c->rank], base}; auto a = exchange(c, tag, S((char *)v, sizeof v)); std::vector<std::array<int, 4>> x; for (auto &s : a) { std::array<int, 4> y; memcpy(y.data(), s.data(), sizeof v); x.push_back(y); } base = x[0][3];
    std::set<int> cols; for (auto &y : x) cols.insert(y[0]); std::vector<std::array<int, 2>> g; for (size_t i = 0; i < x.size(); ++i) if (x[i][0] == color) g.push_back({x[i][1], (int)i}); std::sort(g.begin(), g.end());
    if (color == MPI_UNDEFINED) return (long)MPI_COMM_NULL; Comm *n = new Comm; n->id = base + std::distance(cols.begin(), cols.find(color)); if (n->id >= MAXC) die("too many communicators"); for (auto &y : g) { if (x[y[1]][2] == c->w[c->rank]) n->rank = n->w.size(); n->w.push_back(x[y[1]][2]); } comms[(long)n] = n; return (long)n;
}
void reduce(const char *w, void *sb, void *rb, long n, long ty, long op, int root, Comm *c) {
    Type *t = type(ty, w); auto o = ops.find(op); if (o == ops.end() || o->second->freed) die("%s with an invalid operation", w); auto a = exchange(c, w, pack(sb, n, t) + S((char *)&order, 4)); unsigned sh; memcpy(&sh, a[0].data() + a[0].size() - 4, 4); unsigned keep = order; order = sh;
    std::vector<std::vector<char>> v; for (size_t i = 0; i < a.size(); ++i) { std::vector<char> b(n * t->extent, (char)0xa5); unpack(b.data(), a[i].substr(0, a[i].size() - 4), n, t, w, i); v.push_back(b); }
    int len = n; MPI_Datatype dt = (MPI_Datatype)ty; while (v.size() > 1) { int i = rnd(v.size()), j = rnd(v.size() - 1); if (j >= i) ++j; o->second->f(v[i].data(), v[j].data(), &len, &dt); v.erase(v.begin() + i); } // the operation is said to commute: any order
    order = keep; rnd(2); if (root < 0 || c->rank == root) unpack(rb, pack(v[0].data(), n, t), n, t, w, 0);
}
}
extern "C" int mock_call(int i, int n, long *a, long *r) {
    const char *w = mock_rows[i].name; S name = w; *r = 0; if (app || name == "Init" || name == "Init_thread" || name == "Finalize") return 0;
    if (name == "Comm_dup") *(long *)a[1] = newcomm(comm(a[0], w), w, 0, comm(a[0], w)->rank); else if (name == "Comm_rank") *(int *)a[1] = comm(a[0], w)->rank; else if (name == "Comm_size") *(int *)a[1] = comm(a[0], w)->w.size();
    else if (name == "Comm_split") *(long *)a[3] = newcomm(comm(a[0], w), w, (int)a[1], (int)a[2]); else if (name == "Comm_split_type") { if ((int)a[1] != MPI_COMM_TYPE_SHARED) die("Comm_split_type %d", (int)a[1]); *(long *)a[4] = newcomm(comm(a[0], w), w, G->node[me], (int)a[2]); }
    else if (name == "Comm_free") { comm(*(long *)a[0], w); comms.erase(*(long *)a[0]); *(long *)a[0] = (long)MPI_COMM_NULL; }
    else if (name == "Get_library_version") { strcpy((char *)a[0], "mock"); *(int *)a[1] = 4; }
    else if (name == "Type_match_size") *(long *)a[2] = (int)a[1] == 4 ? (long)MPI_INT32_T : (long)MPI_INT64_T;
    else if (name == "Type_create_struct") { Type *t = new Type; long hi = 0; int *bl = (int *)a[1]; long *d = (long *)a[2], *ty = (long *)a[3]; for (int k = 0; k < (int)a[0]; ++k) { Type *e = type(ty[k], w, false); for (int b = 0; b < bl[k]; ++b) { for (auto &m : e->m) t->m.push_back({d[k] + b * e->extent + m.first, m.second}); hi = std::max(hi, d[k] + (b + 1) * e->extent); } } t->extent = hi; *(long *)a[4] = add(t); }
    else if (name == "Type_create_resized") { Type *t = new Type(*type(a[0], w, false)); if (a[1]) die("Type_create_resized: lower bound %ld", a[1]); t->extent = a[2]; t->committed = false; *(long *)a[3] = add(t); }
    else if (name == "Type_commit") type(*(long *)a[0], w, false)->committed = true; else if (name == "Type_free") { type(*(long *)a[0], w, false)->freed = true; *(long *)a[0] = (long)MPI_DATATYPE_NULL; }
    else if (name == "Op_create") { Op *o = new Op{(MPI_User_function *)a[0]}; if (!(int)a[1]) die("operation that does not commute"); ops[(long)o] = o; *(long *)a[2] = (long)o; } else if (name == "Op_free") { auto o = ops.find(*(long *)a[0]); if (o == ops.end() || o->second->freed) die("Op_free of an invalid operation"); o->second->freed = true; *(long *)a[0] = (long)MPI_OP_NULL; }
    else if (name == "Reduce") reduce(w, (void *)a[0], (void *)a[1], (int)a[2], a[3], a[4], (int)a[5], comm(a[6], w)); else if (name == "Allreduce") reduce(w, (void *)a[0], (void *)a[1], (int)a[2], a[3], a[4], -1, comm(a[5], w));
    else if (name == "Gather" || name == "Allgather") { bool all = name == "Allgather"; Comm *c = comm(a[all ? 6 : 7], w); auto x = exchange(c, w, pack((void *)a[0], (int)a[1], type(a[2], w))); if (all || c->rank == (int)a[6]) { Type *t = type(a[5], w); for (size_t k = 0; k < x.size(); ++k) unpack((char *)a[3] + k * (int)a[4] * t->extent, x[k], (int)a[4], t, w, k); } }
    else if (name == "Gatherv" || name == "Allgatherv") { bool all = name == "Allgatherv"; Comm *c = comm(a[all ? 7 : 8], w); auto x = exchange(c, w, pack((void *)a[0], (int)a[1], type(a[2], w))); if (all || c->rank == (int)a[7]) { Type *t = type(a[6], w); for (size_t k = 0; k < x.size(); ++k) unpack((char *)a[3] + ((int *)a[5])[k] * t->extent, x[k], ((int *)a[4])[k], t, w, k); } }
    else if (name == "Bcast") { Comm *c = comm(a[4], w); Type *t = type(a[2], w); auto x = exchange(c, w, c->rank == (int)a[3] ? pack((void *)a[0], (int)a[1], t) : S()); if (c->rank != (int)a[3]) unpack((void *)a[0], x[(int)a[3]], (int)a[1], t, w, (int)a[3]); }
    else if (name == "Scatter") { Comm *c = comm(a[7], w); S all; if (c->rank == (int)a[6]) all = pack((void *)a[0], (long)(int)a[1] * c->w.size(), type(a[2], w)); auto x = exchange(c, w, all); size_t l = x[(int)a[6]].size() / c->w.size(); unpack((void *)a[3], x[(int)a[6]].substr(l * c->rank, l), (int)a[4], type(a[5], w), w, (int)a[6]); }
    else if (name == "Barrier") exchange(comm(a[0], w), w, ""); else die("DLB calls PMPI_%s, which the mock does not know", w);
    return 0;
}
extern "C" void mock_fcall(int i, long *) { die("pmpi_%s is called", mock_rows[i].name); }
enum { INIT = 1, DINIT, REG, START, STOP, CALL, THREAD, SNAP, COLLECT, MFIN, DFIN };
static std::vector<dlb_monitor_t *> regs; static std::vector<S> names; static i64 mymask;
static void dump(Msg &r, bool update) {
    if (update) DLB_MonitoringRegionsUpdate(); for (size_t i = 0; i < regs.size(); ++i) { dlb_monitor_t *d = regs[i]; r.s += names[i] + "\n"; for (i64 x : {(i64)d->num_cpus, (i64)llround(d->avg_cpus * 1000), d->cycles, d->instructions, (i64)d->num_measurements, (i64)d->num_resets, d->num_mpi_calls, d->num_omp_parallels, d->num_omp_tasks, d->elapsed_time, d->useful_time, d->mpi_time, d->omp_load_imbalance_time, d->omp_scheduling_time, d->omp_serialization_time}) r.v.push_back(x); }
}
enum { NCPU, AVG, CYC, INS, MEAS, RES, MPIC, PAR, TASK, ELA, USE, MPIT, LB, SCH, SER, NF };
static Msg handle(const Msg &m) {
    Msg r; int e = 0; i64 a = m.v.empty() ? 0 : m.v[0]; static long zero[24]; auto mpi = [&](const char *n, bool ap) { long v[24]; for (int i = 0; i < 24; ++i) v[i] = (long)zero; app = ap; int q = (int)call24(mock_rows[idx[n]].f[F_C], v); app = false; return q; };
    if (!setjmp(out)) switch (m.op) {
        case DINIT: { cpu_set_t s; CPU_ZERO(&s); for (int i = 0; i < 64; ++i) if (mymask >> i & 1) CPU_SET(i, &s); e = DLB_Init(CPU_COUNT(&s), &s, m.s.c_str()); break; }
        case INIT: { order = a; setenv("DLB_ARGS", m.s.c_str(), 1); for (int i = 0; i < mock_nrows; ++i) idx[mock_rows[i].name] = i; Comm *w = new Comm; w->id = 0; w->rank = me; for (int i = 0; i < G->R; ++i) w->w.push_back(i); comms[(long)MPI_COMM_WORLD] = w;
            for (auto &p : std::vector<std::pair<long, int>>{{(long)MPI_INT, 4}, {(long)MPI_CHAR, 1}, {(long)MPI_FLOAT, 4}, {(long)MPI_DOUBLE, 8}, {(long)MPI_C_BOOL, 1}, {(long)MPI_INT64_T, 8}, {(long)MPI_INT32_T, 4}}) { Type *t = new Type; t->m = {{0, p.second}}; t->extent = p.second; t->committed = true; types[p.first] = t; }
            ops[(long)MPI_MAX] = new Op{[](void *a, void *b, int *n, MPI_Datatype *t) { for (int i = 0; i < *n; ++i) if (*t == MPI_INT) ((int *)b)[i] = std::max(((int *)a)[i], ((int *)b)[i]); else if (*t == MPI_INT64_T) ((i64 *)b)[i] = std::max(((i64 *)a)[i], ((i64 *)b)[i]); else if (*t == MPI_DOUBLE) ((double *)b)[i] = std::max(((double *)a)[i], ((double *)b)[i]); else die("maximum of an unexpected type"); }};
            ops[(long)MPI_SUM] = new Op{[](void *a, void *b, int *n, MPI_Datatype *t) { for (int i = 0; i < *n; ++i) if (*t == MPI_INT) ((int *)b)[i] += ((int *)a)[i]; else if (*t == MPI_INT64_T) ((i64 *)b)[i] += ((i64 *)a)[i]; else if (*t == MPI_DOUBLE) ((double *)b)[i] += ((double *)a)[i]; else die("sum of an unexpected type"); }};
            e = mpi("Init", false); dlb_monitor_t *g = (dlb_monitor_t *)DLB_MonitoringRegionGetGlobal(); if (!g) { snprintf(bad, sizeof bad, "there is no global region"); break; } regs.push_back(g); names.push_back(g->name); started = true; break; }
        case REG: { dlb_monitor_t *d = DLB_MonitoringRegionRegister(m.s.c_str()); for (size_t i = 0; i < regs.size(); ++i) if (regs[i] == d) { r.v = {(i64)i}; return r; } regs.push_back(d); names.push_back(m.s); r.v = {(i64)regs.size() - 1}; return r; }
        case START: e = DLB_MonitoringRegionStart(regs[a]); break; case STOP: e = DLB_MonitoringRegionStop(regs[a]); break;
        case CALL: e = mpi(m.s.c_str(), true); break; case THREAD: { std::thread t([&] { mpi(m.s.c_str(), true); }); t.join(); break; }
        case SNAP: dump(r, true); return r;
        case COLLECT: { dlb_pop_metrics_t p; memset(&p, 0x5a, sizeof p); e = DLB_TALP_CollectPOPMetrics(a < 0 ? nullptr : regs[a], &p); r.v = {e}; dump(r, false); p.name[DLB_MONITOR_NAME_MAX - 1] = 0; r.s += S("\x01") + p.name + "\n"; for (i64 x : {(i64)p.num_cpus, (i64)p.num_mpi_ranks, (i64)p.num_nodes, (i64)llround(p.avg_cpus * 1000), (i64)llround(p.cycles), (i64)llround(p.instructions), p.num_measurements, p.num_mpi_calls, p.num_omp_parallels, p.num_omp_tasks, p.elapsed_time, p.useful_time, p.mpi_time, p.omp_load_imbalance_time, p.omp_scheduling_time, p.omp_serialization_time}) r.v.push_back(x);
            for (double x : {p.useful_normd_app, p.mpi_normd_app, p.max_useful_normd_proc, p.max_useful_normd_node, p.mpi_normd_of_max_useful, (double)p.parallel_efficiency, (double)p.mpi_load_balance}) { i64 b; memcpy(&b, &x, 8); r.v.push_back(b); } return r; }
        case MFIN: e = mpi("Finalize", false); break; case DFIN: e = DLB_Finalize(); break;
    }
    r.v = {e}; if (bad[0]) r.s = S("!") + bad; return r;
}
typedef std::vector<i64> Row; struct Rank { std::map<S, int> ix; std::map<S, bool> open; std::map<S, i64> calls; std::map<S, Row> d; std::vector<S> stack; };
struct Want { i64 sum[NF]; i64 nodes = 0; double nproc = 0, nnode = 0; std::set<double> mpimax; };
static bool near(double a, double b, double abs_) { return std::isfinite(a) && fabs(a - b) <= abs_ + 1e-9 * fabs(b); }
static void one(Ctx &c) {
    G = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); int R = c.weighted({1, 3, 3, 3, 2, 2}) + 1, nn = c.range(1, std::min(R, 4)); G->R = R; G->next = 1; i64 now = c.oneof<i64>({1000, 1000000, 5000000000ll}); G->now = now;
    std::vector<int> node(R); for (int i = 0; i < R; ++i) G->node[i] = node[i] = c.range(0, nn - 1); bool blocks = c.flip(); if (blocks) { std::sort(node.begin(), node.end()); for (int i = 0; i < R; ++i) G->node[i] = node[i]; } std::map<int, int> nid; std::map<int, std::vector<int>> byn; for (int i = 0; i < R; ++i) { if (!nid.count(node[i])) { int k = nid.size(); nid[node[i]] = k; } byn[nid[node[i]]].push_back(i); } bool uneven = false; for (auto &n : byn) uneven |= n.second.size() != byn[0].size();
    int n = c.range(R, 12); mu_testing_set_sys_size(n); unsetenv("DLB_ARGS"); bool user = c.flip(), pre = user && c.chance(1, 3); int sum = c.weighted({2, 1, 1, 1, 1, 3, 1}); static const char *sums[] = {"pop-metrics", "node", "process", "none", "node:process", "pop-metrics:node:process", "pop-metrics:process"}; S so = sums[sum]; bool ext = c.chance(1, 4); S outf = c.scratch + "/out.json"; bool hasout = c.chance(5, 6);
    S base = S("--quiet=yes --talp --talp-summary=") + so + (ext ? " --talp-external-profiler" : "") + (hasout ? " --talp-output-file=" + outf : ""); c.note("%d ranks on %zu nodes, %s, DLB initialised by %s", R, byn.size(), base.c_str(), user ? pre ? "the program, finalised before MPI" : "the program" : "MPI_Init");
    std::vector<i64> mask(R); for (auto &nd : byn) for (int k = 0; k < n; ++k) { auto &v = nd.second; int t = k < (int)v.size() ? k : c.range(0, v.size()); if (t < (int)v.size()) mask[v[t]] |= 1ll << k; }
    rpc::Pool P(c); for (int i = 0; i < R; ++i) { c.note("rank %d: node %d, CPUs %#llx", i, nid[node[i]], (long long)mask[i]); i64 mk = mask[i]; P.spawn([=](int) { me = i; mymask = mk; return [](const Msg &m) { return handle(m); }; }); }
    auto chk = [&](const Msg &r, int i, const char *w) { PCHECK(c, r.s.empty() || r.s[0] != '!', "%s on rank %d: %s", w, i, r.s.c_str() + 1); };
    auto all = [&](const char *w, int op, std::function<Msg(int)> f) { for (int i = 0; i < R; ++i) P.post(i, f(i)); std::vector<Msg> v; for (int i = 0; i < R; ++i) v.push_back(P.wait(i, 40)); for (int i = 0; i < R; ++i) if (!v[i].s.empty() && v[i].s[0] == '!' && v[i].s.find("abandoned") == S::npos) chk(v[i], i, w); for (int i = 0; i < R; ++i) chk(v[i], i, w); (void)op; return v; };
    auto args = [&](int i) { return "--shm-key=" + c.key + (char)('a' + nid[node[i]]) + " " + base; };
    if (user) { auto v = all("DLB_Init", DINIT, [&](int i) { return Msg(DINIT, {}, args(i)); }); for (auto &r : v) PCHECK(c, r.v[0] == 0, "DLB_Init returned %ld", (long)r.v[0]); }
    { auto v = all("MPI_Init", INIT, [&](int i) { return Msg(INIT, {(i64)c.draw(1u << 31)}, user ? S("") : args(i)); }); for (auto &r : v) PCHECK(c, r.v[0] == 0, "MPI_Init returned %ld", (long)r.v[0]); }
    S GN = "Global"; std::vector<Rank> K(R); for (auto &k : K) { k.ix[GN] = 0; k.open[GN] = true; k.calls[GN] = 1; }
    auto parse = [&](const Msg &r, size_t at) { std::map<S, Row> d; size_t p = 0; while (p < r.s.size() && r.s[p] != '\x01') { size_t q = r.s.find('\n', p); d[r.s.substr(p, q - p)] = Row(r.v.begin() + at, r.v.begin() + at + NF); at += NF; p = q + 1; } return d; };
    auto agg = [&](const S &g) { Want w; memset(w.sum, 0, sizeof w.sum); for (int i = 0; i < R; ++i) { auto it = K[i].d.find(g); if (it == K[i].d.end()) { w.sum[AVG] += 1000 * (user ? __builtin_popcountll(mask[i]) : 0); continue; } auto &x = it->second; for (int f = 0; f < NF; ++f) w.sum[f] = f == ELA ? std::max(w.sum[f], x[f]) : w.sum[f] + x[f]; if (x[NCPU]) { double u = (double)x[USE] / x[NCPU], m = (double)x[MPIT] / x[NCPU]; if (u > w.nproc) { w.nproc = u; w.mpimax.clear(); } if (u == w.nproc && u > 0) w.mpimax.insert(m); } } if (w.mpimax.empty()) w.mpimax.insert(0);
        for (auto &nd : byn) { i64 u = 0, k = 0; bool used = false; for (int i : nd.second) { auto it = K[i].d.find(g); if (it != K[i].d.end()) { u += it->second[USE]; k += it->second[NCPU]; used |= it->second[MEAS] > 0; } } if (used) ++w.nodes; if (k) w.nnode = std::max(w.nnode, (double)u / k); } return w; };
    static const char *calls[] = {"Barrier", "Allreduce", "Send", "Recv", "Isend", "Comm_rank", "Wait"}; auto pool = [&] { return S(c.oneof<const char *>({"a", "b", "loop 1", "Z", "init"})); };
    auto checkcalls = [&](int i, const char *w) { for (auto &x : K[i].d) PCHECK(c, x.second[MPIC] == K[i].calls[x.first], "%s: region %s of rank %d has %ld MPI calls, the program made %ld in it", w, x.first.c_str(), i, (long)x.second[MPIC], (long)K[i].calls[x.first]); };
    int steps = c.len(0, 60), collects = 0, ncalls = 0; for (int st = 0; st < steps; ++st) {
        int i = c.range(0, R - 1); Rank &k = K[i]; if (c.chance(2, 3)) { now += c.oneof<i64>({1, 2, 3, 7, 100, 12345, 1000000}); G->now = now; }
        int op = c.weighted({3, 4, 4, 6, 1, 2, 2}); switch (op) {
            case 0: { S g = pool(); auto r = P.call(i, Msg(REG, {}, g)); chk(r, i, "Register"); if (!k.ix.count(g)) { PCHECK(c, r.v[0] == (i64)k.ix.size(), "region registered with a handle in use"); k.ix[g] = r.v[0]; } break; }
            case 1: case 2: { auto it = k.ix.begin(); std::advance(it, c.range(0, k.ix.size() - 1)); S g = it->first; bool sta = op == 1; auto r = P.call(i, Msg(sta ? START : STOP, {it->second})); int want = k.open[g] != sta ? 0 : DLB_NOUPDT; PCHECK(c, r.v[0] == want, "%s of %s on rank %d returned %ld", sta ? "start" : "stop", g.c_str(), i, (long)r.v[0]); k.open[g] = sta; c.note("rank %d %s %s", i, sta ? "starts" : "stops", g.c_str()); break; }
            case 3: case 4: { const char *n = calls[c.range(0, 6)]; if (op == 3 && c.chance(1, 2)) { for (int j = 0; j < R; ++j) { auto r = P.call(j, Msg(CALL, {}, n)); for (auto &o : K[j].open) if (o.second) ++K[j].calls[o.first]; } c.note("all call MPI_%s", n); } else { auto r = P.call(i, Msg(op == 3 ? CALL : THREAD, {}, n)); for (auto &o : k.open) if (o.second) ++k.calls[o.first]; c.note("rank %d calls MPI_%s%s", i, n, op == 4 ? " in another thread" : ""); } ++ncalls; break; }
            case 5: { auto r = P.call(i, Msg(SNAP)); k.d = parse(r, 0); checkcalls(i, "update"); break; }
            case 6: { std::vector<S> cand = {GN}; for (auto &x : K[0].ix) { bool a = true; for (auto &q : K) a &= q.ix.count(x.first); if (a) cand.push_back(x.first); } S g = cand[c.range(0, cand.size() - 1)]; bool null = g == GN && c.flip(); c.note("DLB_TALP_CollectPOPMetrics(%s)", g.c_str()); auto v = all("CollectPOPMetrics", COLLECT, [&](int j) { return Msg(COLLECT, {null ? -1 : K[j].ix[g]}); }); ++collects; std::vector<std::vector<i64>> got; S nm;
                for (int j = 0; j < R; ++j) { PCHECK(c, v[j].v[0] == 0, "CollectPOPMetrics returned %ld", (long)v[j].v[0]); K[j].d = parse(v[j], 1); got.push_back(std::vector<i64>(v[j].v.begin() + 1 + NF * K[j].ix.size(), v[j].v.end())); size_t p = v[j].s.find('\x01'); PCHECK(c, p != S::npos && v[j].s.substr(p + 1) == g + "\n", "metrics of another region"); PCHECK(c, got[j] == got[0], "rank %d collects other metrics than rank 0", j); }
                Want w = agg(g); auto &q = got[0]; i64 wi[] = {w.sum[NCPU], R, w.nodes, w.sum[AVG], w.sum[CYC], w.sum[INS], w.sum[MEAS], w.sum[MPIC], w.sum[PAR], w.sum[TASK], w.sum[ELA], w.sum[USE], w.sum[MPIT], w.sum[LB], w.sum[SCH], w.sum[SER]}; static const char *fn[] = {"num_cpus", "num_mpi_ranks", "num_nodes", "avg_cpus", "cycles", "instructions", "num_measurements", "num_mpi_calls", "num_omp_parallels", "num_omp_tasks", "elapsed_time", "useful_time", "mpi_time", "omp_load_imbalance_time", "omp_scheduling_time", "omp_serialization_time"};
                for (int f = 0; f < 16; ++f) PCHECK(c, q[f] == wi[f], "collected %s of %s is %ld, the ranks add up to %ld", fn[f], g.c_str(), (long)q[f], (long)wi[f]); double x[7]; memcpy(x, &q[16], sizeof x); double cp = std::max<i64>(1, w.sum[NCPU]);
                PCHECK(c, near(x[0], w.sum[USE] / cp, 1e-6) && near(x[1], w.sum[MPIT] / cp, 1e-6), "collected useful_normd_app %g mpi_normd_app %g, expected %g %g", x[0], x[1], w.sum[USE] / cp, w.sum[MPIT] / cp); PCHECK(c, near(x[2], w.nproc, 1e-6), "collected max_useful_normd_proc %.9g, expected %.9g", x[2], w.nproc); PCHECK(c, near(x[3], w.nnode, 1e-6), "collected max_useful_normd_node %.9g, expected %.9g", x[3], w.nnode);
                bool ok = false; for (double m : w.mpimax) ok |= near(x[4], m, 1e-6); PCHECK(c, ok, "collected mpi_normd_of_max_useful %.9g, expected %.9g", x[4], *w.mpimax.begin()); c.count(20); for (int j = 0; j < R; ++j) { Row x = K[j].d[g]; K[j].d.clear(); K[j].d[g] = x; checkcalls(j, "collect"); } break; } } }
    // all regions but the global one are closed before MPI finishes
    for (int i = 0; i < R; ++i) for (auto &x : K[i].ix) if (x.first != GN && K[i].open[x.first]) { P.call(i, Msg(STOP, {x.second})); K[i].open[x.first] = false; }
    for (int i = 0; i < R; ++i) { auto r = P.call(i, Msg(SNAP)); K[i].d = parse(r, 0); checkcalls(i, "end"); auto &g = K[i].d[GN]; if (K[i].open[GN]) { ++g[MEAS]; ++g[MPIC]; } }
    // elapsed time of the global region: the open interval is closed by MPI_Finalize, read again from the last stop if possible
    std::vector<i64> e0; for (int i = 0; i < R; ++i) { if (!K[i].open[GN]) { P.call(i, Msg(START, {0})); } auto r = P.call(i, Msg(STOP, {0})); PCHECK(c, r.v[0] == 0, "stop of the global region returned %ld", (long)r.v[0]); auto d = parse(P.call(i, Msg(SNAP)), 0); K[i].d[GN] = d[GN]; K[i].open[GN] = false; } if (c.flip()) for (int i = 0; i < R; ++i) { P.call(i, Msg(START, {0})); K[i].open[GN] = true; }
    for (int i = 0; i < R; ++i) if (K[i].open[GN]) { ++K[i].d[GN][MEAS]; ++K[i].d[GN][MPIC]; }
    bool pm = so.find("pop") != S::npos, pn = so.find("node") != S::npos, pp = so.find("process") != S::npos;
    if (pre) all("DLB_Finalize", DFIN, [&](int) { return Msg(DFIN); }); { auto v = all("MPI_Finalize", MFIN, [&](int) { return Msg(MFIN); }); for (auto &r : v) PCHECK(c, r.v[0] == 0, "MPI_Finalize returned %ld", (long)r.v[0]); } if (user && !pre) { auto v = all("DLB_Finalize", DFIN, [&](int) { return Msg(DFIN); }); for (auto &r : v) PCHECK(c, r.v[0] == 0, "DLB_Finalize returned %ld", (long)r.v[0]); }
    for (auto &nd : byn) for (const char *m : {"talp", "procinfo", "cpuinfo", "barrier"}) { S p = S("/dev/shm/DLB_") + m + "_" + c.key + (char)('a' + nd.first); PCHECK(c, access(p.c_str(), F_OK), "%s remains", p.c_str()); }
    bool ok; S t = json::slurp(outf, &ok); if (!hasout || !(pm || pn || pp)) { PCHECK(c, !ok, "a report was written"); } else { PCHECK(c, ok, "no report was written"); try { auto j = json::parse(t);
        std::set<S> un; for (auto &k : K) for (auto &x : k.ix) un.insert(x.first);
        if (pm) { auto &A = j["Application"]; PCHECK(c, A.o.size() == un.size(), "the report has %zu regions, the ranks registered %zu", A.o.size(), un.size()); for (auto &g : un) { Want w = agg(g); auto &m = A[g]; bool empty = w.sum[ELA] == 0; double cp = std::max<i64>(1, w.sum[NCPU]);
                if (empty) { for (const char *f : {"numCpus", "elapsedTime", "usefulTime", "mpiTime"}) PCHECK(c, m[f].i() == 0, "region %s was not used and has %s %ld", g.c_str(), f, (long)m[f].i()); continue; }
                struct { const char *f; i64 w; } q[] = {{"numCpus", w.sum[NCPU]}, {"numMpiRanks", R}, {"numNodes", w.nodes}, {"numMeasurements", w.sum[MEAS]}, {"numMpiCalls", w.sum[MPIC]}, {"numOmpParallels", w.sum[PAR]}, {"numOmpTasks", w.sum[TASK]}, {"elapsedTime", w.sum[ELA]}, {"usefulTime", w.sum[USE]}, {"mpiTime", w.sum[MPIT]}, {"ompLoadImbalanceTime", w.sum[LB]}, {"ompSchedulingTime", w.sum[SCH]}, {"ompSerializationTime", w.sum[SER]}};
                for (auto &z : q) PCHECK(c, m[z.f].i() == z.w, "report: %s of %s is %ld, the ranks add up to %ld", z.f, g.c_str(), (long)m[z.f].i(), (long)z.w);
                struct { const char *f; double w; } d[] = {{"usefulNormdApp", w.sum[USE] / cp}, {"mpiNormdApp", w.sum[MPIT] / cp}, {"maxUsefulNormdProc", w.nproc}, {"maxUsefulNormdNode", w.nnode}}; for (auto &z : d) PCHECK(c, near(m[z.f].n, z.w, 0.501), "report: %s of %s is %g, expected %g", z.f, g.c_str(), m[z.f].n, z.w); bool o = false; for (double x : w.mpimax) o |= near(m["mpiNormdOfMaxUseful"].n, x, 0.501); PCHECK(c, o, "report: mpiNormdOfMaxUseful of %s is %g, expected %g", g.c_str(), m["mpiNormdOfMaxUseful"].n, *w.mpimax.begin());
                if (user) PCHECK(c, near(m["avgCpus"].n, w.sum[AVG] / 1000.0, 0.06), "report: avgCpus of %s is %g, expected %g", g.c_str(), m["avgCpus"].n, w.sum[AVG] / 1000.0); if (g == GN) { auto &r = j["resources"]; PCHECK(c, r["numCpus"].i() == w.sum[NCPU] && r["numNodes"].i() == w.nodes && r["numMpiRanks"].i() == R, "report: resources of %ld CPUs, %ld nodes, %ld ranks", (long)r["numCpus"].i(), (long)r["numNodes"].i(), (long)r["numMpiRanks"].i()); } } }
        else PCHECK(c, !j.get("Application"), "the report has the application, which was not asked for");
        if (pn) { auto &N = j["node"]; PCHECK(c, N.a.size() == byn.size(), "the report has %zu nodes, there are %zu", N.a.size(), byn.size()); for (size_t k = 0; k < N.a.size(); ++k) { auto &x = N.a[k]; PCHECK(c, x["id"].s == std::to_string(k), "node %zu has the id %s", k, x["id"].s.c_str()); std::map<i64, std::array<i64, 2>> w, g; i64 su = 0, sm = 0, mu = 0, mm = 0; for (int i : byn[k]) { auto &d = K[i].d[GN]; w[P.p[i].pid] = {d[USE], d[MPIT]}; su += d[USE]; sm += d[MPIT]; mu = std::max(mu, d[USE]); mm = std::max(mm, d[MPIT]); } for (auto &p : x["process"].a) g[p["id"].i()] = {p["usefulTime"].i(), p["mpiTime"].i()};
                PCHECK(c, g == w && x["process"].a.size() == w.size(), "report: the processes of node %zu are wrong (%zu, expected %zu)", k, x["process"].a.size(), w.size()); i64 np = w.size(); PCHECK(c, x["nodeAvg"]["usefulTime"].i() == su / np && x["nodeAvg"]["mpiTime"].i() == sm / np && x["nodeMax"]["usefulTime"].i() == mu && x["nodeMax"]["mpiTime"].i() == mm, "report: average or maximum of node %zu", k); } }
        else PCHECK(c, !j.get("node"), "the report has the nodes, which were not asked for");
        if (pp) { auto &Q = j["Process"]; PCHECK(c, Q.o.size() == un.size(), "the report has the processes of %zu regions, the ranks registered %zu", Q.o.size(), un.size()); for (auto &g : un) { auto &L = Q[g]; PCHECK(c, (int)L.a.size() == R, "report: %zu processes of %s, there are %d ranks", L.a.size(), g.c_str(), R); for (int i = 0; i < R; ++i) { auto &x = L.a[i]; PCHECK(c, x["rank"].i() == i && x["pid"].i() == P.p[i].pid, "report: entry %d is of rank %ld, process %ld", i, (long)x["rank"].i(), (long)x["pid"].i()); PCHECK(c, x["nodeId"].i() == nid[node[i]], "report: rank %d is on node %ld, it runs on node %d", i, (long)x["nodeId"].i(), nid[node[i]]);
                    Row z(NF, 0); auto it = K[i].d.find(g); if (it != K[i].d.end()) z = it->second; struct { const char *f; int w; } q[] = {{"numCpus", NCPU}, {"cycles", CYC}, {"instructions", INS}, {"numMeasurements", MEAS}, {"numResets", RES}, {"numMpiCalls", MPIC}, {"numOmpParallels", PAR}, {"numOmpTasks", TASK}, {"elapsedTime", ELA}, {"usefulTime", USE}, {"mpiTime", MPIT}, {"ompLoadImbalanceTime", LB}, {"ompSchedulingTime", SCH}, {"ompSerializationTime", SER}}; for (auto &y : q) PCHECK(c, x[y.f].i() == z[y.w], "report: %s of %s on rank %d is %ld, expected %ld", y.f, g.c_str(), i, (long)x[y.f].i(), (long)z[y.w]);
                    if (user) { PCHECK(c, near(x["avgCpus"].n, __builtin_popcountll(mask[i]), 0.06), "report: rank %d has %g CPUs in average", i, x["avgCpus"].n); i64 mk = 0; std::stringstream cl(x["cpuset"].s); S y; while (std::getline(cl, y, ',')) { int lo = 0, hi = 0; if (sscanf(y.c_str(), "%d-%d", &lo, &hi) < 2) hi = lo; for (int k = lo; k <= hi && k < 64; ++k) mk |= 1ll << k; } PCHECK(c, mk == mask[i], "report: rank %d has the CPUs %#llx, expected %#llx", i, (long long)mk, (long long)mask[i]); char h[300] = ""; gethostname(h, 299); PCHECK(c, x["hostname"].s == h, "report: rank %d runs on %s", i, x["hostname"].s.c_str()); } } } }
        else PCHECK(c, !j.get("Process"), "the report has the processes, which were not asked for");
    } catch (S &e) { c.fail("the report is not as documented: %s", e.c_str()); } }
    c.label(uneven ? "uneven nodes" : "even nodes"); c.label("%zu nodes", byn.size()); if (R > 1 && ncalls && (collects || (hasout && sum != 3))) c.nontrivial(); munmap(G, sizeof(Shm)); G = nullptr;
}
int main(int argc, char **argv) {
    pbt::Options o; o.property = "C33"; o.rule = "several ranks, at least one MPI call and a collected or written summary"; o.quick_cases = 6000; o.thorough_cases = 200000; o.quick_cap_s = 40; o.case_timeout = 90; o.hang_is_violation = true;
    return pbt::run(argc, argv, o, one);
}
