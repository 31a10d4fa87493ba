// C01 / C02 / C03: CPU-mask LeWI called by several real processes at the same time. The library is built so that each of
// its memory accesses may be delayed (asynchronous mode: the notifications of concurrent calls may be delivered out of order,
// a known finding, so only the registry is compared); when the processes are quiet again the registry, what each process was told and what
// every process can still do must be consistent.
#include "rpc.hpp"
extern "C" {
#include "apis/dlb.h"
#include "LB_core/spd.h"
#include "LB_core/DLB_kernel.h"
#include "LB_comm/shmem_cpuinfo.h"
#include "LB_comm/shmem_async.h"
#include "support/mask_utils.h"
}
using pbt::Ctx; using rpc::Msg; typedef int64_t i64;
extern "C" void yrt_set(int, int, unsigned) __attribute__((weak));
static cpu_set_t g_aff; static bool g_async, g_ready; static int g_n; static volatile i64 belief; static volatile int twice; static volatile unsigned ver[64]; static cpu_set_t own; static std::string g_args; static int g_nown;
extern "C" int __wrap_pthread_getaffinity_np(pthread_t, size_t n, cpu_set_t *s) { memcpy(s, &g_aff, n < sizeof g_aff ? n : sizeof g_aff); return 0; }
static void en(int c, void *) { i64 b = 1ll << c; __sync_fetch_and_add(&ver[c], 1); if (__sync_fetch_and_or(&belief, b) & b) ++twice; }
static void dis(int c, void *) { i64 b = 1ll << c; __sync_fetch_and_add(&ver[c], 1); if (!(__sync_fetch_and_and(&belief, ~b) & b)) ++twice; }
enum { INIT = 1, FIN, STORM, QUIET, STAT, LEND, LENDCPU, RECLAIM, BORROW, BORROWN, BORROWCPU, ACQN, ACQCPU, RETURN, DISABLE, ENABLE, UNSETMAX, DUMP };
static sync_call_flags_t fl() { sync_call_flags_t f = {}; f.is_mpi = true; f.is_blocking = true; f.do_lewi = true; return f; }
static int init() { cpu_set_t m = own; int e = DLB_Init(g_nown, &m, g_args.c_str()); if (!e) { belief = 0; for (int i = 0; i < g_n; ++i) if (CPU_ISSET(i, &own)) belief |= 1ll << i; DLB_CallbackSet(dlb_callback_enable_cpu, (dlb_callback_t)en, 0); DLB_CallbackSet(dlb_callback_disable_cpu, (dlb_callback_t)dis, 0); g_ready = true; } return e; }
static void drain() { if (g_async && g_ready) { shmem_async_wait_for_completion(thread_spd->id); shmem_async_wait_for_completion(thread_spd->id); } }
// lent CPUs are not notified: the caller knows
static int lend_mask(i64 m) {
    m &= belief; if (!m) return -1; unsigned v[64]; memcpy(v, (void *)ver, sizeof v); i64 had = __sync_fetch_and_and(&belief, ~m) & m; if (!had) return -1; cpu_set_t s; CPU_ZERO(&s); int k = 0, last = 0; for (int i = 0; i < 64; ++i) if (had >> i & 1) { CPU_SET(i, &s); ++k; last = i; }
    int e = k == 1 ? DLB_LendCpu(last) : DLB_LendCpuMask(&s); if (e < 0) for (int i = 0; i < 64; ++i) if (had >> i & 1 && ver[i] == v[i]) __sync_fetch_and_or(&belief, 1ll << i); return e;
}
static i64 ownmask() { i64 m = 0; for (int i = 0; i < g_n; ++i) if (CPU_ISSET(i, &own)) m |= 1ll << i; return m; }
static i64 lowest(i64 m) { return m & -m; }
static void blk_in() { into_sync_call(fl()); } // the CPU of the calling thread is lent until the call ends
static void blk_out() { out_of_sync_call(fl()); __sync_fetch_and_or(&belief, lowest(ownmask())); DLB_Reclaim(); }
static Msg dump() {
    Msg r; int fd = memfd_create("reg", 0); fflush(stderr); int save = dup(2); dup2(fd, 2); shmem_cpuinfo__print_info(thread_spd->options.shm_key, 0, 1, (dlb_printshmem_flags_t)0); fflush(stderr); dup2(save, 2); close(save);
    off_t len = lseek(fd, 0, SEEK_END); r.s.resize(len); pread(fd, &r.s[0], len, 0); close(fd); return r;
}
static Msg handle(const Msg &m) {
    Msg r; int e = 0; i64 a = m.v.empty() ? 0 : m.v[0]; switch (m.op) {
        case INIT: e = init(); break;
        case FIN: drain(); e = DLB_Finalize(); g_ready = false; belief = 0; break;
        case STORM: { unsigned x = a; bool in = false; if (yrt_set) yrt_set(m.v[4], m.v[5], x); auto rnd = [&](int k) { x = x * 1664525u + 1013904223u; return (int)((x >> 12) % k); };
            auto anycpu = [&] { return rnd(g_n); };
            for (int k = 0; k < m.v[1] && !e; ++k) { if (m.v[2] && rnd(8) == 0) usleep(rnd(60)); if (in) { blk_out(); in = false; continue; }
                switch (rnd(m.v[3] ? 18 : 17)) {
                    case 0: lend_mask(belief & ~lowest(ownmask())); break; case 1: lend_mask(1ll << anycpu()); break; case 2: lend_mask((i64)x); break; case 3: DLB_Reclaim(); break; case 4: DLB_ReclaimCpu(anycpu()); break; case 5: DLB_ReclaimCpus(1 + rnd(3)); break;
                    case 6: DLB_Borrow(); break; case 7: DLB_BorrowCpu(anycpu()); break; case 8: DLB_BorrowCpus(1 + rnd(3)); break; case 9: case 10: DLB_AcquireCpus(1 + rnd(3)); break; case 11: case 12: DLB_AcquireCpu(anycpu()); break;
                    case 13: case 14: if (!g_async) DLB_Return(); else lend_mask(1ll << anycpu()); break; case 15: blk_in(); in = true; break; case 16: { cpu_set_t s; CPU_ZERO(&s); for (int i = 0; i < g_n; ++i) if (rnd(3) == 0) CPU_SET(i, &s); DLB_BorrowCpuMask(&s); break; }
                    case 17: drain(); if ((e = DLB_Finalize())) break; g_ready = false; belief = 0; if (rnd(2)) usleep(rnd(200)); e = init(); break;
                } }
            if (in) blk_out(); if (yrt_set) yrt_set(0, 1, 1); break; }
        case QUIET: drain(); if (!g_async) e = DLB_Return(); break;
        case STAT: drain(); r.v = {0, (i64)belief, twice}; return r;
        case LEND: e = lend_mask(-1); break; case LENDCPU: e = lend_mask(1ll << a); break; case RECLAIM: e = DLB_Reclaim(); break; case BORROW: e = DLB_Borrow(); break; case BORROWN: e = DLB_BorrowCpus(a); break; case BORROWCPU: e = DLB_BorrowCpu(a); break;
        case ACQN: e = DLB_AcquireCpus(a); break; case ACQCPU: e = DLB_AcquireCpu(a); break; case RETURN: e = DLB_Return(); break; case DISABLE: e = DLB_Disable(); drain(); break; case ENABLE: e = DLB_Enable(); break;
        case DUMP: return dump();
    }
    r.v = {e, (i64)belief, twice}; return r;
}
static std::string g_prop;
struct Cpu { int owner, guest; std::string st; };
static void one(Ctx &c) {
    bool as = g_async = g_prop == "C02"; int np = c.range(2, 4), n = c.range(std::max(2, np), 12); g_n = n; mu_testing_set_sys_size(n); unsetenv("DLB_ARGS");
    std::vector<int> owner(n); for (int i = 0; i < n; ++i) owner[i] = i < np ? i : c.range(0, np - 1); rpc::Pool P(c); std::vector<i64> mask(np); for (int i = 0; i < n; ++i) mask[owner[i]] |= 1ll << i;
    bool greedy = c.chance(1, 4), keep = c.flip(); int aff = c.weighted({3, 1, 1}); const char *affs[] = {"nearby-first", "nearby-only", "spread-ifempty"};
    std::string args = "--shm-key=" + c.key + " --barrier=no --lewi" + (as ? " --mode=async" : "") + (greedy ? " --lewi-greedy" : "") + (keep ? " --lewi-keep-one-cpu=yes" : " --lewi-keep-one-cpu=no") + " --lewi-affinity=" + affs[aff];
    c.note("%d processes, node of %d CPUs, %s", np, n, args.c_str());
    for (int i = 0; i < np; ++i) { i64 mk = mask[i]; P.spawn([=](int) { CPU_ZERO(&own); CPU_ZERO(&g_aff); g_nown = 0; for (int k = 0; k < n; ++k) if (mk >> k & 1) { CPU_SET(k, &own); if (!g_nown++) CPU_SET(k, &g_aff); } g_args = args; return [](const Msg &m) { return handle(m); }; }); }
    for (int i = 0; i < np; ++i) { auto r = P.call(i, Msg(INIT)); PCHECK(c, r.v[0] == 0, "Init returned %ld", (long)r.v[0]); }
    auto pid = [&](int p) { for (int i = 0; i < np; ++i) if (P.p[i].pid == p) return i; return -1; };
    auto registry = [&](const char *when, bool noreq) {
        for (int i = 0; i < np; ++i) P.call(i, Msg(STAT)); std::vector<i64> b(np); for (int i = 0; i < np; ++i) { auto r = P.call(i, Msg(STAT)); b[i] = r.v[1]; }
        std::string t = P.call(0, Msg(DUMP)).s; std::vector<Cpu> v(n, Cpu{0, 0, ""}); size_t pos = 0; int section = 0, creq = 0, preq = 0; std::vector<bool> cq(n);
        while (pos < t.size()) { size_t e = t.find('\n', pos); if (e == std::string::npos) e = t.size(); std::string l = t.substr(pos, e - pos); pos = e + 1; int k, o, g; char st[8]; if (l.find("Cpu requests") != std::string::npos) section = 1; else if (l.find("Process requests") != std::string::npos) section = 2; else if (l.find("Format:") != std::string::npos) continue;
            size_t br = l.find(']'); std::string d = br == std::string::npos ? l : l.substr(br + 1); const char *p = l.c_str(); if (!section && sscanf(p, " %d [ %d / %d / %4s ]", &k, &o, &g, st) == 4 && k >= 0 && k < n) v[k] = {o, g, st}; else if (section == 1 && sscanf(d.c_str(), " %d: %d", &k, &o) == 2) { ++creq; if (k >= 0 && k < n) cq[k] = true; } else if (section == 2 && sscanf(d.c_str(), " %d: %d,", &k, &o) == 2) ++preq; }
        for (int i = 0; i < n; ++i) {
            PCHECK(c, v[i].owner == P.p[owner[i]].pid, "%s: CPU %d belongs to %d, expected process %d\n%s", when, i, v[i].owner, owner[i], t.c_str()); int g = v[i].guest ? pid(v[i].guest) : -1; PCHECK(c, g >= 0 || v[i].guest <= 0, "%s: CPU %d is used by %d, which is not there", when, i, v[i].guest);
            if (!as) for (int j = 0; j < np; ++j) { bool told = b[j] >> i & 1; PCHECK(c, told == (g == j), "%s: CPU %d is %s process %d in the registry, which was told %s\n%s", when, i, g == j ? "used by" : "not used by", j, told ? "to use it" : "not to use it", t.c_str()); }
            bool busy = v[i].st == "busy" || v[i].st == "recl"; if (busy) PCHECK(c, g == owner[i], "%s: CPU %d is in use by its owner but the guest is %d\n%s", when, i, v[i].guest, t.c_str());
            if (as && g < 0) PCHECK(c, !cq[i], "%s: CPU %d is idle and requested\n%s", when, i, t.c_str());
            if (as && g < 0 && aff != 1) PCHECK(c, preq == 0, "%s: CPU %d is idle and there are requests\n%s", when, i, t.c_str());
        }
        if (noreq) { if (strcmp(when, "reclaimed and returned") || !as) PCHECK(c, creq == 0 && preq == 0, "%s: there are requests\n%s", when, t.c_str()); for (int i = 0; i < n; ++i) PCHECK(c, v[i].guest == v[i].owner, "%s: CPU %d is not used by its owner\n%s", when, i, t.c_str()); }
    };
    registry("after Init", true); int rounds = c.len(1, 5);
    for (int k = 0; k < rounds; ++k) {
        int calls = c.oneof<int>({5, 30, 120}); if (as) calls = std::min(calls, 30); int yp = c.oneof<int>({0, 4, 20, 100}), ym = c.oneof<int>({1, 20, 200}), fin = c.chance(1, 3); c.note("%d calls each at the same time%s", calls, fin ? ", with finalizations" : "");
        for (int i = 0; i < np; ++i) P.post(i, Msg(STORM, {(i64)c.draw(1u << 31), calls, c.range(0, 1), fin && i, yp, ym})); for (int i = 0; i < np; ++i) { auto r = P.wait(i, 40); PCHECK(c, r.v[0] == 0, "process %d: Finalize or Init returned %ld", i, (long)r.v[0]); }
        for (int rep = 0; rep < 2; ++rep) for (int i = 0; i < np; ++i) P.call(i, Msg(QUIET)); registry("quiet", false);
        for (int i = 0; i < np; ++i) { auto r = P.call(i, Msg(RECLAIM)); PCHECK(c, r.v[0] >= 0, "Reclaim returned %ld", (long)r.v[0]); for (int j = 0; j < np; ++j) P.call(j, Msg(QUIET)); auto s = P.call(i, Msg(STAT)); PCHECK(c, as || (s.v[1] & mask[i]) == mask[i], "process %d does not have all its CPUs after Reclaim", i); } registry("after Reclaim", false);
        for (int i = 0; i < np; ++i) { auto r = P.call(i, Msg(DISABLE)); PCHECK(c, r.v[0] == 0, "Disable returned %ld", (long)r.v[0]); } registry("after Disable", true); for (int i = 0; i < np; ++i) { auto r = P.call(i, Msg(ENABLE)); PCHECK(c, r.v[0] == 0, "Enable returned %ld", (long)r.v[0]); } registry("after Enable", true);
        int a = c.range(0, np - 1), b = (a + c.range(1, np - 1)) % np, x = -1; for (int i = 0; i < n; ++i) if (owner[i] == a) x = i; auto r = P.call(a, Msg(LENDCPU, {x})); PCHECK(c, r.v[0] == 0, "LendCpu returned %ld", (long)r.v[0]); r = P.call(b, Msg(BORROWCPU, {x})); PCHECK(c, r.v[0] == 0, "BorrowCpu of a lent CPU returned %ld", (long)r.v[0]); registry("lent and borrowed", false);
        r = P.call(a, Msg(RECLAIM)); PCHECK(c, r.v[0] == (as ? DLB_SUCCESS : DLB_NOTED) || as, "Reclaim returned %ld", (long)r.v[0]); for (int i = 0; i < np; ++i) P.call(i, Msg(QUIET)); registry("reclaimed and returned", true); c.count(calls * np);
    }
    for (int i = 0; i < np; ++i) { auto r = P.call(i, Msg(FIN)); PCHECK(c, r.v[0] == 0, "Finalize returned %ld", (long)r.v[0]); } for (const char *m : {"async", "procinfo", "cpuinfo"}) { std::string p = std::string("/dev/shm/DLB_") + m + "_" + c.key; PCHECK(c, access(p.c_str(), F_OK), "%s remains", p.c_str()); }
    c.nontrivial();
}
int main(int argc, char **argv) {
    g_prop = "C01"; std::vector<char *> a; for (int i = 0; i < argc; ++i) { if (!strcmp(argv[i], "--prop") && i + 1 < argc) { g_prop = argv[++i]; continue; } a.push_back(argv[i]); }
    pbt::Options o; o.property = g_prop.c_str(); o.quick_cases = 6000; o.thorough_cases = 200000; o.quick_cap_s = 40; o.case_timeout = 60; o.hang_is_violation = true;
    return pbt::run(a.size(), a.data(), o, one);
}
