// C16/C17/C21: TALP regions against a direct integration of the event history, under a virtual clock.
#include "pbt.hpp"
#include "json.hpp"
#include <pthread.h>
#include <atomic>
#include <map>
#include <set>
#include <functional>
#include <condition_variable>
#include <mutex>
extern "C" {
#include "apis/dlb.h"
#include "apis/dlb_talp.h"
#include "LB_core/DLB_kernel.h"
#include "LB_core/DLB_talp.h"
#include "LB_core/spd.h"
#include "LB_comm/shmem_talp.h"
#include "LB_numThreads/omp-tools.h"
#include "support/mask_utils.h"
ompt_start_tool_result_t *ompt_start_tool(unsigned int, const char *);
int __real_clock_gettime(clockid_t, struct timespec *);
}
using pbt::Ctx;
typedef int64_t i64;

static std::atomic<i64> vclock{1000000000};
extern "C" int __wrap_clock_gettime(clockid_t id, struct timespec *ts) {
    if (id != CLOCK_MONOTONIC && id != CLOCK_MONOTONIC_COARSE && id != CLOCK_MONOTONIC_RAW) return __real_clock_gettime(id, ts);
    i64 v = vclock; ts->tv_sec = v / 1000000000; ts->tv_nsec = v % 1000000000; return 0;
}

// A real thread that runs one job at a time, in lockstep with the driver.
struct Worker {
    pthread_t t; std::mutex m; std::condition_variable cv; std::function<void()> job; bool has = false, quit = false;
    static void *body(void *p) { Worker *w = (Worker *)p; std::unique_lock<std::mutex> l(w->m);
        while (true) { w->cv.wait(l, [&] { return w->has || w->quit; }); if (!w->has) return nullptr; w->job(); w->has = false; w->cv.notify_all(); } }
    Worker() { pthread_create(&t, nullptr, body, this); }
    void run(std::function<void()> f) { std::unique_lock<std::mutex> l(m); job = f; has = true; cv.notify_all(); cv.wait(l, [&] { return !has; }); }
    void stop() { { std::unique_lock<std::mutex> l(m); quit = true; cv.notify_all(); } pthread_join(t, nullptr); }
};

// --- fake OpenMP runtime: only the callbacks DLB registers --------------------
static std::map<int, ompt_callback_t> CB;
static ompt_set_result_t set_cb(ompt_callbacks_t e, ompt_callback_t f) { if (f) CB[e] = f; else CB.erase(e); return ompt_set_always; }
static ompt_interface_fn_t lookup_fn(const char *n) { return !strcmp(n, "ompt_set_callback") ? (ompt_interface_fn_t)set_cb : nullptr; }
#define CALL(type, ev, ...) do { if (CB.count(ev)) ((type)CB[ev])(__VA_ARGS__); } while (0)

enum St { DIS, USE, MPI, IN, OUT };
static const char *stn[] = {"disabled", "useful", "mpi", "omp-in", "omp-out"};
struct Par { int id, level; ompt_data_t pd; const void *code; std::vector<int> mem; int inbar = 0; };
enum FT { F_IMPL, F_TASK, F_SYNC, F_BAR };
struct Frame { FT t; Par *par; ompt_data_t td{}; int kind = 0; const void *code = nullptr; bool entered = false; };
struct Th {
    int kind = 0;                       // 0 initial, 1 application thread, 2 OpenMP worker, 3 observer
    Worker *w = nullptr; bool sample = false, begun = false, inmpi = false, pendend = false, ended = false, coll = false; St st = DIS; i64 in = 0; std::vector<Frame> f;
};
struct Reg { dlb_monitor_t *p = nullptr; std::string name; bool en = true, started = false, pub = false, pure = true; i64 start = 0, stop = 0, el = 0, us = 0, mpi = 0, lb = 0, sch = 0, ser = 0, cm = 0, cp = 0, ct = 0; int nm = 0, nr = 0, cpus = 0; };

struct Sim {
    Ctx &c; std::string prop; bool omp = false, extp = false; std::vector<Th> T; std::vector<Reg *> R; std::vector<Reg *> open; std::vector<Par *> pars; Reg *global = nullptr;
    std::string sel; bool mpi_mode = false; int npar = 0, ops = 0, closed_checks = 0, anon = 0; bool late = false, disabled_seen = false; pid_t pid = 0;
    Sim(Ctx &c_) : c(c_) {}
    void on(int i, std::function<void()> f) { if (T[i].w) T[i].w->run(f); else f(); }
    bool active() { return !pars.empty(); }

    // --- the reference: integrate what every thread does ---
    void advance(i64 d) { vclock += d; for (auto &t : T) if (t.sample) { if (t.st == IN) t.in += d; else for (auto *r : open) { if (t.st == USE) r->us += d; else if (t.st == MPI) r->mpi += d; else if (t.st == OUT) r->ser += d; } } }
    int nsamples() { int n = 0; for (auto &t : T) n += t.sample; return n; }
    void ensure_sample(int i) { if (!T[i].sample) { T[i].sample = true; T[i].st = DIS; } }
    void flushed() { for (auto *r : open) { r->cpus = std::max(r->cpus, nsamples()); r->pub = true; } }
    static std::string low(std::string s) { for (auto &x : s) x = tolower(x); return s; }
    bool enabled(const std::string &name) {     // documented meaning of --talp-region-select
        std::string s = sel; bool inc = true; if (s.empty()) return true;
        if (s.compare(0, 8, "include:") == 0) s = s.substr(8); else if (s.compare(0, 8, "exclude:") == 0) { inc = false; s = s.substr(8); }
        if (s == "all") return inc;
        bool found = false; std::stringstream ss(s); std::string tok; while (std::getline(ss, tok, ',')) if (tok == name || (low(tok) == "global" && low(name) == "global")) found = true;
        return inc ? found : !found;
    }
    Reg *find(const std::string &n) { for (auto *r : R) if (r->name == n) return r; return nullptr; }
    Reg *add(dlb_monitor_t *p, const std::string &n) { auto *r = new Reg; r->p = p; r->name = n; r->en = enabled(n); R.push_back(r); return r; }

    void check(const char *when) {
        ++closed_checks;
        for (auto *r : R) { dlb_monitor_t *m = r->p; const char *n = r->name.c_str();
#define EQ(field, val) PCHECK(c, (i64)m->field == (i64)(val), "%s, at %ld: region '%.30s': " #field " is %ld, expected %ld", when, (long)vclock, n, (long)m->field, (long)(val))
            PCHECK(c, r->name == m->name, "%s: region '%.30s' is now called '%.40s'", when, n, m->name);
            EQ(num_measurements, r->nm); EQ(num_resets, r->nr); EQ(start_time, r->start); EQ(stop_time, r->stop); EQ(elapsed_time, r->el); EQ(useful_time, r->us); EQ(mpi_time, r->mpi);
            EQ(omp_load_imbalance_time, r->lb); EQ(omp_scheduling_time, r->sch); EQ(omp_serialization_time, r->ser); EQ(num_mpi_calls, r->cm); EQ(num_omp_parallels, r->cp); EQ(num_omp_tasks, r->ct); EQ(num_cpus, r->cpus);
            if (extp && r->pub) { talp_region_list_t x; memset(&x, 0, sizeof x); int e = shmem_talp__get_region(&x, pid, r->name.c_str()); PCHECK(c, e == DLB_SUCCESS && x.mpi_time == r->mpi && x.useful_time == r->us, "%s: region '%.30s' publishes (%d) MPI %ld useful %ld, expected %ld and %ld", when, n, e, (long)x.mpi_time, (long)x.useful_time, (long)r->mpi, (long)r->us); }
        }
    }
    // OpenMP only: everything adds up to elapsed x CPUs
    void check_total(Reg *r) {
        if (!omp || r->nm != 1 || !r->pure || disabled_seen || active()) return; for (auto &t : T) if (t.kind == 1 && t.sample) return;
        dlb_monitor_t *m = r->p; i64 tot = m->useful_time + m->mpi_time + m->omp_load_imbalance_time + m->omp_scheduling_time + m->omp_serialization_time;
        PCHECK(c, tot == m->elapsed_time * m->num_cpus, "region '%.30s': useful and waiting times add up to %ld, elapsed %ld x %d CPUs", r->name.c_str(), (long)tot, (long)m->elapsed_time, m->num_cpus);
        c.label("total checked");
    }
    // --- region API ---
    int start(int i, Reg *r, bool null_handle, bool lib = false) {
        int e = 0; dlb_monitor_t *h = null_handle ? DLB_GLOBAL_REGION : r->p; on(i, [&] { e = DLB_MonitoringRegionStart(h); });
        int want = T[i].kind == 3 ? DLB_ERR_PERM : !r->started && r->en ? DLB_SUCCESS : DLB_NOUPDT;
        c.note("[%ld] thread %d: start '%.20s' -> %d", (long)vclock, i, r->name.c_str(), e);
        PCHECK(c, e == want, "start of '%.30s' (started %d, enabled %d) by thread %d returned %d, expected %d", r->name.c_str(), r->started, r->en, i, e, want);
        if (want == DLB_SUCCESS) model_start(i, r); return e;
    }
    void model_start(int i, Reg *r) { ensure_sample(i); flushed(); r->start = vclock; r->stop = 0; r->started = true; open.insert(open.begin(), r); T[i].st = USE; r->pub = false; for (auto &t : T) if (t.sample && t.st == DIS) r->pure = false; check("after a start"); }
    void model_stop(int i, Reg *r) { ensure_sample(i); flushed(); r->stop = vclock; r->el += r->stop - r->start; ++r->nm; r->started = false; open.erase(std::find(open.begin(), open.end(), r)); }
    int stop(int i, Reg *r, int how) {       // how: 0 handle, 1 NULL, 2 last open
        int e = 0; dlb_monitor_t *h = how == 1 ? DLB_GLOBAL_REGION : how == 2 ? DLB_LAST_OPEN_REGION : r->p; if (how == 2) r = open.empty() ? nullptr : open[0];
        on(i, [&] { e = DLB_MonitoringRegionStop(h); });
        int want = T[i].kind == 3 ? DLB_ERR_PERM : !r ? DLB_ERR_NOENT : r->started ? DLB_SUCCESS : DLB_NOUPDT;
        c.note("[%ld] thread %d: stop%s '%.20s' -> %d", (long)vclock, i, how == 2 ? " last" : "", r ? r->name.c_str() : "-", e);
        PCHECK(c, e == want, "stop of '%.30s' (started %d) by thread %d returned %d, expected %d", r ? r->name.c_str() : "last open", r ? r->started : 0, i, e, want);
        if (want == DLB_SUCCESS) { model_stop(i, r); check("after a stop"); check_total(r); } return e;
    }
    void reset(int i, Reg *r, bool null_handle) {
        int e = 0; on(i, [&] { e = DLB_MonitoringRegionReset(null_handle ? DLB_GLOBAL_REGION : r->p); }); c.note("[%ld] thread %d: reset '%.20s' -> %d", (long)vclock, i, r->name.c_str(), e);
        PCHECK(c, e == DLB_SUCCESS, "reset returned %d", e);
        if (r->started) { open.erase(std::find(open.begin(), open.end(), r)); c.label("reset while started"); }
        Reg n; n.p = r->p; n.name = r->name; n.en = r->en; n.nr = r->nr + 1; *r = n;
        dlb_monitor_t *m = r->p; PCHECK(c, m->start_time == 0 && m->stop_time == 0 && m->elapsed_time == 0 && m->useful_time == 0 && m->mpi_time == 0 && m->num_measurements == 0 && m->num_mpi_calls == 0 && m->num_resets == n.nr && !monitoring_region_is_started(m), "a reset region is not empty");
    }
    void update(int i) { int e = 0; on(i, [&] { e = DLB_MonitoringRegionsUpdate(); }); PCHECK(c, e == (T[i].kind == 3 ? DLB_ERR_PERM : DLB_SUCCESS), "update returned %d", e); if (T[i].kind != 3) { flushed(); c.note("[%ld] thread %d: update", (long)vclock, i); check("after an update"); } }
    void reg(int i, std::vector<std::string> &names) {
        std::string n = c.pick(names); bool null = n.empty() && c.flip();
        dlb_monitor_t *p = nullptr; on(i, [&] { std::vector<char> tmp(n.begin(), n.end()); tmp.push_back(0); p = DLB_MonitoringRegionRegister(null ? NULL : tmp.data()); std::fill(tmp.begin(), tmp.end(), '#'); });
        c.note("thread %d: register '%.30s'(%zu) -> %s", i, n.c_str(), n.size(), p ? p->name : "NULL");
        if (low(n) == "all") { PCHECK(c, !p, "the reserved name '%s' was registered", n.c_str()); return; }
        PCHECK(c, p, "register '%.30s' returned NULL", n.c_str());
        if (n.empty()) { for (auto *r : R) PCHECK(c, r->p != p && r->name != p->name, "an anonymous region is an existing region '%s'", p->name); PCHECK(c, !strncmp(p->name, "Anonymous Region ", 17), "anonymous region named '%s'", p->name); add(p, p->name); names.push_back(p->name); c.label("anonymous"); return; }
        std::string k = n.substr(0, DLB_MONITOR_NAME_MAX - 1); if (low(n) == "global") k = global->name;
        if (Reg *r = find(k)) PCHECK(c, r->p == p, "registering '%.30s' again returned another region, '%.40s'", n.c_str(), p->name);
        else { for (auto *q : R) PCHECK(c, q->p != p, "registering '%.30s' returned the region '%.40s'", n.c_str(), q->name.c_str()); PCHECK(c, k == p->name, "region '%.130s' is called '%.130s'", k.c_str(), p->name); add(p, k); PCHECK(c, p->elapsed_time == 0 && p->num_measurements == 0 && p->useful_time == 0 && p->num_resets == 0, "a new region has values"); }
    }
    // --- MPI ---
    void mpi_toggle(int i) {
        Th &t = T[i]; sync_call_flags_t f; memset(&f, 0, sizeof f); 
        if (!t.inmpi) { f.is_mpi = 1; f.is_blocking = c.flip(); f.is_collective = c.flip(); f.do_lewi = c.flip(); t.coll = f.is_blocking && f.is_collective; on(i, [&] { into_sync_call(f); });
            t.inmpi = true; c.note("[%ld] thread %d: into MPI%s", (long)vclock, i, t.coll ? " (blocking collective)" : ""); if (t.kind == 3) return; ensure_sample(i); if (extp && t.coll) flushed(); t.st = MPI; }
        else { f.is_mpi = 1; f.is_blocking = t.coll; f.is_collective = t.coll; on(i, [&] { out_of_sync_call(f); });
            t.inmpi = false; c.note("[%ld] thread %d: out of MPI", (long)vclock, i); if (t.kind == 3) return; for (auto *r : open) ++r->cm; if (extp && t.coll) { flushed(); check("after a collective"); } t.st = USE; }
    }
    // --- OpenMP ---
    std::vector<int> idle() { std::vector<int> v; for (size_t i = 0; i < T.size(); ++i) if (T[i].kind == 2 && T[i].f.empty() && !T[i].ended) v.push_back(i); return v; }
    void thread_begin(int i) { c.note("[%ld] thread %d: begins", (long)vclock, i); on(i, [&] { ompt_data_t d{}; CALL(ompt_callback_thread_begin_t, ompt_callback_thread_begin, T[i].kind == 0 ? ompt_thread_initial : ompt_thread_worker, &d); }); T[i].begun = true; if (!T[i].sample) { ensure_sample(i); for (auto *r : open) { r->ser += vclock - r->start; if (vclock > r->start) late = true; } } if (T[i].st == DIS) T[i].st = OUT; }
    void parallel_begin(int i, int n) {
        auto id = idle(); n = std::min<int>(n, id.size() + 1); Par *p = new Par; p->id = ++npar; p->level = 1; if (!T[i].f.empty()) p->level = T[i].f.back().par->level + 1; memset(&p->pd, 0, sizeof p->pd); p->code = (void *)(uintptr_t)(0x1000 + 16 * c.range(0, 3)); p->mem.push_back(i);
        for (int k = 1; k < n; ++k) { size_t x = c.draw(id.size()); p->mem.push_back(id[x]); id.erase(id.begin() + x); }
        int req = n + (c.chance(1, 3) ? c.range(0, 8) : 0); int fl = ompt_parallel_team | (c.flip() ? 1 : 2);
        c.note("[%ld] thread %d: parallel %d level %d, %d threads of %d requested", (long)vclock, i, p->id, p->level, n, req);
        ompt_data_t dummy{}; ompt_data_t *td = T[i].f.empty() ? &dummy : &T[i].f.back().td; ompt_frame_t fr; memset(&fr, 0, sizeof fr); if (!T[i].f.empty()) fr.exit_frame.ptr = (void *)0x7777;
        on(i, [&] { CALL(ompt_callback_parallel_begin_t, ompt_callback_parallel_begin, td, &fr, &p->pd, req, fl, p->code); });
        for (auto *r : open) ++r->cp;
        for (int m : p->mem) { Frame f; f.t = F_IMPL; f.par = p; T[m].f.push_back(f); }
        pars.push_back(p); if (p->level > 1) c.label("nested parallel"); if (n == 1) c.label("serialized parallel");
    }
    void release_end(int i) { if (T[i].pendend) { T[i].pendend = false; on(i, [&] { ompt_data_t td{}; CALL(ompt_callback_sync_region_t, ompt_callback_sync_region, ompt_sync_region_barrier_implicit, ompt_scope_end, NULL, &td, NULL); CALL(ompt_callback_implicit_task_t, ompt_callback_implicit_task, ompt_scope_end, NULL, &td, 0, 1, ompt_task_implicit); }); } }
    void sync(int i, Frame &f, int kind, int ep) { ompt_data_t td{}; c.note("[%ld] thread %d: sync kind %d %s", (long)vclock, i, kind, ep == ompt_scope_begin ? "begins" : "ends"); on(i, [&] { CALL(ompt_callback_sync_region_t, ompt_callback_sync_region, (ompt_sync_region_t)kind, (ompt_scope_endpoint_t)ep, &f.par->pd, &td, f.code); }); }
    // one step of thread i inside parallel regions; finish: only steps that lead to the end
    void step(int i, bool finish) {
        Th &t = T[i]; if (t.inmpi) { mpi_toggle(i); return; }
        Frame &f = t.f.back(); Par *p = f.par;
        switch (f.t) {
            case F_IMPL: case F_TASK: {
                if (f.t == F_IMPL && !f.entered) { if (!t.begun) { thread_begin(i); return; } release_end(i);
                    unsigned idx = std::find(p->mem.begin(), p->mem.end(), i) - p->mem.begin(); c.note("[%ld] thread %d: enters parallel %d as %u", (long)vclock, i, p->id, idx);
                    on(i, [&] { CALL(ompt_callback_implicit_task_t, ompt_callback_implicit_task, ompt_scope_begin, &p->pd, &f.td, (unsigned)p->mem.size(), idx, ompt_task_implicit); });
                    f.entered = true; t.st = USE; return; }
                int depth = t.f.size();
                int a = finish || depth > 12 ? 0 : c.weighted({3, 4, 3, 2, 2});
                if (a == 1) { int k = c.oneof<int>({ompt_sync_region_barrier_explicit, ompt_sync_region_taskwait, ompt_sync_region_taskgroup, ompt_sync_region_barrier_implicit, ompt_sync_region_barrier_implicit_workshare});
                    Frame s; s.t = F_SYNC; s.par = p; s.kind = k; s.code = (void *)(uintptr_t)(0x9000 + c.range(0, 3)); sync(i, s, k, ompt_scope_begin); t.st = IN; t.f.push_back(s); }
                else if (a == 2) { int n = c.range(1, 3); for (int k = 0; k < n; ++k) { ompt_data_t td{}; int fl = c.chance(1, 5) ? ompt_task_target : ompt_task_explicit; if (c.flip()) fl |= ompt_task_untied; on(i, [&] { ompt_frame_t fr; memset(&fr, 0, sizeof fr); CALL(ompt_callback_task_create_t, ompt_callback_task_create, &f.td, &fr, &td, fl, 0, NULL); }); if (fl & ompt_task_explicit) for (auto *r : open) ++r->ct; } c.note("thread %d: creates %d tasks", i, n); }
                else if (a == 3) mpi_toggle(i);
                else if (a == 4 && p->level < 4) parallel_begin(i, c.range(1, 4));
                else if (f.t == F_TASK) { c.note("[%ld] thread %d: task completes", (long)vclock, i); ompt_data_t nx{}; on(i, [&] { CALL(ompt_callback_task_schedule_t, ompt_callback_task_schedule, &f.td, ompt_task_complete, &nx); }); t.f.pop_back(); t.st = IN; }
                else { int k = c.flip() ? ompt_sync_region_barrier_implicit : ompt_sync_region_barrier_implicit_parallel; f.code = p->mem[0] == i ? p->code : NULL; sync(i, f, k, ompt_scope_begin); f.t = F_BAR; f.kind = k; t.st = IN; }
                break; }
            case F_SYNC: case F_BAR: {
                if (!finish && t.f.size() <= 12 && c.chance(1, 3)) { Frame k; k.t = F_TASK; k.par = p; k.td.value = p->level; k.entered = true; c.note("[%ld] thread %d: runs a task", (long)vclock, i); on(i, [&] { ompt_data_t pr{}; CALL(ompt_callback_task_schedule_t, ompt_callback_task_schedule, &pr, ompt_task_switch, &k.td); }); t.st = USE; t.f.push_back(k); break; }
                if (f.t == F_SYNC) { sync(i, f, f.kind, ompt_scope_end); t.f.pop_back(); t.st = USE; break; }
                // implicit barrier of the parallel region: done when every thread is there
                for (int m : p->mem) if (T[m].f.empty() || T[m].f.back().par != p || T[m].f.back().t != F_BAR) return;
                if (p->mem[0] != i) return;
                parallel_end(i, p); break; }
        }
    }
    void parallel_end(int i, Par *p) {
        c.note("[%ld] thread %d: parallel %d ends", (long)vclock, i, p->id);
        for (size_t k = 0; k < p->mem.size(); ++k) { T[p->mem[k]].f.pop_back(); if (k) T[p->mem[k]].pendend = true; }
        ompt_data_t td{}; ompt_data_t *etd = T[i].f.empty() ? &td : &T[i].f.back().td;
        on(i, [&] { CALL(ompt_callback_sync_region_t, ompt_callback_sync_region, ompt_sync_region_barrier_implicit, ompt_scope_end, NULL, &td, p->code); CALL(ompt_callback_implicit_task_t, ompt_callback_implicit_task, ompt_scope_end, NULL, &td, (unsigned)p->mem.size(), 0, ompt_task_implicit); });
        on(i, [&] { CALL(ompt_callback_parallel_end_t, ompt_callback_parallel_end, &p->pd, etd, ompt_parallel_team | 1, p->code); });
        // direct computation of what was lost inside this parallel region
        size_t from = p->level == 1 ? 0 : 1; if (p->mem.size() > from) { i64 mn = INT64_MAX, n = 0; for (size_t k = from; k < p->mem.size(); ++k) { mn = std::min(mn, T[p->mem[k]].in); ++n; }
            for (auto *r : open) { r->sch += mn * n; for (size_t k = from; k < p->mem.size(); ++k) r->lb += T[p->mem[k]].in - mn; r->cpus = std::max<int>(r->cpus, n); }
            for (size_t k = from; k < p->mem.size(); ++k) T[p->mem[k]].in = 0; if (mn > 0) c.label("scheduling time"); }
        T[i].st = USE; for (size_t k = 1; k < p->mem.size(); ++k) T[p->mem[k]].st = OUT;
        pars.erase(std::find(pars.begin(), pars.end(), p)); 
    }
    i64 dt() { switch (c.weighted({2, 3, 3, 2, 1, 1})) { case 0: return c.range(1, 9); case 1: return c.range(10, 5000); case 2: return c.range(5001, 5000000); case 3: return c.range(5000001, 4000000000ll); case 4: return c.range(4000000000ll, 7200000000000ll); default: return 0; } }
};

static void one(Ctx &c, const std::string &prop) {
    Sim s(c); s.prop = prop; vclock = 1000000000 + (i64)c.range(0, 5000000);
    s.omp = prop == "C21" ? true : prop == "C16" ? c.flip() : c.chance(1, 3); s.extp = c.chance(1, 3);
    int na = prop == "C21" ? 0 : c.range(0, 3), nw = s.omp ? c.range(1, 6) : 0, nobs = prop == "C17" ? c.range(0, 1) : 0;
    if (prop == "C21" && c.chance(1, 8)) na = 1;
    int ncpus = c.oneof<int>({64, 16, 8, 96}); mu_testing_set_sys_size(ncpus);
    cpu_set_t mask; CPU_ZERO(&mask); int nm = c.range(1, 8); for (int i = 0; i < nm; ++i) CPU_SET(i, &mask);
    // text for --talp-region-select
    std::vector<std::string> names = {"a", "b", "c", "Global", "global", "GLOBAL", "", "all", "All", "ALL", "region 1", "a region with a name", std::string(126, 'n'), std::string(127, 'n'), std::string(128, 'n'), std::string(127, 'n') + "zzz", std::string(126, 'n') + "q", "Anonymous Region 1", "Anonymous Region 2", "A", "B", "ab"};
    if (prop == "C17" ? c.chance(1, 2) : c.chance(1, 8)) { int mode = c.range(0, 2); s.sel = mode == 0 ? "" : mode == 1 ? "include:" : "exclude:"; if (c.chance(1, 4)) s.sel += "all"; else { int n = c.range(1, 3); for (int i = 0; i < n; ++i) s.sel += std::string(i ? "," : "") + c.oneof<const char *>({"a", "b", "global", "Global", "A", "ab", "c", "all2", "zz"}); } }
    bool out = c.chance(1, 2);
    std::string args = "--shm-key=" + c.key + " --quiet=yes --talp" + (s.omp ? " --ompt --talp-openmp=yes" : "") + (s.extp ? " --talp-external-profiler=yes" : "") + (s.sel.empty() ? "" : " --talp-region-select=" + s.sel) + (out ? " --talp-summary=process --talp-output-file=out.json" : " --talp-summary=none");
    setenv("DLB_ARGS", args.c_str(), 1);
    c.note("%s; %d application threads, %d OpenMP workers", args.c_str(), na, nw);
    s.T.resize(1 + na + nw + nobs); for (int i = 1; i < (int)s.T.size(); ++i) { Th &t = s.T[i]; t.kind = i <= na ? 1 : i <= na + nw ? 2 : 3; t.w = new Worker; }
    std::set<std::string> ids;
    ompt_start_tool_result_t *tool = nullptr;
    auto init = [&] {
        int e = DLB_Init(0, &mask, NULL); PCHECK(c, e == DLB_SUCCESS, "DLB_Init returned %d", e); s.pid = thread_spd->id;
        for (auto &t : s.T) { t.sample = t.begun = t.inmpi = t.pendend = false; t.st = DIS; t.in = 0; }
        s.R.clear(); s.open.clear(); dlb_monitor_t *g = DLB_MonitoringRegionGetGlobal(); PCHECK(c, g, "no global region"); s.global = s.add(g, g->name);
        for (size_t i = 1; i < s.T.size(); ++i) { int k = s.T[i].kind; s.on(i, [=] { spd_enter_dlb(NULL); if (k == 3) DLB_SetObserverRole(true); }); }
        if (s.omp) { tool = ompt_start_tool(201811, "LLVM OMP version: 5.0.20140926"); int ok = tool->initialize(lookup_fn, 0, &tool->tool_data); PCHECK(c, ok == 1, "the OpenMP tool did not initialize");
            if (s.global->en) s.model_start(0, s.global); else s.ensure_sample(0); s.T[0].st = USE;
            ompt_data_t d{}; s.thread_begin(0); CALL(ompt_callback_implicit_task_t, ompt_callback_implicit_task, ompt_scope_begin, NULL, &d, 1, 0, ompt_task_initial); }
    };
    init();
    // threads that may use the region API now
    auto callers = [&](bool obs) { std::vector<int> v; for (size_t i = 0; i < s.T.size(); ++i) { Th &t = s.T[i]; if (!t.inmpi && t.f.empty() && (t.kind == 0 || t.kind == 1 || (obs && t.kind == 3))) v.push_back(i); } return v; };
    int nops = c.len(30, 160), cycles = 0, events = 0, maxopen = 0, maxmpi = 0;
    auto quiesce = [&] { for (int guard = 0; s.active() && guard < 20000; ++guard) { Par *p = s.pars.back(); for (int m : std::vector<int>(p->mem)) if (!s.pars.empty() && s.pars.back() == p) { if (c.chance(1, 4)) s.advance(s.dt()); bool mine = !s.T[m].f.empty() && (s.T[m].f.back().par == p); if (mine || s.T[m].inmpi) s.step(m, true); } }
        for (size_t i = 0; i < s.T.size(); ++i) if (s.T[i].inmpi) s.mpi_toggle(i); };
    for (int op = 0; op < nops; ++op) {
        maxopen = std::max(maxopen, (int)s.open.size()); int mm = 0; for (auto &t : s.T) mm += t.st != USE && t.sample; maxmpi = std::max(maxmpi, mm);
        bool ap = s.active(); auto cl = callers(true);
        int k = c.weighted({10, prop == "C17" ? 8u : 3u, 6, 6, 1, prop == "C17" ? 3u : 1u, 3, 1, prop == "C21" ? 1u : 6u, s.omp ? prop == "C21" ? 40u : 20u : 0, 1, 1});
        switch (k) {
            case 0: s.advance(s.dt()); break;
            case 1: { if (cl.empty()) break; s.reg(c.pick(cl), names); break; }
            case 2: case 3: { if (ap || cl.empty()) break; int i = c.pick(cl); Reg *r = c.pick(s.R); if (k == 2 && r->started && c.flip()) r = c.pick(s.R); if (k == 3 && !s.open.empty() && c.chance(3, 4)) r = c.pick(s.open);
                bool nul = r == s.global && c.flip(); ++events; if (k == 2) s.start(i, r, nul); else s.stop(i, r, nul); break; }
            case 4: { if (ap || cl.empty()) break; ++events; s.stop(c.pick(cl), nullptr, 2); break; }
            case 5: { if (ap || cl.empty()) break; Reg *r = c.pick(s.R); s.reset(c.pick(cl), r, r == s.global && c.flip()); break; }
            case 6: { if (cl.empty()) break; s.update(c.pick(cl)); break; }
            case 7: { if (cl.empty()) break; Reg *r = c.pick(s.R); int e = 0; bool nul = r == s.global && c.flip(); s.on(c.pick(cl), [&] { e = DLB_MonitoringRegionReport(nul ? NULL : r->p); }); PCHECK(c, e == DLB_SUCCESS, "report returned %d", e); break; }
            case 8: { std::vector<int> v; for (size_t i = 0; i < s.T.size(); ++i) { Th &t = s.T[i]; if (t.inmpi || (t.f.empty() && t.kind != 2)) v.push_back(i); } if (v.empty()) break; ++events; s.mpi_toggle(c.pick(v)); break; }
            case 9: {
                if (!ap && !s.T[0].inmpi) { if (c.chance(1, 6)) { std::vector<int> v; for (size_t i = 0; i < s.T.size(); ++i) if (s.T[i].kind == 2 && !s.T[i].begun) v.push_back(i); if (!v.empty()) { s.thread_begin(c.pick(v)); break; } }
                    ++events; s.parallel_begin(0, c.range(1, 5)); }
                std::vector<int> v; for (size_t i = 0; i < s.T.size(); ++i) if (!s.T[i].f.empty()) v.push_back(i); if (v.empty()) break;
                int reps = c.range(1, 6); for (int q = 0; q < reps; ++q) { if (c.chance(2, 3)) s.advance(s.dt()); v.clear(); for (size_t i = 0; i < s.T.size(); ++i) if (!s.T[i].f.empty()) v.push_back(i); if (v.empty()) break; s.step(c.pick(v), false); } break; }
            case 10: { // MPI_Init / MPI_Finalize seen by TALP
                if (ap || s.T[0].inmpi || (!s.open.empty() && s.T[0].st == DIS)) break; ++events;
                if (!s.mpi_mode) { if (!c.chance(1, 3)) break; talp_mpi_init(thread_spd); c.note("[%ld] MPI_Init", (long)vclock); s.mpi_mode = true; if (!s.global->started && s.global->en) s.model_start(0, s.global); else s.ensure_sample(0); s.T[0].st = USE; for (auto *r : s.open) ++r->cm; }
                else if (c.chance(1, 4)) { s.ensure_sample(0); for (auto *r : s.open) ++r->cm; c.note("[%ld] MPI_Finalize", (long)vclock); talp_mpi_finalize(thread_spd); if (s.global->started) { s.model_stop(0, s.global); s.check("after MPI_Finalize"); } } break; }
            case 11: { // finalize and start again
                if (s.omp || s.mpi_mode || !c.chance(1, 3) || cycles > 2) break; quiesce(); ++cycles; c.note("DLB_Finalize, DLB_Init"); c.label("initialized again");
                PCHECK(c, DLB_Finalize() == DLB_SUCCESS, "finalize failed"); if (out) unlink("out.json"); init(); break; }
        }
    }
    quiesce();
    if (s.omp) for (size_t i = 0; i < s.T.size(); ++i) if (s.T[i].kind == 2 && s.T[i].begun && c.flip()) { s.release_end(i); s.on(i, [&] { ompt_data_t d{}; CALL(ompt_callback_thread_end_t, ompt_callback_thread_end, &d); }); s.T[i].st = DIS; s.T[i].ended = true; s.disabled_seen = true; if (c.flip()) s.advance(s.dt()); }
    s.update(0);
    // final report
    for (auto *r : s.R) { for (auto *q : s.open) if (q == r) { } }
    bool recorded = !s.mpi_mode && out; std::vector<Reg> fin; { s.advance(s.dt()); if (!s.mpi_mode) { while (!s.open.empty()) s.model_stop(0, s.open[0]); } for (auto *r : s.R) fin.push_back(*r); }
    if (s.omp && c.flip()) { PCHECK(c, DLB_Finalize() == DLB_SUCCESS, "finalize failed"); tool->finalize(&tool->tool_data); } else { PCHECK(c, DLB_Finalize() == DLB_SUCCESS, "finalize failed"); if (s.omp) tool->finalize(&tool->tool_data); }
    if (recorded) {
        bool ok; std::string t = json::slurp("out.json", &ok); PCHECK(c, ok, "no output file");
        try { auto j = json::parse(t); auto &pr = j["Process"]; PCHECK(c, pr.o.size() == fin.size(), "%zu regions reported, %zu registered", pr.o.size(), fin.size());
            for (auto &r : fin) { PCHECK(c, pr.count(r.name) == 1, "region '%.30s' reported %d times", r.name.c_str(), pr.count(r.name)); auto &a = pr[r.name]; PCHECK(c, a.a.size() == 1, "%zu processes", a.a.size()); auto &x = a.a[0];
#define J(f, v) PCHECK(c, x[f].i() == (i64)(v), "final report of '%.30s': %s is %s, expected %ld", r.name.c_str(), f, x[f].s.c_str(), (long)(v))
                J("numCpus", r.cpus); J("numMeasurements", r.nm); J("numResets", r.nr); J("numMpiCalls", r.cm); J("numOmpParallels", r.cp); J("numOmpTasks", r.ct); J("elapsedTime", r.el); J("usefulTime", r.us); J("mpiTime", r.mpi); J("ompLoadImbalanceTime", r.lb); J("ompSchedulingTime", r.sch); J("ompSerializationTime", r.ser); J("pid", s.pid); } c.label("final report"); }
        catch (std::string &e) { c.fail("output is not valid JSON: %s", e.c_str()); }
    }
    for (auto &t : s.T) if (t.w) t.w->stop();
    c.count(s.closed_checks);
    if (s.late) c.label("late thread"); if (s.extp) c.label("external profiler"); if (s.omp) c.label("OpenMP");
    if (prop == "C21" ? s.npar >= 2 && s.closed_checks >= 2 : prop == "C17" ? s.R.size() >= 4 && events >= 6 : maxopen >= 2 && maxmpi >= 1 && s.closed_checks >= 3) c.nontrivial();
}

int main(int argc, char **argv) {
    std::string prop = "C16"; for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], "--prop")) prop = argv[i + 1];
    pbt::Options o; o.property = prop.c_str(); o.quick_cases = 12000; o.thorough_cases = 400000; o.quick_cap_s = 60; o.case_timeout = 20;
    return pbt::run(argc, argv, o, [&](Ctx &c) { one(c, prop); });
}
