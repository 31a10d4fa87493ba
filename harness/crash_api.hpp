// histories of DLB processes with deaths (included by crash.cpp)
namespace capi {
static volatile int *note;
enum Op { INIT = 1, FIN, LEND, RECLAIM, BORROW, RETURN, ACQ, DELREQ, LENDCPU, BORROWCPU, POLL, REGSTART, REGSTOP, BARRIER, DIE, STAT, DPIDS, TPIDS, GETMASK, SETMASK, PRINT, NODETIMES, INTO, OUT };
static const char *ON[] = {"", "Init", "Finalize", "Lend", "Reclaim", "Borrow", "Return", "AcquireCpus", "AcquireCpus(delete requests)", "LendCpu", "BorrowCpu", "PollDROM_Update", "RegionStart", "RegionStop", "Barrier", "", "", "DROM_GetPidList", "TALP_GetPidList", "DROM_GetProcessMask", "DROM_SetProcessMask", "PrintShmem", "TALP_GetNodeTimes", "into blocking call", "out of blocking call"};
static std::mutex tm; static i64 told, toldn; static bool async_, inited;
static i64 m2i(const cpu_set_t *m) { i64 r = 0; for (int i = 0; i < 62; ++i) if (CPU_ISSET(i, m)) r |= 1ll << i; return r; }
static void i2m(i64 v, cpu_set_t *s) { CPU_ZERO(s); for (int i = 0; i < 62; ++i) if (v >> i & 1) CPU_SET(i, s); }
static void cb_en(int k, void *) { std::lock_guard<std::mutex> g(tm); told |= 1ll << k; }
static void cb_dis(int k, void *) { std::lock_guard<std::mutex> g(tm); told &= ~(1ll << k); }
static void cb_ens(const cpu_set_t *s, void *) { std::lock_guard<std::mutex> g(tm); told |= m2i(s); }
static void cb_diss(const cpu_set_t *s, void *) { std::lock_guard<std::mutex> g(tm); told &= ~m2i(s); }
static void cb_mask(const cpu_set_t *s, void *) { std::lock_guard<std::mutex> g(tm); told = m2i(s); }
static void cb_num(int k, void *) { std::lock_guard<std::mutex> g(tm); toldn = k; }
static sync_call_flags_t fl() { sync_call_flags_t f = {}; f.is_mpi = true; f.is_blocking = true; f.do_lewi = true; return f; }
// v = {die at, arguments}
static Msg handle(const Msg &m) {
    Msg r; i64 e = 0; cpu_set_t k; const i64 *a = m.v.data() + 1; points = 0; dieat = m.v[0]; victim = dieat > 0; deathnote = note; std::vector<i64> out;
    switch (m.op) {
        case INIT: i2m(a[1], &k); e = DLB_Init((int)a[0], a[2] ? &k : nullptr, m.s.c_str()); victim = false; if (e == 0) { inited = true; told = a[1]; toldn = a[0];
            DLB_CallbackSet(dlb_callback_enable_cpu, (dlb_callback_t)cb_en, nullptr); DLB_CallbackSet(dlb_callback_disable_cpu, (dlb_callback_t)cb_dis, nullptr); if (a[3]) { DLB_CallbackSet(dlb_callback_enable_cpu_set, (dlb_callback_t)cb_ens, nullptr); DLB_CallbackSet(dlb_callback_disable_cpu_set, (dlb_callback_t)cb_diss, nullptr); } DLB_CallbackSet(dlb_callback_set_num_threads, (dlb_callback_t)cb_num, nullptr); DLB_CallbackSet(dlb_callback_set_process_mask, (dlb_callback_t)cb_mask, nullptr); } break;
        case FIN: e = DLB_Finalize(); inited = false; break;
        case LEND: { { std::lock_guard<std::mutex> g(tm); told = 0; } e = DLB_Lend(); break; } case RECLAIM: e = DLB_Reclaim(); break; case BORROW: e = DLB_Borrow(); break; case RETURN: e = DLB_Return(); break;
        case ACQ: e = DLB_AcquireCpus((int)a[0]); break; case DELREQ: e = DLB_AcquireCpus(DLB_DELETE_REQUESTS); break;
        case LENDCPU: { { std::lock_guard<std::mutex> g(tm); told &= ~(1ll << a[0]); } e = DLB_LendCpu((int)a[0]); break; } case BORROWCPU: e = DLB_BorrowCpu((int)a[0]); break;
        case INTO: into_sync_call(fl()); break; case OUT: out_of_sync_call(fl()); break;
        case POLL: { cpu_set_t x; int nc; e = DLB_PollDROM(&nc, &x); if (e == 0) out.push_back(m2i(&x)); break; }
        case REGSTART: { char s[32]; snprintf(s, sizeof s, "r%ld", (long)a[0]); auto *h = DLB_MonitoringRegionRegister(s); e = h ? DLB_MonitoringRegionStart(h) : -99; break; }
        case REGSTOP: { char s[32]; snprintf(s, sizeof s, "r%ld", (long)a[0]); auto *h = DLB_MonitoringRegionRegister(s); e = h ? DLB_MonitoringRegionStop(h) : -99; break; }
        case BARRIER: e = DLB_Barrier(); break;
        case DIE: victim = true; die(0, false); break;
        case STAT: if (async_ && inited) shmem_async_wait_for_completion(thread_spd->id); break;
        case DPIDS: case TPIDS: { int p[64], n = 0; e = m.op == DPIDS ? DLB_DROM_Attach() : DLB_TALP_Attach(); if (e) break; e = m.op == DPIDS ? DLB_DROM_GetPidList(p, &n, 64) : DLB_TALP_GetPidList(p, &n, 64); for (int i = 0; i < n; ++i) out.push_back(p[i]); if (m.op == DPIDS) DLB_DROM_Detach(); else DLB_TALP_Detach(); break; }
        case GETMASK: DLB_DROM_Attach(); e = DLB_DROM_GetProcessMask((int)a[0], &k, (dlb_drom_flags_t)0); out.push_back(m2i(&k)); DLB_DROM_Detach(); break;
        case SETMASK: DLB_DROM_Attach(); i2m(a[1], &k); e = DLB_DROM_SetProcessMask((int)a[0], &k, a[2] ? DLB_STEAL_CPUS : (dlb_drom_flags_t)0); DLB_DROM_Detach(); break;
        case NODETIMES: { dlb_node_times_t t[64]; int n = 0; DLB_TALP_Attach(); e = DLB_TALP_GetNodeTimes(m.s.c_str(), t, &n, 64); for (int i = 0; i < n; ++i) out.push_back(t[i].pid); DLB_TALP_Detach(); break; }
        case PRINT: { int fd = memfd_create("prn", 0); fflush(stderr); int save = dup(2); dup2(fd, 2); e = DLB_PrintShmem(0, (dlb_printshmem_flags_t)0); fflush(stderr); dup2(save, 2); close(save); r.s.resize(lseek(fd, 0, SEEK_END)); if (pread(fd, &r.s[0], r.s.size(), 0) < 0) r.s.clear(); close(fd); break; }
    }
    victim = false; r.v = {e, points}; { std::lock_guard<std::mutex> g(tm); r.v.push_back(told); r.v.push_back(toldn); } r.v.insert(r.v.end(), out.begin(), out.end()); return r;
}
struct Pr { bool in = false, dead = false, clean = true, blk = false; i64 mask = 0, old = 0; int nc = 0; std::vector<int> regs; };
struct End {};
struct World {
    Ctx &c; rpc::Pool P; std::vector<Pr> q; int n = 0; bool mask = false, classic = false, count = false, async = false, drom = false, talp = false, bar = false, sets = false, setmask = false; std::string key, args; bool taint = false, pending = false, midcall = false; int deaths = 0, verified = 0, since = 0, exhausted = 0; std::string pidx(pid_t x) { for (size_t i = 0; i < q.size(); ++i) if (P.p[i].pid == x) return std::to_string(i) + (q[i].dead ? " (dead)" : ""); return "?"; }
    World(Ctx &cc) : c(cc), P(cc) { note = (volatile int *)__real_mmap64(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
    std::vector<int> live() { std::vector<int> r; for (size_t i = 0; i < q.size(); ++i) if (q[i].in && !q[i].dead) r.push_back(i); return r; }
    i64 all() { return (1ll << n) - 1; } i64 owned() { i64 r = 0; for (int i : live()) r |= q[i].mask | q[i].old; return r; } int used() { int r = 0; for (int i : live()) r += q[i].nc; return r; }
    bool post(int i, const Msg &m) { return rpc::put(P.p[i].fd, m); }
    // false: the process died (it was meant to)
    bool get(int i, Msg &r, const char *what, bool may) {
        if (!P.ready(i, 20)) { fail_clean(); c.fail("hang: %s by process %d does not return", what, i); }
        if (rpc::get(P.p[i].fd, r)) return true;
        int st = 0; for (int k = 0; k < 2000 && waitpid(P.p[i].pid, &st, WNOHANG) == 0; ++k) usleep(2000); close(P.p[i].fd); P.p[i].dead = true; P.p[i].fd = -1;
        if (may && WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) return false;
        std::string e = pbt::Engine::slurp("/proc/self/fd/2", 6000); fail_clean(); if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT && (*note & 1) && !strcmp(what, "Init") && e.find("dlb_shm --delete") != std::string::npos) throw End(); c.fail("%s: process %d ended with status %x\n%s", what, i, st, e.c_str()); return false;
    }
    void fail_clean() { for (size_t i = 0; i < q.size(); ++i) if (!P.p[i].dead) P.kill9(i); for (auto &s : segments(key)) __real_shm_unlink(("/" + s).c_str()); }
    template <class... A> void check(bool ok, const char *f, A... a) { c.count(1); if (!ok) { fail_clean(); c.fail(f, a...); } }
    Msg call(int i, int op, std::vector<i64> a = {}, std::string s = "") { a.insert(a.begin(), 0); Msg r; char w[64]; snprintf(w, sizeof w, "%s", ON[op]); if (!post(i, Msg(op, a, s))) { get(i, r, w, false); } get(i, r, w, false); return r; }
    void dead(int i, const char *how) { c.note("process %d dies %s", i, how); q[i].dead = true; q[i].clean = false; pending = true; ++deaths; since = 0; }
    int newcomer(bool janitor = false, long dieat_ = 0) {
        i64 fr = all() & ~owned(), m = 0; int room = n - used(), nc = 0; if ((int)live().size() >= n) return -1; bool needmask = mask || drom; if (needmask && !fr) return -1; if (!needmask && room < 1) return -1;
        if (needmask) { if (janitor || c.chance(1, 3)) m = fr; else for (int k = 0; k < n; ++k) if ((fr >> k & 1) && c.flip()) m |= 1ll << k; if (!m) m = fr & -fr; }
        if (!m) m = 1; nc = janitor ? 1 : c.range(1, std::min(room, 6)); if (needmask) nc = __builtin_popcountll(m); bool as = async; int i = P.spawn([=](int) { async_ = as; return rpc::Handler(handle); }); q.push_back(Pr()); auto &p = q[i]; long at = dieat_;
        Msg r; char w[64]; snprintf(w, sizeof w, "Init"); check(post(i, Msg(INIT, {at, nc, m, needmask, sets}, args)), "harness: post"); bool ok = get(i, r, w, at > 0); if (!ok) { p.in = true; char t[64]; snprintf(t, sizeof t, "inside Init (point %ld, CPUs %lx)", at, (long)m); dead(i, t); midcall = true; if (bar) taint = true; p.mask = 0; p.nc = 0; return i; }
        c.note("process %d: Init with %s%lx -> %ld", i, needmask ? "CPUs " : "number of CPUs ", needmask ? (long)m : (long)nc, (long)r.v[0]); check(r.v[0] == 0, "Init returned %ld", (long)r.v[0]); p.in = true; p.mask = needmask ? m : 0; p.nc = nc; if (pending) { pending = false; since = 1; for (auto &x : q) if (x.dead) x.clean = true; } return i;
    }
    void fin(int i, long at = 0) { auto &p = q[i]; char w[32] = "Finalize"; Msg r; post(i, Msg(FIN, {at})); if (!get(i, r, w, at > 0)) { char t[64]; snprintf(t, sizeof t, "inside Finalize (point %ld)", at); dead(i, t); midcall = true; if (bar) taint = true; return; } c.note("process %d: Finalize -> %ld", i, (long)r.v[0]); check(r.v[0] == 0, "Finalize returned %ld", (long)r.v[0]); p.in = false; if (live().empty() && segments(key).empty()) { taint = midcall = false; } }
    void settle() { if (async) for (int i : live()) call(i, STAT); }
    void op(int i, int o, long at = 0) {
        auto &p = q[i]; std::vector<i64> a; switch (o) { case ACQ: a = {c.range(1, n)}; break; case LENDCPU: case BORROWCPU: a = {c.range(0, n - 1)}; break; case REGSTART: { int k = c.range(0, 5); a = {k}; break; } case REGSTOP: a = {c.range(0, 5)}; break; case INTO: if (p.blk) o = OUT; break; case OUT: if (!p.blk) o = INTO; break; }
        a.insert(a.begin(), at); Msg r; char w[64]; snprintf(w, sizeof w, "%s", ON[o]); post(i, Msg(o, a)); if (!get(i, r, w, at > 0)) { char t[96]; snprintf(t, sizeof t, "inside %s (point %ld)", ON[o], at); dead(i, t); midcall = true; return; }
        if (o == INTO) p.blk = true; if (o == OUT) p.blk = false; c.note("process %d: %s%s -> %ld", i, ON[o], a.size() > 1 ? ("(" + std::to_string(a[1]) + ")").c_str() : "", (long)r.v[0]);
        static const std::set<i64> okv = {0, DLB_NOUPDT, DLB_NOTED, DLB_ERR_PERM, DLB_ERR_REQST, DLB_ERR_NOCOMP, DLB_ERR_NOPOL, DLB_ERR_DISBLD, DLB_ERR_NOTED_}; check(okv.count(r.v[0]), "%s returned %ld", ON[o], (long)r.v[0]);
    }
    enum { DLB_ERR_NOTED_ = 12345 };
    // the processes that are alive agree on who is there, and may use every CPU
    void verify() {
        auto L = live(); if (L.empty() || pending) return; ++verified; int obs = c.pick(L); std::set<i64> lp; for (int i : L) lp.insert(P.p[i].pid);
        auto pidset = [&](Msg &r, const char *w) { check(r.v[0] == 0, "%s returned %ld", w, (long)r.v[0]); std::set<i64> g(r.v.begin() + 4, r.v.end()); for (i64 x : g) check(lp.count(x), "%s lists process %s, which is not there", w, pidx(x).c_str()); check(g.size() == lp.size(), "%s lists %zu of %zu processes", w, g.size(), lp.size()); };
        if (mask || drom) { auto r = call(obs, DPIDS); pidset(r, "DROM_GetPidList"); for (int i : L) { auto g = call(obs, GETMASK, {P.p[i].pid}); check(g.v[0] == 0 || g.v[0] == DLB_NOTED, "DROM_GetProcessMask of process %d returned %ld", i, (long)g.v[0]); check(g.v[4] == q[i].mask, "the mask of process %d is %lx, expected %lx", i, (long)g.v[4], (long)q[i].mask); } for (size_t i = 0; i < q.size(); ++i) if (q[i].dead) { auto g = call(obs, GETMASK, {P.p[i].pid}); check(g.v[0] == DLB_ERR_NOPROC, "DROM_GetProcessMask of dead process %zu returned %ld", i, (long)g.v[0]); } }
        if (talp) { auto r = call(obs, TPIDS); pidset(r, "TALP_GetPidList"); for (const char *nm : {"Global", "r0", "r1"}) { auto t = call(obs, NODETIMES, {}, nm); if (t.v[0] == DLB_ERR_NOENT) continue; check(t.v[0] == 0, "TALP_GetNodeTimes returned %ld", (long)t.v[0]); std::set<i64> want; for (int i : L) if (!strcmp(nm, "Global") || std::count(q[i].regs.begin(), q[i].regs.end(), nm[1] - '0')) want.insert(P.p[i].pid); std::set<i64> g(t.v.begin() + 4, t.v.end()); for (i64 x : g) check(lp.count(x), "TALP_GetNodeTimes(%s) lists process %s", nm, pidx(x).c_str()); check(g.size() == t.v.size() - 4, "TALP_GetNodeTimes(%s) lists a process twice", nm); } }
        { auto r = call(obs, PRINT); check(r.v[0] == 0, "PrintShmem returned %ld", (long)r.v[0]); for (size_t i = 0; i < q.size(); ++i) if (q[i].dead || !q[i].in) { std::string d = std::to_string(P.p[i].pid); size_t at = 0; while ((at = r.s.find(d, at)) != std::string::npos) { bool b = at && isalnum(r.s[at - 1]), e = at + d.size() < r.s.size() && isalnum(r.s[at + d.size()]); if (!b && !e) check(false, "the registry shows process %zu, which is not there:\n%s", i, r.s.c_str()); ++at; } } }
        if (mask || count) {
            for (int i : L) if (q[i].blk) op(i, OUT); if (async) for (int i : L) call(i, DELREQ); settle(); for (int k = 0; k < 2; ++k) { for (int i : L) call(i, LEND); settle(); }
            auto back = [&](const char *w) { for (int i : L) { call(i, RECLAIM); settle(); } if (!async) for (int i : L) { call(i, RETURN); call(i, RECLAIM); } settle(); std::map<int, Msg> st; for (int i : L) st[i] = call(i, STAT); for (int i : L) if (mask) check(st[i].v[2] == q[i].mask, "%s: process %d reclaims its CPUs and has %lx, expected %lx", w, i, (long)st[i].v[2], (long)q[i].mask); else if (q[i].nc > 1) check(st[i].v[3] == q[i].nc, "%s: process %d reclaims its CPUs and has %ld, expected %d", w, i, (long)st[i].v[3], q[i].nc); };
            back("everybody lends"); int x = c.pick(L); for (int i : L) if (i != x) call(i, LEND); settle(); auto rb = call(x, BORROW); settle(); auto st = call(x, STAT); c.note("process %d borrows all CPUs -> %ld", x, (long)rb.v[0]);
            if (mask) { i64 t = owned(); check((st.v[2] & t) == t, "the others lend and process %d borrows: it has %lx, the processes have %lx", x, (long)st.v[2], (long)t); check(st.v[2] == t, "process %d borrows CPUs of nobody: it has %lx, the processes have %lx", x, (long)st.v[2], (long)t); }
            else { int t = used() - ((int)L.size() - 1); if (L.size() > 1 && t > q[x].nc) check(st.v[3] == t, "the others lend and process %d borrows: it has %ld CPUs, expected %d", x, (long)st.v[3], t); }
            call(x, LEND); if (async) call(x, DELREQ); settle(); back("one process borrows everything and lends it"); if (async) for (int i : L) call(i, DELREQ); settle(); c.label("all CPUs used by one process"); }
        if (bar && !taint) { for (int i : L) post(i, Msg(BARRIER, {0})); for (int i : L) { Msg r; get(i, r, "Barrier of all the processes", false); check(r.v[0] == 0, "Barrier returned %ld", (long)r.v[0]); } c.label("barrier"); }
    }
    void setmasks() {
        auto L = live(); int a = c.pick(L), t = c.pick(L); if (pending) return; i64 fr = all() & ~owned(), m = 0; for (int k = 0; k < n; ++k) if (((fr | q[t].mask) >> k & 1) && c.flip()) m |= 1ll << k; if (!m) return; auto r = call(a, SETMASK, {P.p[t].pid, m, 0});
        c.note("process %d: DROM_SetProcessMask of process %d to %lx -> %ld", a, t, (long)m, (long)r.v[0]); if (r.v[0] == 0 || r.v[0] == DLB_NOTED) { if (r.v[0] == 0 && m != q[t].mask) q[t].old |= q[t].mask; q[t].mask = m; c.label("mask changed by DROM"); if (c.flip()) { q[t].old = 0; auto z = call(t, POLL); c.note("process %d: PollDROM -> %ld", t, (long)z.v[0]); } }
        else { check(r.v[0] == DLB_ERR_PDIRTY || r.v[0] == DLB_NOUPDT, "DROM_SetProcessMask returned %ld", (long)r.v[0]); }
    }
    void run() {
        n = c.oneof<int>({2, 3, 4, 6, 10}); key = c.key; int k = c.weighted({4, 4, 4, 1, 2}); mask = k == 0 || k == 1; async = k == 1 || k == 2; count = k == 2; classic = k == 3; drom = !count && !classic && c.flip(); talp = c.chance(1, 2); bar = c.chance(1, 2); sets = c.flip(); setmask = k == 4 && drom; if (k == 4 && !drom && !talp && !bar) talp = true;
        mu_testing_set_sys_size(n); unsetenv("DLB_ARGS"); args = "--shm-key=" + key + " --quiet=yes --lewi=" + (k < 4 ? "yes" : "no") + (count || classic ? " --lewi-affinity=none" : "") + " --mode=" + (async ? "async" : "polling") + " --drom=" + (drom ? "yes" : "no") + " --talp=" + (talp ? "yes --talp-external-profiler=yes --talp-summary=none" : "no") + " --barrier=" + (bar ? "yes" : "no");
        setenv("DLB_ARGS", ("--shm-key=" + key + " --quiet=yes").c_str(), 1); static const char *kn[] = {"LeWI", "LeWI async", "LeWI async without affinity", "LeWI without affinity", "no LeWI"}; c.note("node of %d CPUs, %s%s%s%s", n, kn[k], drom ? ", DROM" : "", talp ? ", TALP" : "", bar ? ", barrier" : ""); c.label(kn[k]);
        int steps = c.len(6, 40); for (int s = 0; s < steps && q.size() < 40; ++s) {
            auto L = live(); int w = L.empty() ? 0 : c.weighted({3, 8, 1, 3, 2}); bool dies = c.chance(1, 4);
            if (w == 0) { newcomer(false, dies && !classic && c.chance(1, 3) ? c.range(1, 60) : 0); if (since && c.chance(2, 3)) { verify(); since = 0; } }
            else if (w == 1) { int i = c.pick(L); std::vector<int> ops; if (mask || count || classic) { ops = {LEND, RECLAIM, BORROW, RECLAIM, INTO}; if (mask) { ops.insert(ops.end(), {LENDCPU, BORROWCPU, RETURN}); } if (async) ops.insert(ops.end(), {ACQ, ACQ}); } if (drom && !setmask) ops.push_back(POLL); if (talp) ops.insert(ops.end(), {REGSTART, REGSTOP}); if (setmask && c.flip()) { setmasks(); continue; } if (ops.empty()) continue; op(i, c.pick(ops), dies ? c.range(1, 12) : 0); }
            else if (w == 2) fin(c.pick(L), dies && !classic ? c.range(1, 60) : 0);
            else if (w == 3) { int i = c.pick(L); Msg r; post(i, Msg(DIE, {0})); get(i, r, "", true); dead(i, "between calls"); if (q[i].blk) c.label("death in a blocking call"); }
            else { if (since || c.chance(1, 4)) { verify(); since = 0; } }
        }
        // everybody leaves; if somebody died since the last one attached, one more process attaches and leaves
        if (pending && c.flip()) { if (newcomer() >= 0 && !pending) verify(); } auto L = live(); for (int i = (int)L.size(); i > 1; --i) std::swap(L[i - 1], L[c.draw(i)]); for (int i : L) { if (q[i].blk) op(i, OUT); fin(i); }
        if (pending) { int j = newcomer(true); check(j >= 0, "harness: janitor"); if (c.flip()) verify(); fin(j); }
        auto sg = segments(key); if (!sg.empty()) { fail_clean(); c.fail("everybody has left and segment %s exists", sg[0].c_str()); } c.count(verified * 10); if (deaths && verified) c.nontrivial(); if (deaths > n) c.label("more deaths than CPUs");
    }
};
}
static void api(Ctx &c) { capi::World w(c); try { w.run(); } catch (capi::End &) { c.label("told to delete"); c.nontrivial(); } }
