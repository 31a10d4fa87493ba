// C13 / C14: node barriers, several real processes, against a model of the registered barriers.
#include "rpc.hpp"
#include <sys/mman.h>
extern "C" {
#include "apis/dlb.h"
#include "LB_core/spd.h"
#include "LB_comm/shmem_barrier.h"
#include "LB_comm/shmem_cpuinfo.h"
#include "support/mask_utils.h"
int __real_pthread_getaffinity_np(pthread_t, size_t, cpu_set_t *);
}
extern "C" void yrt_set(int, int, unsigned) __attribute__((weak)); // present when the library is built to delay its memory accesses
using pbt::Ctx; using rpc::Msg; typedef int64_t i64;
static cpu_set_t g_aff; static bool use_aff;
extern "C" int __wrap_pthread_getaffinity_np(pthread_t t, size_t n, cpu_set_t *s) { if (use_aff) { memcpy(s, &g_aff, std::min(n, sizeof g_aff)); return 0; } return __real_pthread_getaffinity_np(t, n, s); }
static i64 now_ns() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000ll + t.tv_nsec; }
static void nap(i64 ns) { if (ns <= 0) return; timespec t = {0, (long)ns}; nanosleep(&t, 0); }

enum { INIT = 1, FIN, REG, ATT, DET, BAR, BURST };
static std::vector<void *> hs;                    // handles of this process
static int hid(void *p) { for (size_t i = 0; i < hs.size(); ++i) if (hs[i] == p) return i; hs.push_back(p); return hs.size() - 1; }
static int bar(i64 h) { return h < 0 ? DLB_Barrier() : DLB_BarrierNamed((dlb_barrier_t *)hs[h]); }
static int att(i64 h) { return h < 0 ? DLB_BarrierAttach() : DLB_BarrierNamedAttach((dlb_barrier_t *)hs[h]); }
static int det(i64 h) { return h < 0 ? DLB_BarrierDetach() : DLB_BarrierNamedDetach((dlb_barrier_t *)hs[h]); }
static Msg handle(const Msg &m) {
    Msg r; switch (m.op) {
        case INIT: { cpu_set_t s; CPU_ZERO(&s); if (m.v[0] >= 0) CPU_SET(m.v[0], &s); g_aff = s; use_aff = true; r.v = {DLB_Init(0, &s, m.s.c_str())}; break; }
        case FIN: r.v = {DLB_Finalize()}; break;
        case REG: { void *p = m.v[1] ? (void *)DLB_BarrierNamedGet(m.s.c_str(), (dlb_barrier_flags_t)m.v[0]) : (void *)DLB_BarrierNamedRegister(m.s.c_str(), (dlb_barrier_flags_t)m.v[0]); r.v = {p ? hid(p) : -1}; break; }
        case ATT: r.v = {att(m.v[0])}; break;
        case DET: r.v = {det(m.v[0])}; break;
        case BAR: { i64 a = now_ns(); int e = bar(m.v[0]); i64 b = now_ns(); r.v = {e, a, b}; break; }
        case BURST: { // rounds back to back, then maybe leave
            unsigned x = m.v[3]; r.v = {0, 0}; for (int k = 0; k < m.v[1]; ++k) { x = x * 1664525u + 1013904223u; if ((x >> 24) < m.v[4]) nap((x >> 8 & 0x1ff) * 200); i64 a = now_ns(); int e = bar(m.v[0]); i64 b = now_ns(); if (e) r.v[0] = e; r.v.push_back(a); r.v.push_back(b); }
            if (m.v[2]) r.v[1] = det(m.v[0]); break; }
    }
    return r;
}
struct Slot { std::string name; std::set<int> in; bool lewi; unsigned times = 0; long born; };
struct Peer { bool init = false, enabled = false, lewi = false, lb = false; int id = 0; std::string sel; i64 def = -1; std::map<int, long> h; std::set<long> mine; };
static std::string g_prop;
static bool listed(const std::string &l, const std::string &n) { size_t p = 0; while (p <= l.size()) { size_t e = l.find(',', p); if (e == std::string::npos) e = l.size(); if (e > p && l.substr(p, e - p) == n) return true; p = e + 1; } return false; }

struct World {
    Ctx &c; rpc::Pool P; int n = 0; std::vector<Peer> q; std::map<long, Slot> sl; long uid = 0; int rounds = 0, changes = 0; std::set<long> dead_after; std::map<long, long> died;
    World(Ctx &cc) : c(cc), P(cc) {}
    std::string dname(int i) { return q[i].id ? "default (id: " + std::to_string(q[i].id) + ")" : "default"; }
    long find(const std::string &nm) { for (auto &s : sl) if (s.second.name == nm) return s.first; return -1; }
    bool wants_lewi(int i, bool def, const std::string &nm, int flags) { auto &p = q[i]; if (def || nm == "default") return p.sel.empty() ? p.lb : listed(p.sel, "default"); if (flags == DLB_BARRIER_LEWI_ON) return true; if (flags == DLB_BARRIER_LEWI_OFF) return false; return listed(p.sel, nm); }
    long join(int i, const std::string &nm, bool def, int flags) { long s = find(nm); if (s < 0) { if ((int)sl.size() >= n) return -1; s = ++uid; sl[s] = Slot{nm, {}, wants_lewi(i, def, nm, flags), 0, uid}; } sl[s].in.insert(i); q[i].mine.insert(s); return s; }
    int leave(int i, long s) { auto &x = sl[s]; x.in.erase(i); q[i].mine.erase(s); int k = x.in.size(); if (!k) { sl.erase(s); died[s] = ++uid; } return k; }
    struct Line { std::string name; int part, blocked, times; };
    std::vector<Line> print() {
        std::vector<Line> r; int fd = memfd_create("bar", 0); fflush(stderr); int save = dup(2); dup2(fd, 2); shmem_barrier__print_info(c.key.c_str()); fflush(stderr); dup2(save, 2); close(save);
        std::string t; t.resize(lseek(fd, 0, SEEK_END)); pread(fd, &t[0], t.size(), 0); close(fd); size_t pos = 0; bool on = false;
        while (pos < t.size()) { size_t e = t.find('\n', pos); if (e == std::string::npos) e = t.size(); std::string l = t.substr(pos, e - pos); pos = e + 1; if (l.find("Barrier Name") != std::string::npos) { on = true; continue; } size_t a = l.find("| "); if (!on || a == std::string::npos) continue;
            std::vector<size_t> bars; for (size_t k = 0; k < l.size(); ++k) if (l[k] == '|') bars.push_back(k); if (bars.size() < 5) continue; size_t z = bars.size(); Line x; x.name = l.substr(a + 2, bars[z - 4] - 1 - (a + 2)); while (x.name.size() && x.name[0] == ' ' && x.name.size() > 0) x.name.erase(0, 1);
            x.part = atoi(l.c_str() + bars[z - 4] + 1); x.blocked = atoi(l.c_str() + bars[z - 3] + 1); x.times = atoi(l.c_str() + bars[z - 2] + 1); r.push_back(x); }
        return r;
    }
    bool any() { for (auto &p : q) if (p.enabled) return true; return false; }
    void verify(const char *w) {
        if (!any()) return;
        auto v = print(); std::map<std::string, Line> m; for (auto &l : v) { PCHECK(c, !m.count(l.name), "%s: barrier '%s' is registered twice", w, l.name.c_str()); m[l.name] = l; }
        for (auto &s : sl) { PCHECK(c, m.count(s.second.name), "%s: barrier '%s' is not registered", w, s.second.name.c_str()); auto &l = m[s.second.name]; PCHECK(c, l.part == (int)s.second.in.size(), "%s: barrier '%s' has %d participants, expected %zu", w, l.name.c_str(), l.part, s.second.in.size());
            PCHECK(c, l.times == (int)s.second.times, "%s: barrier '%s' was completed %d times, expected %u", w, l.name.c_str(), l.times, s.second.times); bool pe = false; for (long x : pend) pe |= x == s.first; if (pe) PCHECK(c, l.blocked >= 0 && l.blocked <= (int)s.second.in.size(), "%s: %d processes blocked in barrier '%s'", w, l.blocked, l.name.c_str()); else PCHECK(c, l.blocked == 0, "%s: %d processes blocked in barrier '%s'", w, l.blocked, l.name.c_str()); m.erase(s.second.name); }
        for (auto &l : m) c.fail("%s: barrier '%s' should not exist", w, l.first.c_str());
    }
    // state of each CPU: 0 off, 1 busy, 2 lent
    std::vector<int> cpus() { std::vector<int> r(n, 0); int fd = memfd_create("cpu", 0); fflush(stderr); int save = dup(2); dup2(fd, 2); shmem_cpuinfo__print_info(c.key.c_str(), 0, 1, (dlb_printshmem_flags_t)0); fflush(stderr); dup2(save, 2); close(save);
        std::string t; t.resize(lseek(fd, 0, SEEK_END)); pread(fd, &t[0], t.size(), 0); close(fd); size_t pos = 0; while (pos < t.size()) { size_t e = t.find('\n', pos); if (e == std::string::npos) e = t.size(); std::string l = t.substr(pos, e - pos); pos = e + 1; int cp, o, g; char st[8]; if (sscanf(l.c_str(), " %d [ %d / %d / %4s ]", &cp, &o, &g, st) == 4 && cp >= 0 && cp < n) r[cp] = !strcmp(st, "off") ? 0 : !strcmp(st, "busy") || !strcmp(st, "recl") ? 1 : 2; } return r; }
    i64 slotof(int i, i64 h) { return h < 0 ? q[i].def : q[i].h[h]; }
    i64 handle_of(int i, long s) { if (q[i].def == s) return -1; for (auto &x : q[i].h) if (x.second == s) return x.first; return -2; }
    std::string hn(int i, i64 h) { long s = slotof(i, h); return h < 0 ? "default" : sl.count(s) ? sl[s].name : "(gone)"; }

    void init(int i) {
        auto &p = q[i]; p = Peer(); p.init = true; p.enabled = c.chance(5, 6); p.id = c.weighted({6, 1, 1}); p.lewi = c.flip(); p.lb = c.flip();
        if (c.flip()) { static const char *pool[] = {"default", "a", "b", "barrier_one", "x y"}; int k = c.range(1, 3); for (int a = 0; a < k; ++a) p.sel += (a ? "," : "") + std::string(c.oneof<const char *>({pool[0], pool[1], pool[2], pool[3]})); }
        std::string args = "--shm-key=" + c.key + " --quiet=yes --barrier=" + (p.enabled ? "yes" : "no") + " --lewi=" + (p.lewi ? "yes" : "no") + " --lewi-barrier=" + (p.lb ? "yes" : "no") + (p.id ? " --barrier-id=" + std::to_string(p.id) : "") + (p.sel.empty() ? "" : " --lewi-barrier-select=" + p.sel);
        p.lewi = p.lewi && i < n; auto r = P.call(i, Msg(INIT, {i < n ? i : -1}, args)); c.note("process %d: Init %s -> %ld", i, args.c_str() + args.find("--barrier"), (long)r.v[0]); PCHECK(c, r.v[0] == DLB_SUCCESS, "Init returned %ld", (long)r.v[0]);
        if (p.enabled) p.def = join(i, dname(i), true, 0); if (p.enabled && p.def < 0) c.label("no room for the default barrier");
    }
    void fin(int i) { auto r = P.call(i, Msg(FIN)); c.note("process %d: Finalize -> %ld", i, (long)r.v[0]); PCHECK(c, r.v[0] == DLB_SUCCESS, "Finalize returned %ld", (long)r.v[0]); auto m = q[i].mine; for (long s : m) leave(i, s); q[i].init = q[i].enabled = false; q[i].def = -1; q[i].mine.clear(); }
    std::string aname() { switch (c.weighted({8, 2, 1, 1, 1})) { case 0: return c.oneof<const char *>({"a", "b", "barrier_one", "x y", "n|1"}); case 1: { std::string s(30, 'k'); s += c.oneof<char>({'1', '2'}); return s; } case 2: return "default"; case 3: return "default (id: 1)"; default: return std::string(c.range(1, 31), 'z'); } }
    void reg(int i, const std::string &nm, int flags) {
        auto &p = q[i]; long ex; bool self = nm == dname(i) ; int before = -9; long s0 = find(nm); if (s0 >= 0 && sl[s0].in.count(i)) for (auto &x : p.h) if (x.second == s0) before = x.first;
        if (!p.enabled || self) ex = -1; else if (s0 >= 0 && sl[s0].in.count(i)) ex = s0; else ex = join(i, nm, false, flags);
        auto r = P.call(i, Msg(REG, {flags, c.flip()}, nm)); c.note("process %d: register '%s' flags %d -> handle %ld", i, nm.c_str(), flags, (long)r.v[0]);
        if (ex < 0) { PCHECK(c, r.v[0] < 0, "registering '%s' should fail%s", nm.c_str(), self ? " (default barrier)" : ""); c.label(self ? "default name refused" : p.enabled ? "full" : "disabled"); return; }
        PCHECK(c, r.v[0] >= 0, "registering '%s' failed", nm.c_str()); if (before != -9) PCHECK(c, r.v[0] == before, "registering '%s' again returned another barrier", nm.c_str());
        for (auto &x : p.h) if (x.first == r.v[0] && x.second != ex && sl.count(x.second) && sl[x.second].in.count(i)) c.fail("barriers '%s' and '%s' are the same", nm.c_str(), sl[x.second].name.c_str());
        p.h[r.v[0]] = ex; ++changes;
    }
    bool ambiguous(int i, i64 h) { long s = q[i].h[h]; if (sl.count(s)) return false; for (auto &x : sl) if (x.second.born > died[s]) return true; return false; }
    int ex_att(int i, i64 h) { auto &p = q[i]; if (!p.enabled) return DLB_ERR_NOCOMP; if (h < 0) { if (p.def >= 0) return DLB_ERR_PERM; p.def = join(i, dname(i), true, 0); return p.def < 0 ? DLB_ERR_NOMEM : (int)sl[p.def].in.size(); } long s = p.h[h]; if (!sl.count(s) || sl[s].in.count(i)) return DLB_ERR_PERM; sl[s].in.insert(i); p.mine.insert(s); return sl[s].in.size(); }
    int ex_det(int i, i64 h) { auto &p = q[i]; if (!p.enabled) return DLB_ERR_NOCOMP; if (h < 0) { if (p.def < 0) return DLB_ERR_PERM; int k = leave(i, p.def); p.def = -1; return k; } long s = p.h[h]; if (!sl.count(s) || !sl[s].in.count(i)) return DLB_ERR_PERM; return leave(i, s); }
    void attach(int i, i64 h) { if (h >= 0 && ambiguous(i, h)) return; std::string nm = hn(i, h); int ex = ex_att(i, h); auto r = P.call(i, Msg(ATT, {h})); c.note("process %d: attach '%s' -> %ld", i, nm.c_str(), (long)r.v[0]); PCHECK(c, q[i].init ? r.v[0] == ex : r.v[0] < 0, "attach to '%s' returned %ld, expected %d", nm.c_str(), (long)r.v[0], ex); ++changes; }
    void detach(int i, i64 h) { if (h >= 0 && ambiguous(i, h)) return; std::string nm = hn(i, h); int ex = ex_det(i, h); auto r = P.call(i, Msg(DET, {h})); c.note("process %d: detach '%s' -> %ld", i, nm.c_str(), (long)r.v[0]); PCHECK(c, q[i].init ? r.v[0] == ex : r.v[0] < 0, "detach from '%s' returned %ld, expected %d", nm.c_str(), (long)r.v[0], ex); ++changes; }
    i64 anyh(int i) { if (q[i].h.empty() || c.chance(1, 3)) return -1; auto it = q[i].h.begin(); std::advance(it, c.draw(q[i].h.size())); return it->first; }
    long anyslot() { if (sl.empty()) return -1; auto it = sl.begin(); std::advance(it, c.draw(sl.size())); return it->first; }

    void round(long s, int depth, const std::set<int> &away) {
        std::vector<int> o(sl[s].in.begin(), sl[s].in.end()); for (size_t k = o.size(); k > 1; --k) std::swap(o[k - 1], o[c.draw(k)]); bool lewi = sl[s].lewi; std::string nm = sl[s].name; std::set<int> aw = away; aw.insert(o.begin(), o.end()); pend.push_back(s);
        std::string ord; for (int i : o) ord += " " + std::to_string(i); c.note("round of '%s', entering:%s", nm.c_str(), ord.c_str()); std::vector<int> in;
        for (size_t k = 0; k < o.size(); ++k) {
            int i = o[k]; if (k) { if (c.chance(1, 3)) nap(c.range(1, 8) * 100000); for (int x : in) if (P.ready(x, 0)) c.fail("process %d left barrier '%s' before process %d entered", x, nm.c_str(), i); }
            if (k && c.chance(1, 4)) { // wait until they are blocked
                double t0 = pbt::now_s(); for (;;) { int b = -1; for (auto &l : print()) if (l.name == nm) b = l.blocked; if (b == (int)k) break; PCHECK(c, b <= (int)k, "%d processes in barrier '%s', expected at most %zu", b, nm.c_str(), k); if (pbt::now_s() - t0 > 10) c.fail("hang: %d of %zu processes blocked in '%s'", b, k, nm.c_str()); usleep(100); }
                bool lw = false; for (int x : in) lw |= q[x].lewi; if (lw) { c.label(lewi ? "LeWI barrier" : "barrier without LeWI"); for (int x : in) if (q[x].lewi) { double t1 = pbt::now_s(); for (;;) { int st = cpus()[x]; if (st == (lewi ? 2 : 1)) break; if (!lewi || pbt::now_s() - t1 > 5) c.fail("process %d waits in barrier '%s' (%s LeWI) and its CPU is %s", x, nm.c_str(), lewi ? "with" : "without", st == 2 ? "lent" : st ? "busy" : "off"); usleep(200); } } }
            }
            if (k && depth < 2 && c.chance(1, 3)) { other(aw, s, depth); verify("call on other barrier"); for (int x : in) if (P.ready(x, 0)) c.fail("process %d left barrier '%s' early", x, nm.c_str()); }
            P.post(i, Msg(BAR, {handle_of(i, s)})); in.push_back(i);
        }
        i64 lastin = 0, firstout = INT64_MAX; for (int i : o) { auto r = P.wait(i); PCHECK(c, r.v[0] == DLB_SUCCESS, "barrier '%s' returned %ld", nm.c_str(), (long)r.v[0]); lastin = std::max(lastin, r.v[1]); firstout = std::min(firstout, r.v[2]); }
        PCHECK(c, firstout >= lastin, "barrier '%s': a process left %ld ns before the last one entered", nm.c_str(), (long)(lastin - firstout)); ++sl[s].times; ++rounds; pend.pop_back(); if (o.size() > 2) c.label("round of three or more");
        for (int i : o) if (q[i].lewi) { int st = cpus()[i]; PCHECK(c, st == 1, "after the barrier the CPU of process %d is %s", i, st == 2 ? "lent" : "off"); }
    }
    // a call by a process that is not in the barriers of a round
    void other(const std::set<int> &away, long s, int depth) {
        std::vector<int> v; for (size_t i = 0; i < q.size(); ++i) if (q[i].init && !away.count(i)) v.push_back(i); if (v.empty()) return; int i = c.pick(v); c.label("call during a round");
        auto touches = [&](i64 h) { return slotof(i, h) == s || (h < 0 && sl[s].name == dname(i)); };
        switch (c.range(0, 3)) {
            case 0: { std::string nm = aname(); if (nm == sl[s].name || pending_name(nm)) return; reg(i, nm, c.oneof<int>({DLB_BARRIER_LEWI_OFF, DLB_BARRIER_LEWI_ON, DLB_BARRIER_LEWI_RUNTIME})); return; }
            case 1: { i64 h = anyh(i); if (touches(h) || pending_slot(i, h)) return; attach(i, h); return; }
            case 2: { i64 h = anyh(i); if (touches(h) || pending_slot(i, h)) return; detach(i, h); return; }
            default: { long t = anyslot(); if (t < 0 || t == s) return; for (int x : sl[t].in) if (away.count(x)) return; round(t, depth + 1, away); return; }
        }
    }
    std::vector<long> pend; bool pending_name(const std::string &nm) { for (long s : pend) if (sl[s].name == nm) return true; return false; } bool pending_slot(int i, i64 h) { long s = slotof(i, h); for (long x : pend) if (x == s || (h < 0 && sl[x].name == dname(i))) return true; return false; }
    void burst(long s) {
        std::vector<int> o(sl[s].in.begin(), sl[s].in.end()); int k = c.range(2, 30); int leavers = 0; std::vector<int> lv; std::vector<i64> hh; for (int i : o) { bool l = c.chance(1, 5); lv.push_back(l); leavers += l; hh.push_back(handle_of(i, s)); } std::string nm = sl[s].name; int lazy = c.oneof<int>({0, 0, 20, 128}); c.note("%d rounds of '%s', %zu processes, %d leave at the end", k, nm.c_str(), o.size(), leavers);
        for (size_t a = 0; a < o.size(); ++a) P.post(o[a], Msg(BURST, {hh[a], k, lv[a], (i64)c.draw(1u << 31), lazy}));
        std::vector<Msg> r; for (int i : o) r.push_back(P.wait(i)); for (auto &m : r) PCHECK(c, m.v[0] == DLB_SUCCESS, "barrier '%s' returned %ld", nm.c_str(), (long)m.v[0]);
        for (int x = 0; x < k; ++x) { i64 li = 0, fo = INT64_MAX; for (auto &m : r) { li = std::max(li, m.v[2 + 2 * x]); fo = std::min(fo, m.v[3 + 2 * x]); } PCHECK(c, fo >= li, "round %d of %d of '%s': a process left %ld ns before the last one entered", x, k, nm.c_str(), (long)(li - fo)); }
        sl[s].times += k; rounds += k; int tot = o.size(); std::set<i64> got, want; for (size_t a = 0; a < o.size(); ++a) if (lv[a]) got.insert(r[a].v[1]); for (int a = 1; a <= leavers; ++a) want.insert(tot - a); std::string g; for (auto x : got) g += " " + std::to_string(x); PCHECK(c, got == want, "%d of %d participants detached at the same time and were told:%s", leavers, tot, g.c_str());
        for (size_t a = 0; a < o.size(); ++a) if (lv[a]) { if (hh[a] < 0) q[o[a]].def = -1; leave(o[a], s); }
        c.label("back-to-back rounds");
    }
    void together(bool reg_) { // several processes at the same time
        std::vector<int> v; if (reg_) { std::string nm = aname(); for (size_t i = 0; i < q.size(); ++i) if (q[i].enabled && nm != dname(i) && c.chance(2, 3)) v.push_back(i); if (v.size() < 2) return; bool newb = find(nm) < 0; bool full = newb && (int)sl.size() >= n; for (int i : v) { auto &p = q[i]; (void)p; }
            int fl = c.oneof<int>({DLB_BARRIER_LEWI_OFF, DLB_BARRIER_LEWI_ON}); c.note("%zu processes register '%s' at the same time", v.size(), nm.c_str()); for (int i : v) P.post(i, Msg(REG, {fl, 0}, nm)); std::vector<i64> h; for (int i : v) h.push_back(P.wait(i).v[0]);
            for (size_t a = 0; a < v.size(); ++a) { if (full) { PCHECK(c, h[a] < 0, "registering '%s' should fail", nm.c_str()); continue; } PCHECK(c, h[a] >= 0, "registering '%s' failed", nm.c_str()); long s = join(v[a], nm, false, fl); q[v[a]].h[h[a]] = s; } ++changes; c.label("concurrent registration"); return; }
        long s = anyslot(); if (s < 0) return; std::string nm = sl[s].name; bool in = c.flip(); std::vector<i64> hh;
        for (size_t i = 0; i < q.size(); ++i) { if (!q[i].enabled || !c.chance(3, 4)) continue; if (in) { if (sl[s].in.count(i)) continue; i64 h = -2; if (nm == dname(i)) h = -1; else for (auto &x : q[i].h) if (x.second == s) h = x.first; if (h == -2) continue; v.push_back(i); hh.push_back(h); } else if (sl[s].in.count(i)) { v.push_back(i); hh.push_back(handle_of(i, s)); } }
        if (v.size() < 2) return; int before = sl[s].in.size(); c.note("%zu processes %s '%s' at the same time", v.size(), in ? "attach to" : "detach from", nm.c_str()); for (size_t a = 0; a < v.size(); ++a) P.post(v[a], Msg(in ? ATT : DET, {hh[a]})); std::set<i64> got, want; for (int i : v) got.insert(P.wait(i).v[0]); for (size_t a = 1; a <= v.size(); ++a) want.insert(in ? before + a : before - a); std::string g; for (auto x : got) g += " " + std::to_string(x);
        PCHECK(c, got == want, "%zu processes %s '%s' (%d participants) and were told:%s", v.size(), in ? "attached to" : "detached from", nm.c_str(), before, g.c_str());
        for (size_t a = 0; a < v.size(); ++a) { if (in) { sl[s].in.insert(v[a]); q[v[a]].mine.insert(s); if (hh[a] < 0) q[v[a]].def = s; } else { if (hh[a] < 0) q[v[a]].def = -1; leave(v[a], s); } } ++changes; c.label(in ? "concurrent attach" : "concurrent detach");
    }
};
static void one(Ctx &c) {
    World w(c); int np = c.range(2, 4); int n = w.n = c.flip() ? np : c.range(np, 8); mu_testing_set_sys_size(n); w.q.resize(np); unsetenv("DLB_ARGS");
    for (int i = 0; i < np; ++i) { int yp = yrt_set ? c.oneof<int>({10, 40, 200}) : 0, ym = yrt_set ? c.oneof<int>({1, 20, 200}) : 1; unsigned ys = yrt_set ? (unsigned)c.draw(1u << 30) : 1; w.P.spawn([=](int) { if (yrt_set) yrt_set(yp, ym, ys); return [](const Msg &m) { return handle(m); }; }); }
    bool c13 = g_prop == "C13"; int steps = c.len(6, c13 ? 30 : 50); c.note("%d processes, room for %d barriers", np, n);
    for (int i = 0; i < np; ++i) if (c.chance(5, 6)) w.init(i);
    for (int st = 0; st < steps; ++st) {
        int i = c.range(0, np - 1); const char *what = ""; if (!w.q[i].init) { if (c.chance(2, 3)) { w.init(i); w.verify("Init"); continue; } }
        switch (c13 ? c.weighted({6, 2, 2, 10, 6, 1, 3, 1}) : c.weighted({10, 8, 8, 4, 1, 2, 5, 2})) {
            case 0: w.reg(i, w.aname(), c.oneof<int>({DLB_BARRIER_LEWI_OFF, DLB_BARRIER_LEWI_ON, DLB_BARRIER_LEWI_RUNTIME})); what = "register"; break;
            case 1: w.attach(i, w.anyh(i)); what = "attach"; break;
            case 2: w.detach(i, w.anyh(i)); what = "detach"; break;
            case 3: { long s = w.anyslot(); if (s < 0) break; w.round(s, 0, {}); what = "barrier"; break; }
            case 4: { long s = w.anyslot(); if (s < 0) break; w.burst(s); what = "barriers"; break; }
            case 5: if (w.q[i].init) { w.fin(i); what = "Finalize"; } break;
            case 6: w.together(c.flip()); what = "concurrent calls"; break;
            case 7: { i64 h = w.anyh(i); if (h >= 0 ? w.sl.count(w.q[i].h[h]) && w.sl[w.q[i].h[h]].in.count(i) : w.q[i].def >= 0) break; if (h >= 0 && w.ambiguous(i, h)) break; auto r = w.P.call(i, Msg(BAR, {h})); c.note("process %d: barrier '%s' (not attached) -> %ld", i, w.hn(i, h).c_str(), (long)r.v[0]); i64 ex = w.q[i].enabled ? DLB_NOUPDT : DLB_ERR_NOCOMP; PCHECK(c, w.q[i].init ? r.v[0] == ex : r.v[0] < 0, "barrier without participating returned %ld, expected %ld", (long)r.v[0], (long)ex); what = "barrier"; break; }
        }
        if (*what) w.verify(what);
    }
    for (int i = 0; i < np; ++i) if (w.q[i].init) { w.fin(i); w.verify("Finalize"); }
    std::string p = "/dev/shm/DLB_barrier_" + c.key; PCHECK(c, access(p.c_str(), F_OK), "%s remains", p.c_str());
    if (c13 ? w.rounds >= 3 : w.changes >= 5) c.nontrivial(); c.count(steps);
}
int main(int argc, char **argv) {
    g_prop = "C13"; std::vector<char *> a; for (int i = 0; i < argc; ++i) { if (!strcmp(argv[i], "--prop") && i + 1 < argc) { g_prop = argv[++i]; continue; } a.push_back(argv[i]); }
    pbt::Options o; o.property = g_prop.c_str(); o.quick_cases = 8000; o.thorough_cases = 200000; o.quick_cap_s = 60; o.case_timeout = 60; o.hang_is_violation = true;
    return pbt::run(a.size(), a.data(), o, one);
}
