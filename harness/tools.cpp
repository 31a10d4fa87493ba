// C28: the command-line tools. Two worlds (two registry keys) with the same processes: in world A the tools are
// run, in world B the equivalent library calls are made; afterwards both registries are compared.
#include "rpc.hpp"
#include <dirent.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <termios.h>
#include <pty.h>
extern "C" {
#include "apis/dlb.h"
#include "apis/dlb_drom.h"
#include "support/mask_utils.h"
}
using pbt::Ctx; using rpc::Msg; typedef int64_t i64; typedef std::vector<std::string> VS; typedef std::set<int> Set;
static VS TOOLS; static const char *TN[] = {"dlb_run", "dlb_taskset", "dlb_shm", "dlb", "child"}; enum { RUN, TASKSET, SHM, DLB, CHILD };
static void i2m(i64 v, cpu_set_t *s) { CPU_ZERO(s); for (int i = 0; i < 62; ++i) if (v >> i & 1) CPU_SET(i, s); }
static i64 m2i(const cpu_set_t *m) { i64 r = 0; for (int i = 0; i < 62; ++i) if (CPU_ISSET(i, m)) r |= 1ll << i; return r; }
static std::string cpus(i64 m) { std::string r; for (int i = 0; i < 62; ++i) if (m >> i & 1) r += (r.empty() ? "" : ",") + std::to_string(i); return r; }
static void become(int uid) { rlimit z = {0, 0}; setrlimit(RLIMIT_CORE, &z); if (setgid(uid) || setuid(uid)) _exit(97); }
static void setargs(const std::string &key) { setenv("DLB_ARGS", ((key.empty() ? std::string() : "--shm-key=" + key + " ") + "--quiet=yes").c_str(), 1); }
enum { INIT = 1, POLL, FIN, STATE, SETM, LAUNCH_T, LAUNCH_R, POSTFIN, GETPID };
static std::string ser(const VS &v) { std::string r; for (auto &s : v) { r += s; r.push_back('\0'); } return r; }
static VS des(const std::string &s) { VS r; for (size_t i = 0; i < s.size();) { r.push_back(s.c_str() + i); i += r.back().size() + 1; } return r; }
// processes of both worlds
static Msg handle(const Msg &m, const std::string &key) {
    Msg r; cpu_set_t k; int e = 0;
    switch (m.op) {
        case INIT: { i2m(m.v[0], &k); e = DLB_Init(0, &k, "--drom=yes"); r.v = {e}; break; }
        case POLL: { int n; CPU_ZERO(&k); e = DLB_PollDROM(&n, &k); r.v = {e, m2i(&k)}; break; }
        case FIN: r.v = {DLB_Finalize()}; break;
        case STATE: { e = DLB_DROM_Attach(); r.v = {e}; int p[64], n = 0; e = DLB_DROM_GetPidList(p, &n, 64); r.v.push_back(e); for (int i = 0; i < n; ++i) { CPU_ZERO(&k); e = DLB_DROM_GetProcessMask(p[i], &k, (dlb_drom_flags_t)0); r.v.insert(r.v.end(), {p[i], e, m2i(&k)}); } DLB_DROM_Detach(); break; }
        case SETM: { i2m(m.v[1], &k); DLB_DROM_Attach(); e = DLB_DROM_SetProcessMask((int)m.v[0], &k, (dlb_drom_flags_t)m.v[2]); DLB_DROM_Detach(); r.v = {e}; break; }
        // v = {mask, flags, steal?}; s = environment, arguments
        case LAUNCH_T: case LAUNCH_R: {
            VS a = des(m.s); int pi[2]; if (pipe(pi)) _exit(96); fflush(nullptr); pid_t pid = fork();
            if (!pid) {
                i2m(m.v[0], &k); sched_setaffinity(0, sizeof k, &k); clearenv(); size_t i = 0; for (; i < a.size() && a[i] != "--"; ++i) { auto q = a[i].find('='); setenv(a[i].substr(0, q).c_str(), a[i].substr(q + 1).c_str(), 1); } i++; std::vector<char *> av; for (; i < a.size(); ++i) av.push_back(&a[i][0]); av.push_back(nullptr);
                if (m.op == LAUNCH_T) { DLB_DROM_Attach(); int e = DLB_DROM_PreInit(getpid(), &k, (dlb_drom_flags_t)m.v[1], nullptr); DLB_DROM_Detach(); if (write(pi[1], &e, 4) != 4) _exit(9); if (e) _exit(1); execvp(av[0], av.data()); _exit(1); }
                int e = DLB_PreInit(&k, nullptr); if (write(pi[1], &e, 4) != 4) _exit(9); if (e) _exit(1); pid_t c = fork(); if (!c) { execvp(av[0], av.data()); _exit(1); } int st; waitpid(c, &st, 0); DLB_Finalize(); _exit(WIFSIGNALED(st) ? 128 + WTERMSIG(st) : WEXITSTATUS(st));
            }
            close(pi[1]); int st; if (read(pi[0], &e, 4) != 4) e = -999; close(pi[0]); r.v = {e, pid}; if (m.v[2]) { waitpid(pid, &st, 0); if (m.op == LAUNCH_T) { DLB_DROM_Attach(); DLB_DROM_PostFinalize(pid, m.v[1] & DLB_RETURN_STOLEN ? DLB_RETURN_STOLEN : (dlb_drom_flags_t)0); DLB_DROM_Detach(); } r.v.push_back(st); } break;
        }
        case GETPID: r.v = {getpid()}; break;
    }
    return r;
}
struct Res { int st; std::string out, err; };
struct Pr { int a, b; bool live = true; };
struct W {
    Ctx &c; rpc::Pool P; int uid, nc; i64 node; std::string key[2], dir, path; std::vector<Pr> q; int oa, ob, runs = 0, seq = 0; bool interesting = false; pid_t bg = 0; int bgo = -1, bge = -1;
    W(Ctx &cc) : c(cc), P(cc) {}
    ~W() { if (bg) kill(bg, SIGKILL); clean(); }
    VS files(bool mine = true) { VS r; DIR *d = opendir("/dev/shm"); while (auto *e = readdir(d)) { struct stat s; if (lstat(("/dev/shm/" + std::string(e->d_name)).c_str(), &s) == 0 && s.st_uid == (uid_t)uid) r.push_back(e->d_name); } closedir(d); std::sort(r.begin(), r.end()); return r; }
    VS extra; void clean() { for (auto &f : files()) { if (unlink(("/dev/shm/" + f).c_str())) rmdir(("/dev/shm/" + f).c_str()); } for (auto &f : extra) unlink(("/dev/shm/" + f).c_str()); }
    int spawn(int w) { std::string k = key[w]; int u = uid; int i = P.spawn([=](int) { become(u); setargs(k); return rpc::Handler([=](const Msg &m) { return handle(m, k); }); }); return i; }
    // what the registry of a world says: index of process (or pid) -> mask
    std::map<i64, i64> state(int w) { auto r = P.call(w ? ob : oa, Msg(STATE)); PCHECK(c, r.v[0] == 0 && r.v[1] == 0, "harness: Attach %ld GetPidList %ld", (long)r.v[0], (long)r.v[1]); std::map<i64, i64> s; for (size_t i = 2; i + 2 < r.v.size(); i += 3) { i64 id = r.v[i]; for (size_t j = 0; j < q.size(); ++j) if (P.p[w ? q[j].b : q[j].a].pid == id) id = -1 - (i64)j; PCHECK(c, r.v[i + 1] == 0 || r.v[i + 1] == DLB_NOTED, "harness: GetProcessMask %ld", (long)r.v[i + 1]); s[id] = r.v[i + 2]; } return s; }
    std::string show(const std::map<i64, i64> &s) { std::string r; for (auto &x : s) r += (r.empty() ? "" : ", ") + (x.first < 0 ? "process " + std::to_string(-1 - x.first) : "pid " + std::to_string(x.first)) + ": " + cpus(x.second); return r.empty() ? "nobody" : r; }
    i64 owned() { i64 r = 0; for (auto &x : state(0)) r |= x.second; return r; }
    // ---- running a tool
    void start(int t, const VS &args, const VS &env, i64 aff, int *po, int *pe) {
        ++runs; *po = memfd_create("out", 0); *pe = memfd_create("err", 0); int nul = open("/dev/null", O_RDONLY); int fd = open(TOOLS[t].c_str(), O_RDONLY | O_CLOEXEC); fflush(nullptr);
        bg = fork(); if (bg) { close(fd); close(nul); return; }
        prctl(PR_SET_PDEATHSIG, SIGKILL); std::string nm = TN[t]; std::vector<char *> a = {&nm[0]}, e; VS ar = args, en = env; for (auto &s : ar) a.push_back(&s[0]); a.push_back(nullptr); for (auto &s : en) e.push_back(&s[0]); e.push_back(nullptr);
        cpu_set_t m; i2m(aff, &m); sched_setaffinity(0, sizeof m, &m); if (chdir(dir.c_str())) _exit(96); dup2(nul, 0); dup2(*po, 1); dup2(*pe, 2); become(uid); fexecve(fd, a.data(), e.data()); _exit(95);
    }
    Res finish(const char *what, int o, int e) {
        int st; double t0 = pbt::now_s(); while (waitpid(bg, &st, WNOHANG) == 0) { usleep(1000); if (pbt::now_s() - t0 > 20) { kill(bg, SIGKILL); waitpid(bg, &st, 0); bg = 0; c.fail("hang: %s does not end", what); } } bg = 0; Res r; r.st = st;
        auto rd = [](int f) { std::string s; s.resize(lseek(f, 0, SEEK_END)); if (!s.empty() && pread(f, &s[0], s.size(), 0) < 0) s.clear(); close(f); return s; }; r.out = rd(o); r.err = rd(e);
        if (r.err.find("AddressSanitizer") != std::string::npos || r.err.find("runtime error:") != std::string::npos) c.fail("%s: memory error\n%s", what, r.err.substr(0, 2500).c_str()); return r;
    }
    Res run(int t, const VS &args, const VS &env, i64 aff, const char *what) { int o, e; start(t, args, env, aff, &o, &e); return finish(what, o, e); }
    VS env(int w, const std::string &more = "") { VS e; if (w >= 0) e.push_back("DLB_ARGS=" + (key[w].empty() ? std::string() : "--shm-key=" + key[w]) + more); e.push_back("PATH=" + path); e.push_back("ASAN_OPTIONS=detect_leaks=0:abort_on_error=1:handle_segv=1:detect_odr_violation=0"); return e; }
    std::string cmd(int t, const VS &a) { std::string s = TN[t]; for (auto &x : a) { s += " '"; for (char ch : x) s += ch == '\n' ? 'n' : ch; s += "'"; } return s.substr(0, 400); }
    bool ok(const Res &r) { return WIFEXITED(r.st) && WEXITSTATUS(r.st) == 0; }
    void same(const char *what) {
        auto a = state(0), b = state(1); PCHECK(c, a == b, "%s: the registry is {%s}, expected {%s}", what, show(a).c_str(), show(b).c_str());
        for (auto &x : q) if (x.live && c.chance(3, 4)) { auto ra = P.call(x.a, Msg(POLL)), rb = P.call(x.b, Msg(POLL)); PCHECK(c, ra.v == rb.v, "%s: process %d is told %ld {%s}, expected %ld {%s}", what, (int)(&x - &q[0]), (long)ra.v[0], cpus(ra.v[1]).c_str(), (long)rb.v[0], cpus(rb.v[1]).c_str()); }
    }
    // ---- things to give to the tools
    std::string arg() { static const char *fix[] = {"", "-h", "--help", "--", "-l", "--set", "a b", "'", "\"", "$HOME", "*", "\\", "--verbose", "-c", "0", "--list=3", "-", "=", "\n", "\xc3\xa9"}; if (c.chance(1, 2)) return fix[c.draw(20)]; std::string s; int n = c.len(0, 12); for (int i = 0; i < n; ++i) s += (char)c.range(1, 255); if (c.chance(1, 30)) s = std::string(c.range(1000, 20000), 'x'); return s; }
    std::string maskstr(i64 m) { int k = c.draw(4); if (k == 0) return cpus(m); char b[64]; if (k == 1) { snprintf(b, 64, "0x%lx", (long)m); return b; } if (k == 2) { std::string s; for (int i = nc - 1; i >= 0; --i) s += m >> i & 1 ? '1' : '0'; return "0b" + s; } std::string s; for (int i = 0; i < nc; ++i) if (m >> i & 1) { int j = i; while (m >> (j + 1) & 1) ++j; s += (s.empty() ? "" : ",") + std::to_string(i) + (j > i ? "-" + std::to_string(j) : ""); i = j; } return s; }
    i64 mask(i64 of) { i64 m = 0; for (int i = 0; i < nc; ++i) if ((of >> i & 1) && c.flip()) m |= 1ll << i; return m ? m : of & -of; }
    std::set<i64> numbers(const std::string &s) { std::set<i64> r; for (size_t i = 0; i < s.size();) { if (!isdigit(s[i])) { ++i; continue; } size_t j = i; i64 a = 0, b; while (j < s.size() && isdigit(s[j])) a = a * 10 + s[j++] - '0'; b = a; if (j + 1 < s.size() && s[j] == '-' && isdigit(s[j + 1])) { ++j; b = 0; while (j < s.size() && isdigit(s[j])) b = b * 10 + s[j++] - '0'; } for (i64 k = a; k <= b && k < 100; ++k) r.insert(k); i = j; } return r; }
    i64 readmask(const std::string &s) { i64 m = 0; for (i64 x : numbers(s)) if (x < 62) m |= 1ll << x; return m; }
    struct Rec { VS a, e; std::map<char, std::string> f; int n = 0; };
    Rec rec(const std::string &file) { Rec r; auto s = pbt::Engine::slurp(file.c_str(), 1 << 20); r.n = (int)std::count(s.begin(), s.end(), '\x01'); size_t end = s.rfind('\x01'); if (end == std::string::npos) { r.n = 0; return r; } for (auto &x : des(s)) { if (x.empty()) continue; char k = x[0]; std::string v = x.substr(1); if (k == 'A') r.a.push_back(v); else if (k == 'E') r.e.push_back(v); else if (k != 1) r.f[k] = v; } return r; }
    // ---- operations
    void launch() {
        bool task = c.flip(); bool set = task && c.chance(3, 4); i64 own = owned(), fr = node & ~own; bool ret = task && c.chance(1, 3); i64 m; bool dlb = c.flip(); bool steal = task && c.chance(1, 2);
        if (task && set) m = mask(steal || !fr ? node : fr); else m = mask(c.chance(5, 6) && fr ? fr : node);
        i64 aff = set ? (c.flip() ? node : mask(node)) : m; std::string out = dir + "/o" + std::to_string(seq++), out2 = dir + "/o" + std::to_string(seq++); int how = c.weighted({3, 4, 2}); int code = how == 1 ? c.oneof<int>({1, 2, 7, 42, 126, 127, 255, c.range(0, 255)}) : 0; int sig = c.oneof<int>({SIGKILL, SIGTERM, SIGSEGV, SIGINT, SIGABRT, SIGUSR1}); if (dlb && how == 2) how = 0;
        bool hold = c.flip(), missing = c.chance(1, 10); std::string what = std::string(dlb ? "dlb" : "") + (hold ? "hold" : "") + (how == 1 ? "exit:" + std::to_string(code) : how == 2 ? "sig:" + std::to_string(sig) : ""); if (what.empty()) what = "none";
        VS pa; int na = c.len(0, 6); for (int i = 0; i < na; ++i) { auto s = arg(); s.erase(std::remove(s.begin(), s.end(), '\x01'), s.end()); pa.push_back(s); } std::string prog = missing ? "no-such-program" : c.flip() ? "child" : dir + "/bin/child";
        VS a; bool verb = false; if (task) { if (ret) a.push_back(c.flip() ? "--borrow" : "-b"); if (set) { int k = c.draw(4); std::string ms = maskstr(m); if (k == 0) { a.push_back("--set"); a.push_back(ms); } else if (k == 1) a.push_back("--cpus=" + ms); else if (k == 2) { a.push_back("-s"); a.push_back(ms); } else a.push_back("-c" + ms); } } else if ((verb = c.chance(1, 4))) a.push_back("--verbose");
        if (task && set && ret) { std::string ms = maskstr(m); a = c.flip() ? VS{"--borrow", "--set", ms} : VS{"-c", ms, "-b"}; }
        if (c.chance(1, 8)) a.push_back("--"); a.push_back(prog); a.insert(a.end(), pa.begin(), pa.end());
        VS ev = env(0, " --drom=yes"), evb = env(1, " --drom=yes"); VS more; if (c.flip()) more.push_back("OMP_NUM_THREADS=" + std::to_string(c.range(1, 99))); if (c.chance(1, 3)) more.push_back("OMP_NUM_THREADSX=3"); int nx = c.len(0, 3); for (int i = 0; i < nx; ++i) { auto s = arg(); s.erase(std::remove(s.begin(), s.end(), '\x01'), s.end()); more.push_back("V" + std::to_string(i) + "=" + s); } if (c.chance(1, 4)) more.push_back("DLB_ARGSX=--drom"); VS m1 = more, m2 = more; m1.push_back("TC_OUT=" + out); m2.push_back("TC_OUT=" + out2); for (auto *x : {&m1, &m2}) x->push_back("TC_DO=" + what); ev.insert(ev.end(), m1.begin(), m1.end()); evb.insert(evb.end(), m2.begin(), m2.end());
        std::string w = cmd(task ? TASKSET : RUN, a); c.note("%s (CPUs %s of {%s}; program: %s)", w.c_str(), cpus(aff).c_str(), show(state(0)).c_str(), what.c_str());
        // world B
        VS bb = evb; bb.push_back("--"); bb.push_back(prog); bb.insert(bb.end(), pa.begin(), pa.end()); auto touch = [](const std::string &f) { int fd = open(f.c_str(), O_CREAT | O_WRONLY, 0666); close(fd); }; touch(out2 + ".go");
        auto rb = P.call(ob, Msg(task ? LAUNCH_T : LAUNCH_R, {m, task ? (int)DLB_STEAL_CPUS | (ret ? (int)DLB_RETURN_STOLEN : 0) : 0, 1}, ser(bb))); int eb = (int)rb.v[0]; bool should = eb == 0 && !missing; if (steal && (m & own)) c.label("launch on CPUs of others");
        int o, e; start(task ? TASKSET : RUN, a, ev, aff, &o, &e); if (hold && should) { double t0 = pbt::now_s(); Rec r; int st; while ((r = rec(out)).n == 0 && pbt::now_s() - t0 < 15) { if (waitpid(bg, &st, WNOHANG | 0) == bg) { bg = 0; break; } usleep(1000); }
            if (!bg) { c.fail("%s ended with status %x before the program\n%s", w.c_str(), st, pbt::Engine::slurp(("/proc/self/fd/" + std::to_string(e)).c_str(), 2000).c_str()); }
            PCHECK(c, r.n == 1, "%s: the program is not run", w.c_str()); auto s = state(0); i64 want = m, pid = atoll(r.f['P'].c_str()), par = atoll(r.f['Q'].c_str()); i64 who = dlb ? pid : task ? pid : par; PCHECK(c, s.count(who) && s[who] == want, "%s: while the program runs the registry is {%s}, and the program (pid %ld%s) should have %s", w.c_str(), show(s).c_str(), (long)who, dlb ? ", which uses DLB" : "", cpus(want).c_str()); c.label("looked at while running"); }
        touch(out + ".go"); Res r = finish(w.c_str(), o, e); Rec k = rec(out);
        if (eb) { c.label("launch refused"); PCHECK(c, k.n == 0, "%s runs the program, and the CPUs cannot be registered (%d)", w.c_str(), eb); PCHECK(c, !ok(r), "%s: the CPUs cannot be registered (%d), and it succeeds", w.c_str(), eb); }
        else if (missing) PCHECK(c, WIFEXITED(r.st) && WEXITSTATUS(r.st) != 0, "%s: the program does not exist, and it ends with status %x", w.c_str(), r.st);
        else {
            c.label(task ? "dlb_taskset runs a program" : "dlb_run runs a program"); interesting = true; PCHECK(c, k.n == 1, "%s: the program is run %d times\n%s", w.c_str(), k.n, r.err.c_str()); VS wa = pa; wa.insert(wa.begin(), prog);
            PCHECK(c, k.a.size() == wa.size(), "%s: the program gets %zu arguments, expected %zu", w.c_str(), k.a.size(), wa.size()); for (size_t i = 0; i < wa.size(); ++i) PCHECK(c, k.a[i] == wa[i], "%s: argument %zu is '%s', expected '%s'", w.c_str(), i, k.a[i].substr(0, 200).c_str(), wa[i].substr(0, 200).c_str());
            PCHECK(c, readmask(k.f['M']) == m, "%s: the program runs on CPUs %s, expected %s", w.c_str(), k.f['M'].c_str(), cpus(m).c_str()); PCHECK(c, k.f['D'] == dir, "%s: the program runs in directory %s", w.c_str(), k.f['D'].c_str());
            auto mp = [](const VS &v) { std::map<std::string, std::string> r; for (auto &s : v) { auto p = s.find('='); r[s.substr(0, p)] = s.substr(p + 1); } return r; }; auto want = mp(ev), got = mp(k.e); if (task && want.count("OMP_NUM_THREADS")) want["OMP_NUM_THREADS"] = std::to_string(__builtin_popcountll(m)); std::string d = got["DLB_ARGS"], d0 = want["DLB_ARGS"]; PCHECK(c, d.compare(0, d0.size(), d0) == 0 && (d.size() == d0.size() || d[d0.size()] == ' '), "%s: the program has DLB_ARGS='%s', it was '%s'", w.c_str(), d.c_str(), d0.c_str()); got["DLB_ARGS"] = d0; PCHECK(c, k.e.size() == ev.size(), "%s: the environment has %zu variables, expected %zu", w.c_str(), k.e.size(), ev.size()); for (auto &x : want) PCHECK(c, got.count(x.first) && got[x.first] == x.second, "%s: environment variable %s is '%s', expected '%s'", w.c_str(), x.first.c_str(), got[x.first].substr(0, 200).c_str(), x.second.substr(0, 200).c_str());
            if (dlb) { PCHECK(c, atoi(k.f['I'].c_str()) >= 0, "%s: DLB_Init in the program returns %s", w.c_str(), k.f['I'].c_str()); PCHECK(c, readmask(k.f['K']) == m, "%s: the program initializes DLB and gets %s, expected %s", w.c_str(), k.f['K'].c_str(), cpus(m).c_str()); c.label("program uses DLB"); }
            int want_st = how == 2 ? 128 + sig : code; PCHECK(c, WIFEXITED(r.st) && WEXITSTATUS(r.st) == want_st, "%s: the program ends with %s %d and the tool ends with status %d%s", w.c_str(), how == 2 ? "signal" : "exit code", how == 2 ? sig : code, WIFEXITED(r.st) ? WEXITSTATUS(r.st) : WTERMSIG(r.st), WIFEXITED(r.st) ? "" : " (signal)"); if (verb && how != 2) PCHECK(c, numbers(r.out).count(code) || r.out.find(std::to_string(code)) != std::string::npos, "%s: the return code is not shown:\n%s", w.c_str(), r.out.c_str());
        }
        c.count(10); same(w.c_str());
    }
    void setmask() {
        size_t j = c.draw(q.size()); bool known = c.chance(7, 8); i64 m = mask(c.flip() ? node : node & ~(owned() & ~state(0)[-1 - (i64)j])); i64 pa = known ? P.p[q[j].a].pid : 4000000 + c.draw(1000), pb = known ? P.p[q[j].b].pid : pa; if (!m) return; VS a = c.flip() ? VS{"--set", maskstr(m), "--pid", std::to_string(pa)} : VS{"-p" + std::to_string(pa), "-c", maskstr(m)}; std::string w = cmd(TASKSET, a); c.note("%s (process %zu of {%s})", w.c_str(), j, show(state(0)).c_str());
        auto rb = P.call(ob, Msg(SETM, {pb, m, 0})); Res r = run(TASKSET, a, env(0), node, w.c_str()); PCHECK(c, ok(r) == (rb.v[0] == 0), "%s ends with status %x, and the operation returns %ld\n%s", w.c_str(), r.st, (long)rb.v[0], r.err.c_str());
        if (rb.v[0] == 0) { interesting = true; c.label("mask set"); auto s = state(0); PCHECK(c, s[-1 - (i64)j] == m, "%s: the process has %s", w.c_str(), cpus(s[-1 - (i64)j]).c_str()); } else c.label("mask refused"); c.count(3); same(w.c_str());
    }
    void remove() {
        bool one = c.flip(); size_t j = c.draw(q.size()); i64 m = mask(c.flip() ? node : state(0).count(-1 - (i64)j) ? state(0)[-1 - (i64)j] : node); if (!m) m = 1; auto before = state(0); VS a = {c.flip() ? "--remove" : "-r", maskstr(m)}; if (one) { a.push_back("--pid"); a.push_back(std::to_string(P.p[q[j].a].pid)); } std::string w = cmd(TASKSET, a); c.note("%s (process %zu of {%s})", w.c_str(), one ? j : 99, show(before).c_str());
        // the same order as the list of processes
        auto rl = P.call(ob, Msg(STATE)); int err = 0; if (one) { i64 pb = P.p[q[j].b].pid, cur = -1; for (size_t i = 2; i + 2 < rl.v.size(); i += 3) if (rl.v[i] == pb) cur = rl.v[i + 2]; if (cur < 0) err = DLB_ERR_NOPROC; else err = (int)P.call(ob, Msg(SETM, {pb, cur & ~m, 0})).v[0]; } else for (size_t i = 2; i + 2 < rl.v.size() && !err; i += 3) err = (int)P.call(ob, Msg(SETM, {rl.v[i], rl.v[i + 2] & ~m, 0})).v[0];
        Res r = run(TASKSET, a, env(0), node, w.c_str()); PCHECK(c, ok(r) == (err == 0), "%s ends with status %x, and the operation returns %d\n%s", w.c_str(), r.st, err, r.err.c_str()); auto s = state(0); if (!err) { interesting = true; c.label("CPUs removed"); for (auto &x : before) if (!one || x.first == -1 - (i64)j) PCHECK(c, s[x.first] == (x.second & ~m), "%s: a process that had %s has %s", w.c_str(), cpus(x.second).c_str(), cpus(s[x.first]).c_str()); else PCHECK(c, s[x.first] == x.second, "%s: another process had %s and has %s", w.c_str(), cpus(x.second).c_str(), cpus(s[x.first]).c_str()); }
        c.count(3); same(w.c_str());
    }
    static VS split(const std::string &s, char d) { VS r(1); for (char ch : s) if (ch == d) r.push_back(""); else r.back() += ch; return r; }
    // the table of processes in a listing
    std::map<i64, i64> table(const std::string &w, const std::string &t) { std::map<i64, i64> r; int pc = -1, mc = -1, fc = -1, dc = -1; for (auto &l : split(t, '\n')) { auto f = split(l, '|'); if (f.size() < 4) continue; auto trim = [](std::string s) { while (!s.empty() && isspace(s.back())) s.pop_back(); size_t i = 0; while (i < s.size() && isspace(s[i])) ++i; return s.substr(i); }; bool head = false; for (size_t i = 0; i < f.size(); ++i) { auto x = trim(f[i]); if (x == "PID") { pc = (int)i; head = true; } if (head && x == "Mask") mc = (int)i; if (head && x == "Future") fc = (int)i; if (head && x == "Dirty?") dc = (int)i; } if (head || pc < 0 || mc < 0) { if (head && fc < 0) pc = -1; continue; } if ((int)f.size() <= std::max({pc, mc, fc, dc})) continue; std::string p = trim(f[pc]); if (p.empty() || !isdigit(p[0])) continue; PCHECK(c, !r.count(atoll(p.c_str())), "%s shows process %s twice:\n%s", w.c_str(), p.c_str(), t.c_str()); r[atoll(p.c_str())] = readmask(trim(f[dc]) == "1" ? f[fc] : f[mc]); } return r; }
    void check_table(const std::string &w, const std::string &t, int world) { auto s = state(world); std::map<i64, i64> want; for (auto &x : s) want[x.first < 0 ? (i64)P.p[world ? q[-1 - x.first].b : q[-1 - x.first].a].pid : x.first] = x.second; auto got = table(w, t); PCHECK(c, got == want, "%s lists {%s}, registered are {%s}\n%s", w.c_str(), show(got).c_str(), show(want).c_str(), t.c_str()); c.count((long)want.size() + 1); }
    void list() {
        int k = c.weighted({3, 3, 2, 3}); std::string col = c.chance(1, 3) ? std::to_string(c.range(1, 9)) : ""; auto s = state(0); i64 aff = mask(node);
        if (k == 0) { size_t j = c.draw(q.size()); VS a = {"--list", "--pid", std::to_string(P.p[q[j].a].pid)}; std::string w = cmd(TASKSET, a); c.note("%s", w.c_str()); Res r = run(TASKSET, a, env(0), aff, w.c_str()); bool there = s.count(-1 - (i64)j); PCHECK(c, ok(r) == there, "%s ends with status %x, the process is%s registered", w.c_str(), r.st, there ? "" : " not"); if (there) { auto p = r.out.rfind(':'); PCHECK(c, p != std::string::npos && readmask(r.out.substr(p)) == s[-1 - (i64)j], "%s shows '%s', the process has %s", w.c_str(), r.out.c_str(), cpus(s[-1 - (i64)j]).c_str()); PCHECK(c, r.out.find(a[2]) != std::string::npos, "%s does not show the process: %s", w.c_str(), r.out.c_str()); interesting = true; } c.label("list one"); }
        else if (k == 1) { VS a = {c.flip() ? "--list" + (col.empty() ? "" : "=" + col) : "-l" + col}; if (c.chance(1, 3)) a.push_back(c.oneof<std::string>({"--color=no", "--color=never", "--color=auto", "--color", "--color=yes", "--color=always"})); std::string w = cmd(TASKSET, a); c.note("%s", w.c_str()); Res r = run(TASKSET, a, env(0), aff, w.c_str()); PCHECK(c, ok(r), "%s ends with status %x\n%s", w.c_str(), r.st, r.err.c_str()); check_table(w, r.out + r.err, 0); bool esc = (r.out + r.err).find('\x1b') != std::string::npos; if (a.size() > 1 && !s.empty()) { bool want = a[1] == "--color" || a[1] == "--color=yes" || a[1] == "--color=always"; PCHECK(c, esc == want || (want && !owned()), "%s: the output is%s coloured", w.c_str(), esc ? "" : " not"); } if (!s.empty()) interesting = true; c.label("list all"); }
        else if (k == 2) { int id = c.range(0, 4); VS a = {c.flip() ? "--getpid" : "-g", std::to_string(id)}; std::string w = cmd(TASKSET, a); c.note("%s", w.c_str()); Res r = run(TASKSET, a, env(0), aff, w.c_str()); PCHECK(c, ok(r), "%s ends with status %x", w.c_str(), r.st); auto l = P.call(oa, Msg(STATE)); size_t n = (l.v.size() - 2) / 3; std::string want = id < (int)n ? std::to_string(l.v[2 + 3 * id]) + "\n" : ""; PCHECK(c, r.out == want, "%s shows '%s', expected '%s'", w.c_str(), r.out.c_str(), want.c_str()); }
        else { VS before = files(); VS a = {c.flip() ? "--list" + (col.empty() ? "" : "=" + col) : "-l" + col}; std::string w = cmd(SHM, a); c.note("%s", w.c_str()); VS ev = env(-1); int x = c.draw(3); if (x) ev.push_back(x == 1 ? "DLB_ARGS=--lewi=no" : "DLB_ARGS=--shm-key=somethingelse"); Res r = run(SHM, a, ev, aff, w.c_str()); PCHECK(c, ok(r), "%s ends with status %x\n%s", w.c_str(), r.st, r.err.c_str());
            // the descriptions go to different streams: run with both in one
            std::string t; std::map<std::string, std::string> sec; both(a, ev, aff, w, t); std::string cur; for (auto &l : split(t, '\n')) { auto p = l.find("Found DLB shmem with id: "); if (p != std::string::npos) { cur = l.substr(p + 25); PCHECK(c, !sec.count(cur), "%s lists '%s' twice:\n%s", w.c_str(), cur.c_str(), t.c_str()); sec[cur] = ""; } else if (!cur.empty()) sec[cur] += l + "\n"; }
            for (int i = 0; i < 2; ++i) { std::string id = key[i].empty() ? std::to_string(uid) : key[i]; bool there = !state(i).empty(); PCHECK(c, sec.count(id) || !there, "%s does not list '%s':\n%s", w.c_str(), id.c_str(), t.c_str()); if (sec.count(id)) { check_table(w + ", " + id, sec[id], i); sec.erase(id); } } PCHECK(c, sec.empty(), "%s lists '%s', which does not exist:\n%s", w.c_str(), sec.begin()->first.c_str(), t.c_str()); PCHECK(c, files() == before, "%s creates or removes segments", w.c_str()); c.label("list segments"); interesting = true; }
        if (k != 3) same("listing");
    }
    // stdout and stderr in order, in a terminal
    void both(VS args, VS env, i64 aff, const std::string &w, std::string &t) {
        int mfd = posix_openpt(O_RDWR | O_NOCTTY); if (mfd < 0 || grantpt(mfd) || unlockpt(mfd)) c.discard(); std::string sn = ptsname(mfd); int sfd = open(sn.c_str(), O_RDWR | O_NOCTTY); if (sfd < 0) c.discard(); struct termios tt; tcgetattr(sfd, &tt); cfmakeraw(&tt); tcsetattr(sfd, TCSANOW, &tt); args.push_back("--color=no"); ++runs; int fd = open(TOOLS[SHM].c_str(), O_RDONLY | O_CLOEXEC); fflush(nullptr);
        bg = fork(); if (!bg) { prctl(PR_SET_PDEATHSIG, SIGKILL); std::string nm = TN[SHM]; std::vector<char *> a = {&nm[0]}, e; for (auto &s : args) a.push_back(&s[0]); a.push_back(nullptr); for (auto &s : env) e.push_back(&s[0]); e.push_back(nullptr); dup2(sfd, 1); dup2(sfd, 2); become(uid); fexecve(fd, a.data(), e.data()); _exit(95); }
        close(fd); close(sfd); char b[4096]; double t0 = pbt::now_s(); for (;;) { struct pollfd p = {mfd, POLLIN, 0}; if (poll(&p, 1, 1000) > 0) { ssize_t n = read(mfd, b, sizeof b); if (n <= 0) break; t.append(b, n); } if (pbt::now_s() - t0 > 20) { close(mfd); c.fail("hang: %s does not end", w.c_str()); } } close(mfd); int st; waitpid(bg, &st, 0); bg = 0; PCHECK(c, WIFEXITED(st) && WEXITSTATUS(st) == 0, "%s ends with status %x\n%s", w.c_str(), st, t.c_str());
    }
    void dlbtool() {
        i64 aff = mask(node); if (c.flip()) { c.note("dlb --affinity"); Res r = run(DLB, {c.flip() ? "--affinity" : "-a"}, env(0), aff, "dlb --affinity"); auto p = r.out.rfind(':'); PCHECK(c, ok(r) && p != std::string::npos && readmask(r.out.substr(p)) == aff, "dlb --affinity shows '%s' with status %x, its CPUs are %s", r.out.c_str(), r.st, cpus(aff).c_str()); }
        else { int t = c.draw(4); bool v = c.flip(); if (t == DLB) v = true; VS a = {v ? c.oneof<std::string>({"--version", "-v"}) : c.oneof<std::string>({"--help", "-h"})}; std::string w = cmd(t, a); c.note("%s", w.c_str()); Res r = run(t, a, env(0), aff, w.c_str()); PCHECK(c, ok(r) && !r.out.empty(), "%s ends with status %x", w.c_str(), r.st); }
        same("dlb");
    }
    void invalid() {
        VS before = files(); std::string out = dir + "/o" + std::to_string(seq++); VS ev = env(0, " --drom=yes"); ev.push_back("TC_OUT=" + out); ev.push_back("TC_DO=none"); std::string prog = dir + "/bin/child", pid = std::to_string(P.p[q[c.draw(q.size())].a].pid), bad = c.oneof<std::string>({"abc", "", "x1", "-5", "12x", "0", "99999999999999999999"}), badm = c.oneof<std::string>({"abc", "", "x1", "0b2", "0xg", "foo,bar"}); std::string m = maskstr(mask(node)); int t; VS a;
        switch (c.draw(4)) {
            case 0: t = RUN; a = c.oneof<VS>({{}, {"--bogus", prog}, {"-z", prog}, {"--verbose"}, {"--verbose=3", prog}}); break;
            case 1: case 2: t = TASKSET; a = c.oneof<VS>({{}, {"--set", m}, {"--set"}, {"--remove"}, {"--pid", pid}, {"--list", "--set", m, "--pid", pid}, {"--list", "--remove", m}, {"--list", prog}, {"--remove", m, prog}, {"--getpid", "0", prog}, {"--pid", pid, prog}, {"--set", m, "--pid", pid, prog}, {"--bogus"}, {"--bogus", prog}, {"--set", badm, "--pid", pid}, {"--set", badm, prog}, {"--remove", badm}, {"--remove", badm, "--pid", pid}, {"--remove", m, "--pid", bad}, {"--set", m, "--pid", bad}, {"--list", "--pid", bad}, {"--set", m, "--remove", m, "--pid", pid}, {"--getpid", "0", "--list"}, {"--borrow"}, {"--set", m, "--borrow"}}); break;
            default: t = c.flip() ? SHM : DLB; a = t == SHM ? c.oneof<VS>({{}, {"--list", "--delete"}, {"--bogus"}, {"--delete", "--bogus"}, {"--list", "--create"}, {"--file"}, {"-d", "-l"}, {"--delete=3"}}) : c.oneof<VS>({{}, {"--bogus"}, {"foo"}, {"-z"}, {"--affinity", "--bogus"}, {"--version=2"}});
        }
        std::string w = cmd(t, a); c.note("%s", w.c_str()); c.label("invalid command line"); Res r = run(t, a, ev, node, w.c_str()); PCHECK(c, WIFEXITED(r.st) && WEXITSTATUS(r.st) != 0, "%s ends with status %x", w.c_str(), r.st); PCHECK(c, r.err.find("sage") != std::string::npos, "%s does not show the usage: '%s'", w.c_str(), r.err.c_str()); PCHECK(c, rec(out).n == 0, "%s runs the program", w.c_str()); PCHECK(c, files() == before, "%s creates or removes segments", w.c_str()); c.count(4); same(w.c_str());
    }
    void del() {
        auto mk = [&](const std::string &n, bool root) { std::string f = "/dev/shm/" + n; int fd = open(f.c_str(), O_CREAT | O_EXCL | O_RDWR, 0600); if (fd < 0) return; if (!root) { if (fchown(fd, uid, uid)) {} } else extra.push_back(n); close(fd); };
        std::string k = c.key; int n = c.len(0, 5); for (int i = 0; i < n; ++i) mk(c.oneof<std::string>({"DLB_", "sem.DLB_", "DLB", "xDLB_", "dlb_", "sem.DLB", "sem.", "DLB_talp_", "DLB_cpuinfo_", ""}) + k + std::to_string(i), c.chance(1, 3)); bool lnk = c.chance(1, 4); if (lnk) { mk("victim" + k, false); if (symlink(("/dev/shm/victim" + k).c_str(), ("/dev/shm/DLB_link" + k).c_str()) == 0) { if (lchown(("/dev/shm/DLB_link" + k).c_str(), uid, uid)) {} } extra.push_back("DLB_link" + k); }
        VS want, gone; for (auto &f : files()) { bool d = f.compare(0, 4, "DLB_") == 0 || f.compare(0, 8, "sem.DLB_") == 0; if (d && f != "DLB_link" + k) gone.push_back(f); else want.push_back(f); } std::string w = c.flip() ? "--delete" : "-d"; c.note("dlb_shm %s (%zu files to delete, %zu to keep)", w.c_str(), gone.size(), want.size()); Res r = run(SHM, {w}, env(-1), node, "dlb_shm --delete"); VS now = files(); if (lnk && std::find(now.begin(), now.end(), "DLB_link" + k) == now.end()) want.erase(std::remove(want.begin(), want.end(), "DLB_link" + k), want.end()); PCHECK(c, ok(r), "dlb_shm %s ends with status %x\n%s", w.c_str(), r.st, r.err.c_str());
        for (auto &f : gone) PCHECK(c, std::find(now.begin(), now.end(), f) == now.end(), "dlb_shm %s does not delete %s", w.c_str(), f.c_str()); for (auto &f : want) PCHECK(c, std::find(now.begin(), now.end(), f) != now.end(), "dlb_shm %s deletes %s", w.c_str(), f.c_str()); for (auto &f : extra) if (f != "DLB_link" + k) PCHECK(c, access(("/dev/shm/" + f).c_str(), F_OK) == 0, "dlb_shm %s deletes %s, which belongs to another user", w.c_str(), f.c_str()); c.count((long)gone.size() + 1); c.label("delete"); interesting = true;
    }
    void main() {
        cpu_set_t aff; sched_getaffinity(0, sizeof aff, &aff); node = m2i(&aff); nc = 0; for (int i = 0; i < 62; ++i) if (node >> i & 1) nc = i + 1; if (__builtin_popcountll(node) < 4 || nc != __builtin_popcountll(node)) c.discard();
        uid = 200000 + getpid(); dir = c.scratch; if (chmod(dir.c_str(), 0777) || chmod((dir + "/..").c_str(), 0711)) {} mkdir((dir + "/bin").c_str(), 0755); if (link(TOOLS[CHILD].c_str(), (dir + "/bin/child").c_str())) { auto s = pbt::Engine::slurp(TOOLS[CHILD].c_str(), 1 << 28); int fd = open((dir + "/bin/child").c_str(), O_CREAT | O_WRONLY, 0755); if (!rpc::wr(fd, s.data(), s.size())) c.discard(); close(fd); } path = dir + "/bin:/usr/bin:/bin"; clean();
        key[0] = c.oneof<std::string>({"", "k", "barrier_k", "cpuinfo_k", "procinfo_cpuinfo_", "a"}); if (!key[0].empty()) key[0] += c.key; key[1] = "b" + c.key; c.note("keys '%s'", key[0].empty() ? "" : key[0].substr(0, key[0].size() - c.key.size()).c_str());
        oa = spawn(0); ob = spawn(1); int n = (int)std::min<i64>(c.range(1, 3), nc - 3); i64 fr = node; for (int i = 0; i < n; ++i) { i64 m = 0; for (int k = 0; k < nc; ++k) if ((fr >> k & 1) && c.chance(1, 3)) m |= 1ll << k; if (!m) m = fr & -fr; if (!m) break; fr &= ~m; Pr p; p.a = spawn(0); p.b = spawn(1); auto ra = P.call(p.a, Msg(INIT, {m})), rb = P.call(p.b, Msg(INIT, {m})); PCHECK(c, ra.v[0] == 0 && rb.v[0] == 0, "harness: Init %ld %ld", (long)ra.v[0], (long)rb.v[0]); q.push_back(p); c.note("process %d: CPUs %s", i, cpus(m).c_str()); }
        int steps = c.len(3, 9); for (int s = 0; s < steps; ++s) switch (c.weighted({5, 3, 2, 4, 1, 3, 1})) {
            case 0: launch(); break; case 1: setmask(); break; case 2: remove(); break; case 3: list(); break; case 4: dlbtool(); break; case 5: invalid(); break;
            case 6: { size_t j = c.draw(q.size()); if (!q[j].live) break; c.note("process %zu finalizes", j); q[j].live = false; auto ra = P.call(q[j].a, Msg(FIN)), rb = P.call(q[j].b, Msg(FIN)); PCHECK(c, ra.v == rb.v, "process %zu: Finalize returns %ld, expected %ld", j, (long)ra.v[0], (long)rb.v[0]); same("Finalize"); } }
        if (c.chance(2, 3)) del(); for (auto &x : q) if (x.live) { P.call(x.a, Msg(FIN)); P.call(x.b, Msg(FIN)); } if (interesting) c.nontrivial();
    }
};
int main(int argc, char **argv) {
    int n = 0; std::vector<char *> rest; for (int i = 0; i < argc; ++i) if (!strcmp(argv[i], "--tool") && i + 1 < argc) { TOOLS.push_back(argv[++i]); ++n; } else rest.push_back(argv[i]);
    pbt::Options o; o.property = "C28"; o.case_timeout = 60; o.quick_cases = 1000; o.thorough_cases = 20000; o.hang_is_violation = true;
    return pbt::run((int)rest.size(), rest.data(), o, [](Ctx &c) { W w(c); w.main(); });
}
