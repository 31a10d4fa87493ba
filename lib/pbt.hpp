// Property-based testing engine used by every C/C++ harness of /verif.
//
// Hypothesis-style: a case is a pure function of a sequence of bounded integer
// choices.  Random cases draw the choices from a generator seeded by
// (VERIF_SEED, property, case index); replays and shrinks feed a recorded
// sequence.  Every case runs in its own forked process (own process group), so
// a crash, sanitizer report, abort or hang of the code under test is a
// failure of that case and nothing else.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <cerrno>
#include <climits>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include <dirent.h>
#include <fcntl.h>
#include <poll.h>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

extern "C" __attribute__((weak)) void __sanitizer_set_report_fd(void *);
namespace pbt {

inline uint64_t splitmix(uint64_t &x) {
    uint64_t z = (x += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
inline uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
    const unsigned char *b = (const unsigned char *)p;
    for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ull; }
    return h;
}
inline double now_s() {
    struct timespec t;
    // raw syscall-free clock: harnesses may wrap clock_gettime, so use times of day
    timespec_get(&t, TIME_UTC);
    return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec;
}

constexpr size_t MAX_CHOICES = 1 << 15;
constexpr size_t TRACE_SZ = 1 << 16;
constexpr int MAX_LABELS = 64;
constexpr int LABEL_SZ = 64;

// Area shared between the worker and the forked case.
struct Shared {
    uint32_t nchoices;
    uint32_t overrun;          // replay ran out of choices (value 0 was used)
    uint32_t nontrivial;
    uint32_t status;           // 0 running, 1 passed, 2 failed, 3 discarded
    uint32_t nlabels;
    uint32_t trace_len;
    uint64_t sub_evals;        // optional: number of elementary checks in the case
    uint64_t shape;            // optional hash naming the case for "distinct"
    char labels[MAX_LABELS][LABEL_SZ];
    char msg[8192];
    char trace[TRACE_SZ];
    uint64_t choices[MAX_CHOICES];
};

struct Ctx {
    Shared *sh = nullptr;
    const uint64_t *replay = nullptr;
    size_t nreplay = 0;
    uint64_t rng = 0;
    bool random = true;
    std::string key;      // unique name for shared memory, scratch files, ...
    std::string scratch;  // scratch directory of this case (created, removed afterwards)
    std::string tier;
    const char *variant = "";

    // --- choices -----------------------------------------------------
    uint64_t draw(uint64_t n) {  // uniform in [0,n)
        if (n <= 1) n = 1;
        uint64_t v;
        uint32_t i = sh->nchoices;
        if (i >= MAX_CHOICES) { return 0; }
        if (random) {
            v = splitmix(rng) % n;
        } else if (i < nreplay) {
            v = replay[i] % n;
        } else {
            v = 0; sh->overrun++;
        }
        sh->choices[i] = v;
        sh->nchoices = i + 1;
        return v;
    }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)(hi - lo) + 1); }
    bool flip() { return draw(2) == 1; }
    // true with probability num/den; shrinks to false
    bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }
    // index with given weights; shrinks to 0
    int weighted(std::initializer_list<unsigned> w) {
        unsigned tot = 0; for (unsigned x : w) tot += x;
        unsigned r = (unsigned)draw(tot); int i = 0;
        for (unsigned x : w) { if (r < x) return i; r -= x; ++i; }
        return 0;
    }
    template <class T> const T &pick(const std::vector<T> &v) { return v[draw(v.size())]; }
    template <class T> T oneof(std::initializer_list<T> l) { return *(l.begin() + draw(l.size())); }
    // a length in [lo,hi], skewed to small values but reaching hi
    int64_t len(int64_t lo, int64_t hi) {
        int k = (int)draw(4);
        int64_t top = k == 0 ? lo + (hi - lo) / 8 : k == 1 ? lo + (hi - lo) / 3 : hi;
        return range(lo, top);
    }
    uint64_t u64() {
        switch (draw(4)) {
            case 0: return draw(16);
            case 1: return draw(1u << 16);
            case 2: return draw(1ull << 32);
            default: return (draw(1ull << 32) << 32) | draw(1ull << 32);
        }
    }
    // --- reporting ---------------------------------------------------
    void note(const char *fmt, ...) __attribute__((format(printf, 2, 3))) {
        va_list ap; va_start(ap, fmt);
        uint32_t l = sh->trace_len;
        if (l < TRACE_SZ - 600) {
            int n = vsnprintf(sh->trace + l, 512, fmt, ap);
            if (n > 511) n = 511;
            if (n > 0) { sh->trace[l + n] = '\n'; sh->trace[l + n + 1] = 0; sh->trace_len = l + n + 1; }
        }
        va_end(ap);
    }
    void label(const char *fmt, ...) __attribute__((format(printf, 2, 3))) {
        char b[LABEL_SZ]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
        for (uint32_t i = 0; i < sh->nlabels; ++i) if (!strcmp(sh->labels[i], b)) return;
        if (sh->nlabels < MAX_LABELS) { strcpy(sh->labels[sh->nlabels], b); sh->nlabels++; }
    }
    void nontrivial() { sh->nontrivial = 1; }
    void count(uint64_t n = 1) { sh->sub_evals += n; }
    void shape(const void *p, size_t n) { sh->shape = fnv(p, n, sh->shape ? sh->shape : 1469598103934665603ull); }
    [[noreturn]] void discard() { sh->status = 3; fflush(nullptr); _exit(0); }
    [[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 2, 3))) {
        va_list ap; va_start(ap, fmt); vsnprintf(sh->msg, sizeof sh->msg, fmt, ap); va_end(ap);
        sh->status = 2;
        _exit(41);
    }
    void vcheck(bool ok, const char *fmt, ...) __attribute__((format(printf, 3, 4))) {
        sh->sub_evals++;
        if (ok) return;
        va_list ap; va_start(ap, fmt); vsnprintf(sh->msg, sizeof sh->msg, fmt, ap); va_end(ap);
        sh->status = 2;
        _exit(41);
    }
};
#define PCHECK(c, cond, ...) do { if (!(cond)) (c).fail(__VA_ARGS__); (c).sh->sub_evals++; } while (0)

struct Options {
    const char *property = "";
    const char *rule = "";
    std::vector<std::string> assumptions;
    uint64_t quick_cases = 4000;
    uint64_t thorough_cases = 80000;
    double case_timeout = 30.0;     // a case that takes longer is a hang
    double quick_cap_s = 420, thorough_cap_s = 5400;
    int workers = 0;                // 0: one per core
    bool hang_is_violation = true;
};

using CaseFn = std::function<void(Ctx &)>;

enum Outcome { PASS, FAIL, DISCARD, INCONCLUSIVE };

struct Engine {
    Options o; CaseFn fn; std::string tier; uint64_t seed = 1;
    std::string workdir;

    static std::string slurp(const std::string &p, size_t lim = 6000) {
        FILE *f = fopen(p.c_str(), "r"); if (!f) return "";
        std::string s(lim, 0); size_t n = fread(&s[0], 1, lim, f); s.resize(n); fclose(f); return s;
    }
    static void rmrf(const std::string &dir) {
        // only ever called on directories this engine created
        DIR *d = opendir(dir.c_str());
        if (d) {
            struct dirent *e;
            while ((e = readdir(d))) {
                if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
                std::string p = dir + "/" + e->d_name;
                struct stat st;
                if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rmrf(p); else unlink(p.c_str());
            }
            closedir(d);
        }
        rmdir(dir.c_str());
    }
    static void clean_shm(const std::string &key) {
        DIR *d = opendir("/dev/shm"); if (!d) return;
        struct dirent *e; std::vector<std::string> v;
        while ((e = readdir(d))) if (strstr(e->d_name, key.c_str())) v.push_back(e->d_name);
        closedir(d);
        for (auto &n : v) unlink(("/dev/shm/" + n).c_str());
    }

    // run one case in a forked child
    Outcome run_one(Shared *sh, const uint64_t *replay, size_t nreplay, uint64_t rng, bool random,
            const std::string &tag, std::string &why) {
        memset(sh, 0, offsetof(Shared, choices));
        std::string scratch = workdir + "/" + tag;
        std::string key = "vpbt" + std::to_string(getpid()) + "x" + tag;
        std::string errf = workdir + "/" + tag + ".err";
        mkdir(scratch.c_str(), 0777);
        int ready[2]; if (pipe(ready)) { perror("pipe"); _exit(3); }
        fflush(nullptr);
        pid_t pid = fork();
        if (pid < 0) { perror("fork"); close(ready[0]); close(ready[1]); return INCONCLUSIVE; }
        if (pid == 0) {
            setpgid(0, 0);
            close(ready[0]);
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            int fd = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
            dup2(fd, 1); dup2(fd, 2); if (fd > 2) close(fd);
            // reports survive a case that redirects its own stderr
            if (__sanitizer_set_report_fd) __sanitizer_set_report_fd((void *)(intptr_t)fcntl(2, F_DUPFD_CLOEXEC, 200));
            int nul = open("/dev/null", O_RDONLY); dup2(nul, 0); if (nul > 2) close(nul);
            if (chdir(scratch.c_str())) {}
            fcntl(ready[1], F_SETFD, FD_CLOEXEC);
            Ctx c; c.sh = sh; c.replay = replay; c.nreplay = nreplay; c.rng = rng; c.random = random;
            c.key = key; c.scratch = scratch; c.tier = tier;
            fn(c);
            sh->status = 1;
            fflush(nullptr);
            _exit(0);
        }
        setpgid(pid, pid);
        close(ready[1]);
        // Wait for the case with a time limit: the write end closes when the case
        // (and whatever it forked that inherited it) is gone; poll with waitpid too.
        int st = 0; bool hung = false;
        double t0 = now_s(); int step = 0;
        for (;;) {
            pid_t r = waitpid(pid, &st, WNOHANG);
            if (r == pid) break;
            if (now_s() - t0 > o.case_timeout) { hung = true; kill(-pid, SIGABRT); usleep(20000); kill(-pid, SIGKILL); waitpid(pid, &st, 0); break; }
            struct pollfd pf = {ready[0], POLLIN | POLLHUP, 0};
            // POLLHUP arrives right at exit
            int pr = poll(&pf, 1, step < 3 ? 50 : 200); step++;
            if (pr > 0) usleep(50);
        }
        close(ready[0]);
        kill(-pid, SIGKILL);   // stragglers
        clean_shm(key);
        rmrf(scratch);
        Outcome res;
        if (hung) {
            why = "hang: the case did not finish within " + std::to_string((int)o.case_timeout) + " s";
            res = o.hang_is_violation ? FAIL : INCONCLUSIVE;
        } else if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->status == 1) {
            res = PASS;
        } else if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->status == 3) {
            res = DISCARD;
        } else if (sh->status == 2) {
            why = sh->msg; res = FAIL;
        } else {
            char b[128];
            if (WIFSIGNALED(st)) snprintf(b, sizeof b, "crash: signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
            else snprintf(b, sizeof b, "abnormal exit: status %d", WEXITSTATUS(st));
            why = b;
            // SIGKILL from outside (memory pressure) decides nothing
            res = (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) ? INCONCLUSIVE : FAIL;
            why += "\n" + slurp(errf, 3000);
        }
        unlink(errf.c_str());
        return res;
    }

    static std::string jesc(const std::string &s) {
        std::string r;
        for (unsigned char ch : s) {
            if (ch == '"' || ch == '\\') { r += '\\'; r += (char)ch; }
            else if (ch == '\n') r += "\\n";
            else if (ch < 0x20 || ch >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); r += b; }
            else r += (char)ch;
        }
        return r;
    }

    struct Stats {
        uint64_t evals = 0, discards = 0, inconclusive = 0, nontriv = 0, sub = 0, maxchoices = 0;
        std::map<std::string, uint64_t> labels;
        std::unordered_set<uint64_t> shapes;
        std::vector<std::string> samples;
    };

    // shrink a failing choice sequence
    std::vector<uint64_t> shrink(Shared *sh, std::vector<uint64_t> cur, std::string &why, std::string &trace, double budget) {
        double t0 = now_s(); int execs = 0;
        bool hang = why.compare(0, 5, "hang:") == 0;
        double saved = o.case_timeout;
        if (hang) o.case_timeout = std::min(o.case_timeout, 8.0);
        auto attempt = [&](const std::vector<uint64_t> &cand) -> bool {
            if (now_s() - t0 > budget || execs > 4000) return false;
            ++execs;
            std::string w;
            Outcome r = run_one(sh, cand.data(), cand.size(), 0, false, "shrink", w);
            if (r != FAIL) return false;
            bool h = w.compare(0, 5, "hang:") == 0;
            if (h != hang) return false;
            std::vector<uint64_t> used(sh->choices, sh->choices + sh->nchoices);
            while (!used.empty() && used.back() == 0) used.pop_back();
            std::vector<uint64_t> c2 = cand; while (!c2.empty() && c2.back() == 0) c2.pop_back();
            if (used.size() < c2.size()) c2 = used;
            if (c2.size() > cur.size() || (c2.size() == cur.size() && !std::lexicographical_compare(c2.begin(), c2.end(), cur.begin(), cur.end()))) return false;
            cur = c2; why = w; trace.assign(sh->trace, sh->trace_len);
            return true;
        };
        bool progress = true;
        while (progress && now_s() - t0 < budget && execs <= 4000) {
            progress = false;
            // truncate
            for (size_t k = cur.size() / 2; k >= 1; k /= 2) {
                while (cur.size() > k) { auto c = cur; c.resize(c.size() - k); if (!attempt(c)) break; progress = true; }
                if (now_s() - t0 > budget) break;
            }
            // delete blocks
            for (size_t k : {32, 16, 8, 6, 5, 4, 3, 2, 1}) {
                for (size_t i = cur.size(); i-- > 0;) {
                    if (i + k > cur.size()) continue;
                    auto c = cur; c.erase(c.begin() + i, c.begin() + i + k);
                    if (attempt(c)) progress = true;
                    else if (i > 0 && cur[i - 1] > 0) {  // also lower a preceding count
                        auto d = c; d[i - 1]--; if (attempt(d)) progress = true;
                    }
                    if (now_s() - t0 > budget) break;
                }
            }
            // zero blocks, then lower values
            for (size_t k : {8, 4, 2, 1})
                for (size_t i = 0; i + k <= cur.size(); ++i) {
                    bool nz = false; for (size_t j = i; j < i + k; ++j) nz |= cur[j] != 0;
                    if (!nz) continue;
                    auto c = cur; for (size_t j = i; j < i + k; ++j) c[j] = 0;
                    if (attempt(c)) progress = true;
                }
            for (size_t i = 0; i < cur.size(); ++i) {
                uint64_t lo = 0;
                while (i < cur.size() && lo < cur[i]) {
                    uint64_t mid = lo + (cur[i] - lo) / 2; auto c = cur; c[i] = mid;
                    if (attempt(c)) { progress = true; } else lo = mid + 1;
                    if (now_s() - t0 > budget) break;
                }
            }
        }
        o.case_timeout = saved;
        return cur;
    }

    int main(int argc, char **argv) {
        std::string out, replay_file, replay_dir = ".";
        tier = getenv("VERIF_TIER") ? getenv("VERIF_TIER") : "quick";
        const char *s = getenv("VERIF_SEED"); seed = s && *s ? strtoull(s, nullptr, 10) : 1;
        uint64_t cases = 0; double cap = 0; int one = -1; bool verbose = false; std::string variant = "v";
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i];
            auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
            if (a == "--out") out = val();
            else if (a == "--replay") replay_file = val();
            else if (a == "--replay-dir") replay_dir = val();
            else if (a == "--tier") tier = val();
            else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
            else if (a == "--cases") cases = strtoull(val().c_str(), nullptr, 10);
            else if (a == "--cap") cap = atof(val().c_str());
            else if (a == "--workers") o.workers = atoi(val().c_str());
            else if (a == "--one") one = atoi(val().c_str());
            else if (a == "--variant") variant = val();
            else if (a == "-v") verbose = true;
        }
        if (!cases) cases = tier == "thorough" ? o.thorough_cases : o.quick_cases;
        if (cap <= 0) cap = tier == "thorough" ? o.thorough_cap_s : o.quick_cap_s;
        char tmpl[] = "/tmp/vpbt.XXXXXX";
        if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 3; }
        workdir = tmpl;
        unsetenv("DLB_ARGS"); unsetenv("DLB_AUTO_INIT");
        int W = o.workers > 0 ? o.workers : std::max(1L, sysconf(_SC_NPROCESSORS_ONLN));
        if ((uint64_t)W > cases) W = (int)cases;
        auto mkshared = [&]() { return (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); };
        uint64_t pidh = fnv(o.property, strlen(o.property));
        auto caseseed = [&](uint64_t idx) { uint64_t x = seed * 0x9E3779B97F4A7C15ull ^ pidh; splitmix(x); x ^= idx * 0xD1342543DE82EF95ull; splitmix(x); return x; };

        if (!replay_file.empty()) {
            std::vector<uint64_t> ch; FILE *f = fopen(replay_file.c_str(), "r");
            if (!f) { perror("replay"); return 3; }
            char line[1 << 16]; 
            while (fgets(line, sizeof line, f)) {
                if (strncmp(line, "choices:", 8)) continue;
                char *p = line + 8, *e; for (;;) { uint64_t v = strtoull(p, &e, 10); if (e == p) break; ch.push_back(v); p = e; }
            }
            fclose(f);
            Shared *sh = mkshared(); std::string why;
            Outcome r = run_one(sh, ch.data(), ch.size(), 0, false, "replay", why);
            printf("%.*s", (int)sh->trace_len, sh->trace);
            printf("outcome: %s %s\n", r == PASS ? "pass" : r == FAIL ? "FAIL" : "other", why.c_str());
            rmrf(workdir);
            if (r == FAIL) printf("VIOLATION property=%s replay=%s\n", o.property, replay_file.c_str());
            return r == FAIL ? 1 : 0;
        }
        if (one >= 0) {
            Shared *sh = mkshared(); std::string why;
            Outcome r = run_one(sh, nullptr, 0, caseseed(one), true, "one", why);
            printf("%.*s", (int)sh->trace_len, sh->trace);
            printf("outcome: %d %s\n", (int)r, why.c_str());
            rmrf(workdir); return r == FAIL;
        }

        struct Ctl { std::atomic<int> stop; std::atomic<uint64_t> done; };
        Ctl *ctl = (Ctl *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        double t0 = now_s();
        std::vector<pid_t> pids; fflush(nullptr);
        for (int w = 0; w < W; ++w) {
            pid_t p = fork();
            if (p < 0) { perror("fork"); return 3; }
            if (p) { pids.push_back(p); continue; }
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            Shared *sh = mkshared(); Stats st;
            std::string base = workdir + "/w" + std::to_string(w);
            for (uint64_t idx = w; idx < cases; idx += W) {
                if (ctl->stop.load() || now_s() - t0 > cap) break;
                std::string why;
                Outcome r = run_one(sh, nullptr, 0, caseseed(idx), true, "c" + std::to_string(w), why);
                st.evals++; ctl->done++;
                if (r == DISCARD) { st.discards++; continue; }
                if (r == INCONCLUSIVE) { st.inconclusive++; continue; }
                st.sub += sh->sub_evals; st.maxchoices = std::max<uint64_t>(st.maxchoices, sh->nchoices);
                for (uint32_t i = 0; i < sh->nlabels; ++i) st.labels[sh->labels[i]]++;
                if (sh->nontrivial) {
                    st.nontriv++;
                    uint64_t h = sh->shape ? sh->shape : fnv(sh->choices, sh->nchoices * 8);
                    st.shapes.insert(h);
                    if (st.samples.size() < 2 && sh->trace_len) st.samples.push_back("case " + std::to_string(idx) + ":\n" + std::string(sh->trace, std::min<uint32_t>(sh->trace_len, 1500)));
                }
                if (r == FAIL) {
                    // must fail again from the recorded choices before anyone believes it
                    std::vector<uint64_t> ch(sh->choices, sh->choices + sh->nchoices);
                    std::string first = why, trace(sh->trace, sh->trace_len); int again = 0;
                    for (int k = 0; k < 3; ++k) { std::string w2; if (run_one(sh, ch.data(), ch.size(), 0, false, "c" + std::to_string(w), w2) == FAIL) again++; }
                    FILE *f = fopen((base + (again == 3 ? ".fail" : ".flaky")).c_str(), "a");
                    fprintf(f, "case %llu again %d\n%s\n", (unsigned long long)idx, again, first.c_str());
                    if (again == 3) {
                        fprintf(f, "\nchoices:"); for (auto v : ch) fprintf(f, " %llu", (unsigned long long)v); fprintf(f, "\n");
                        fclose(f); ctl->stop = 1; break;
                    }
                    fprintf(f, "%s\n", trace.c_str());
                    fclose(f); st.labels["UNREPRODUCED failure (not reported)"]++;
                }
            }
            FILE *f = fopen((base + ".stats").c_str(), "w");
            fprintf(f, "%llu %llu %llu %llu %llu %llu\n", (unsigned long long)st.evals, (unsigned long long)st.discards, (unsigned long long)st.inconclusive, (unsigned long long)st.nontriv, (unsigned long long)st.sub, (unsigned long long)st.maxchoices);
            fprintf(f, "%zu\n", st.labels.size());
            for (auto &l : st.labels) fprintf(f, "%llu %s\n", (unsigned long long)l.second, l.first.c_str());
            fprintf(f, "%zu\n", st.shapes.size());
            for (auto h : st.shapes) fprintf(f, "%llu\n", (unsigned long long)h);
            fprintf(f, "%zu\n", st.samples.size());
            for (auto &x : st.samples) { fprintf(f, "%zu\n", x.size()); fwrite(x.data(), 1, x.size(), f); fprintf(f, "\n"); }
            fclose(f);
            _exit(0);
        }
        for (pid_t p : pids) { int st; waitpid(p, &st, 0); }
        Stats tot;
        std::vector<uint64_t> failing; std::string why; bool failed = false; std::string flaky; 
        for (int w = 0; w < W; ++w) {
            std::string base = workdir + "/w" + std::to_string(w);
            FILE *f = fopen((base + ".stats").c_str(), "r");
            if (f) {
                unsigned long long a, b, c, d, e, g; size_t n;
                if (fscanf(f, "%llu %llu %llu %llu %llu %llu", &a, &b, &c, &d, &e, &g) == 6) {
                    tot.evals += a; tot.discards += b; tot.inconclusive += c; tot.nontriv += d; tot.sub += e; tot.maxchoices = std::max<uint64_t>(tot.maxchoices, g);
                    if (fscanf(f, "%zu", &n) == 1) for (size_t i = 0; i < n; ++i) { char lb[128]; if (fscanf(f, "%llu %127[^\n]", &a, lb) == 2) tot.labels[lb] += a; }
                    if (fscanf(f, "%zu", &n) == 1) for (size_t i = 0; i < n; ++i) if (fscanf(f, "%llu", &a) == 1) tot.shapes.insert(a);
                    if (fscanf(f, "%zu", &n) == 1) for (size_t i = 0; i < n; ++i) { size_t l; if (fscanf(f, "%zu", &l) != 1) break; fgetc(f); std::string x(l, 0); if (fread(&x[0], 1, l, f) != l) break; fgetc(f); if (tot.samples.size() < 4) tot.samples.push_back(x); }
                }
                fclose(f);
            }
            flaky += slurp(base + ".flaky", 4000);
            if (!failed && (f = fopen((base + ".fail").c_str(), "r"))) {
                static char line[1 << 20]; failed = true;
                while (fgets(line, sizeof line, f)) {
                    if (!strncmp(line, "choices:", 8)) { char *p = line + 8, *e; for (;;) { uint64_t v = strtoull(p, &e, 10); if (e == p) break; failing.push_back(v); p = e; } }
                    else why += line;
                }
                fclose(f);
            }
        }
        std::string rpath;
        if (failed) {
            Shared *sh = mkshared(); std::string trace, w = why; 
            if (w.find("\nhang:") != std::string::npos) w = "hang:" + w;
            std::string wk = w; size_t nl = wk.find('\n'); if (nl != std::string::npos && wk.compare(0, 5, "hang:")) wk = wk.substr(nl + 1);
            std::string r1; run_one(sh, failing.data(), failing.size(), 0, false, "shrink", r1); trace.assign(sh->trace, sh->trace_len);
            auto small = shrink(sh, failing, wk, trace, tier == "thorough" ? 120 : 45);
            mkdir(replay_dir.c_str(), 0755);
            rpath = replay_dir + "/" + std::string(o.property) + "-" + variant + "-seed" + std::to_string(seed) + ".replay";
            FILE *f = fopen(rpath.c_str(), "w");
            if (f) {
                fprintf(f, "property: %s\nvariant: %s\nseed: %llu\nfailure: %s\nhistory:\n%s\nchoices:", o.property, variant.c_str(), (unsigned long long)seed, wk.c_str(), trace.c_str());
                for (auto v : small) fprintf(f, " %llu", (unsigned long long)v); fprintf(f, "\n"); fclose(f);
            }
            printf("failure: %s\nhistory:\n%s\n", wk.c_str(), trace.c_str());
        }
        double wall = now_s() - t0;
        if (!out.empty()) {
            FILE *f = fopen(out.c_str(), "w");
            if (f) {
                fprintf(f, "{\"variant\":\"%s\",\"evaluations\":%llu,\"planned\":%llu,\"discarded\":%llu,\"inconclusive\":%llu,\"nontrivial\":%llu,\"elementary_checks\":%llu,\"max_choices\":%llu,\"wall_s\":%.3f,\"rule\":\"%s\",\"failed\":%s,\"replay\":\"%s\",\"failure\":\"%s\",\"flaky\":\"%s\",\n\"labels\":{",
                    variant.c_str(), (unsigned long long)tot.evals, (unsigned long long)cases, (unsigned long long)tot.discards, (unsigned long long)tot.inconclusive, (unsigned long long)tot.nontriv, (unsigned long long)tot.sub, (unsigned long long)tot.maxchoices, wall, jesc(o.rule).c_str(), failed ? "true" : "false", jesc(rpath).c_str(), jesc(why.substr(0, 1500)).c_str(), jesc(flaky.substr(0, 1500)).c_str());
                bool first = true; for (auto &l : tot.labels) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(l.first).c_str(), (unsigned long long)l.second); first = false; }
                fprintf(f, "},\n\"assumptions\":["); first = true;
                for (auto &a : o.assumptions) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(a).c_str()); first = false; }
                fprintf(f, "],\n\"distinct\":%zu,\n\"samples\":[", tot.shapes.size()); first = true;
                for (auto &x : tot.samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(x).c_str()); first = false; }
                fprintf(f, "]}\n"); fclose(f);
            }
        }
        printf("%s[%s]: %llu/%llu cases, %llu nontrivial (%zu distinct), %llu checks, %.1f s\n", o.property, variant.c_str(), (unsigned long long)tot.evals, (unsigned long long)cases, (unsigned long long)tot.nontriv, tot.shapes.size(), (unsigned long long)tot.sub, wall);
        if (verbose) for (auto &l : tot.labels) printf("  %8llu %s\n", (unsigned long long)l.second, l.first.c_str());
        if (!flaky.empty() && verbose) printf("flaky:\n%s\n", flaky.c_str());
        rmrf(workdir);
        munmap(ctl, 4096);
        return failed ? 1 : 0;
    }
};

inline int run(int argc, char **argv, const Options &o, CaseFn fn) {
    Engine e; e.o = o; e.fn = fn; return e.main(argc, argv);
}

}  // namespace pbt
