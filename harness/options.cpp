// C22: option parsing against an independent model.
#include "pbt.hpp"
extern "C" {
#include "support/options.h"
#include "support/debug.h"
#include "LB_core/spd.h"
#include "apis/dlb.h"
#include "apis/dlb_errors.h"
}
using pbt::Ctx;
typedef std::string str;

enum T { B, NB, I, STR, PATH, VB, VF, INST, DBG, AFF, MODE, MPISET, OMPT, SUMM, MODEL, TM };
struct Opt { const char *name, *var, *def; T t; bool ro, deprecated, shown, adv; size_t off; };
#define O(f) offsetof(options_t, f)
// name, variable, default, type, read-only, deprecated, printed, advanced, place
static const std::vector<Opt> OPTS = {
    {"--lewi", "LB_LEWI", "no", B, true, false, true, false, O(lewi)},
    {"--drom", "LB_DROM", "no", B, true, false, true, false, O(drom)},
    {"--talp", "LB_TALP", "no", B, true, false, true, false, O(talp)},
    {"--barrier", "LB_BARRIER", "yes", B, true, false, true, false, O(barrier)},
    {"--ompt", "", "no", B, true, false, true, false, O(ompt)},
    {"--mode", "LB_MODE", "polling", MODE, true, false, true, false, O(mode)},
    {"--quiet", "", "no", B, true, false, true, false, O(quiet)},
    {"--silent", "", "no", B, true, false, true, false, O(silent)},
    {"--verbose", "LB_VERBOSE", "no", VB, true, false, true, false, O(verbose)},
    {"--verbose-format", "LB_VERBOSE_FORMAT", "node:spid", VF, true, false, true, false, O(verbose_fmt)},
    {"--instrument", "", "all", INST, true, false, true, false, O(instrument)},
    {"--instrument-counters", "", "no", B, true, false, true, false, O(instrument_counters)},
    {"--instrument-extrae-nthreads", "", "0", I, true, false, true, true, O(instrument_extrae_nthreads)},
    {"--lewi-keep-one-cpu", "", "no", B, false, false, true, false, O(lewi_keep_cpu_on_blocking_call)},
    {"--lewi-respect-cpuset", "", "yes", B, false, false, true, false, O(lewi_respect_cpuset)},
    {"--lewi-respect-mask", "", "yes", B, false, true, false, false, O(lewi_respect_cpuset)},
    {"--lewi-mpi", "", "no", NB, false, true, false, false, O(lewi_keep_cpu_on_blocking_call)},
    {"--lewi-mpi-calls", "", "all", MPISET, false, false, true, false, O(lewi_mpi_calls)},
    {"--lewi-barrier", "", "yes", B, true, false, true, false, O(lewi_barrier)},
    {"--lewi-barrier-select", "", "", STR, true, false, true, true, O(lewi_barrier_select)},
    {"--lewi-affinity", "", "auto", AFF, false, false, true, false, O(lewi_affinity)},
    {"--lewi-ompt", "", "borrow", OMPT, false, false, true, false, O(lewi_ompt)},
    {"--lewi-greedy", "", "no", B, false, false, true, false, O(lewi_greedy)},
    {"--lewi-warmup", "", "no", B, true, false, true, false, O(lewi_warmup)},
    {"--lewi-max-parallelism", "", "0", I, true, false, true, false, O(lewi_max_parallelism)},
    {"--lewi-color", "", "0", I, true, false, true, false, O(lewi_color)},
    {"--talp-openmp", "", "no", B, true, false, true, false, O(talp_openmp)},
    {"--talp-papi", "", "no", B, true, false, true, false, O(talp_papi)},
    {"--talp-summary", "LB_TALP_SUMM", "pop-metrics", SUMM, true, false, true, false, O(talp_summary)},
    {"--talp-output-file", "", "", PATH, true, false, true, false, O(talp_output_file)},
    {"--talp-external-profiler", "", "no", B, true, false, true, false, O(talp_external_profiler)},
    {"--talp-regions-per-proc", "", "100", I, true, true, false, false, O(talp_regions_per_proc)},
    {"--talp-region-select", "", "", STR, true, false, true, false, O(talp_region_select)},
    {"--talp-model", "", "hybrid-v2", MODEL, true, false, true, true, O(talp_model)},
    {"--barrier-id", "", "0", I, true, false, true, true, O(barrier_id)},
    {"--shm-key", "LB_SHM_KEY", "", STR, true, false, true, true, O(shm_key)},
    {"--shm-size-multiplier", "", "1", I, true, false, true, true, O(shm_size_multiplier)},
    {"--preinit-pid", "LB_PREINIT_PID", "0", I, true, false, false, false, O(preinit_pid)},
    {"--ompt-thread-manager", "", "none", TM, false, false, true, false, O(omptm_version)},
    {"--debug-opts", "LB_DEBUG_OPTS", "", DBG, false, false, true, true, O(debug_opts)},
};

// Every value is modelled as a canonical text
static const std::map<T, std::vector<str>> CHOICE = {
    {AFF, {"auto", "none", "mask", "nearby-first", "nearby-only", "spread-ifempty"}}, {MODE, {"polling", "async"}},
    {MPISET, {"none", "all", "barrier", "collectives"}}, {MODEL, {"hybrid-v1", "hybrid-v2"}}, {TM, {"none", "omp5", "free-agents", "role-shift"}}};
static const std::map<T, std::vector<str>> ITEMS = {
    {VB, {"api", "microlb", "shmem", "mpi_api", "mpi_intercept", "stats", "drom", "async", "ompt", "affinity", "barrier", "talp", "instrument"}},
    {VF, {"node", "mpinode", "mpirank", "spid", "thread", "timestamp"}},
    {INST, {"mpi", "lewi", "drom", "talp", "barrier", "ompt", "cpus", "callbacks"}},
    {OMPT, {"borrow", "lend"}}, {SUMM, {"pop-metrics", "pop-raw", "node", "process"}},
    {DBG, {"return-stolen", "lend-post-mortem", "warn-mpi-version", "werror"}}};

static str lower(str s) { for (auto &c : s) c = tolower(c); return s; }
static std::vector<str> split(const str &s, char d) { std::vector<str> v; str x; for (char c : s) { if (c == d) { if (!x.empty()) v.push_back(x); x.clear(); } else x += c; } if (!x.empty()) v.push_back(x); return v; }

struct Val { str text; std::set<str> items; bool all = false; bool set = false;
    bool operator==(const Val &o) const { return text == o.text && items == o.items; }
    str show() const { str s = text; for (auto &i : items) s += (s.empty() ? "" : ":") + i; return "'" + s + "'"; } };

// Meaning of a text for an option, as documented; false when it is not a value
static bool meaning(T t, const str &s, Val &v) {
    v = Val();
    switch (t) {
        case B: case NB: {
            str l = lower(s); int b = (l == "1" || l == "yes" || l == "true") ? 1 : (l == "0" || l == "no" || l == "false") ? 0 : -1;
            if (b < 0) return false;
            v.text = (b != (t == NB)) ? "yes" : "no"; return true; }
        case I: {
            char *e; errno = 0; long long x = strtoll(s.c_str(), &e, 0);
            if (e == s.c_str() || errno || x < INT_MIN || x > INT_MAX) return false;
            v.text = std::to_string(x); return true; }
        case STR: case PATH: v.text = s; return true;
        case AFF: if (lower(s) == "any") { v.text = "mask"; return true; } [[fallthrough]];
        case MODE: case MPISET: case MODEL: case TM:
            for (auto &c : CHOICE.at(t)) if (c == lower(s)) { v.text = c; return true; }
            return false;
        default: break;
    }
    auto &items = ITEMS.at(t);
    if (t == DBG) { for (auto &i : items) if (s.find(i) != str::npos) v.items.insert(i); return true; }
    if (s == "yes" && (t == VB || t == INST)) { v.items.insert(items.begin(), items.end()); return true; }
    if (s == "yes" && t == SUMM) { v.items.insert("pop-metrics"); return true; }
    if (s == "no" && (t == INST || t == SUMM || t == VB)) return true;
    for (auto &tok : split(s, ':')) {
        if (tok == "all" && t == SUMM) { v.items.insert("pop-metrics"); v.items.insert("process"); }
        else if (tok == "all" && (t == VB || t == INST)) v.items.insert(items.begin(), items.end());
        else if (tok == "app" && t == SUMM) v.items.insert("pop-metrics");
        else for (auto &i : items) if (i == tok) v.items.insert(i);
    }
    return true;
}

static Val actual(const options_t *o, const Opt &d) {
    const char *p = (const char *)o + d.off;
    Val v;
    auto bits = [&](unsigned x, std::vector<std::pair<const char *, unsigned>> m) { for (auto &[n, b] : m) if (x & b) v.items.insert(n); };
    switch (d.t) {
        case B: case NB: v.text = *(const bool *)p ? "yes" : "no"; break;
        case I: v.text = std::to_string(*(const int *)p); break;
        case STR: v.text = str(p, strnlen(p, MAX_OPTION_LENGTH)); break;
        case PATH: { const char *s = *(const char *const *)p; v.text = s ? s : ""; break; }
        case AFF: { static const std::map<int, str> m = {{LEWI_AFFINITY_AUTO, "auto"}, {LEWI_AFFINITY_NONE, "none"}, {LEWI_AFFINITY_MASK, "mask"}, {LEWI_AFFINITY_NEARBY_FIRST, "nearby-first"}, {LEWI_AFFINITY_NEARBY_ONLY, "nearby-only"}, {LEWI_AFFINITY_SPREAD_IFEMPTY, "spread-ifempty"}}; auto it = m.find(*(const int *)p); v.text = it == m.end() ? "?" : it->second; break; }
        case MODE: v.text = *(const int *)p == MODE_POLLING ? "polling" : *(const int *)p == MODE_ASYNC ? "async" : "?"; break;
        case MPISET: { static const std::map<int, str> m = {{MPISET_NONE, "none"}, {MPISET_ALL, "all"}, {MPISET_BARRIER, "barrier"}, {MPISET_COLLECTIVES, "collectives"}}; auto it = m.find(*(const int *)p); v.text = it == m.end() ? "?" : it->second; break; }
        case MODEL: v.text = *(const int *)p == TALP_MODEL_HYBRID_V1 ? "hybrid-v1" : *(const int *)p == TALP_MODEL_HYBRID_V2 ? "hybrid-v2" : "?"; break;
        case TM: { static const std::map<int, str> m = {{OMPTM_NONE, "none"}, {OMPTM_OMP5, "omp5"}, {OMPTM_FREE_AGENTS, "free-agents"}, {OMPTM_ROLE_SHIFT, "role-shift"}}; auto it = m.find(*(const int *)p); v.text = it == m.end() ? "?" : it->second; break; }
        case VB: bits(*(const unsigned *)p, {{"api", VB_API}, {"microlb", VB_MICROLB}, {"shmem", VB_SHMEM}, {"mpi_api", VB_MPI_API}, {"mpi_intercept", VB_MPI_INT}, {"stats", VB_STATS}, {"drom", VB_DROM}, {"async", VB_ASYNC}, {"ompt", VB_OMPT}, {"affinity", VB_AFFINITY}, {"barrier", VB_BARRIER}, {"talp", VB_TALP}, {"instrument", VB_INSTR}}); break;
        case VF: bits(*(const unsigned *)p, {{"node", VBF_NODE}, {"mpinode", VBF_MPINODE}, {"mpirank", VBF_MPIRANK}, {"spid", VBF_SPID}, {"thread", VBF_THREAD}, {"timestamp", VBF_TSTAMP}}); break;
        case INST: bits(*(const unsigned *)p, {{"mpi", INST_MPI}, {"lewi", INST_LEWI}, {"drom", INST_DROM}, {"talp", INST_TALP}, {"barrier", INST_BARR}, {"ompt", INST_OMPT}, {"cpus", INST_CPUS}, {"callbacks", INST_CBCK}}); break;
        case OMPT: bits(*(const unsigned *)p, {{"borrow", OMPTOOL_OPTS_BORROW}, {"lend", OMPTOOL_OPTS_LEND}}); break;
        case SUMM: bits(*(const unsigned *)p, {{"pop-metrics", SUMMARY_POP_METRICS}, {"pop-raw", SUMMARY_POP_RAW}, {"node", SUMMARY_NODE}, {"process", SUMMARY_PROCESS}}); break;
        case DBG: bits(*(const unsigned *)p, {{"return-stolen", DBG_RETURNSTOLEN}, {"werror", DBG_WERROR}, {"lend-post-mortem", DBG_LPOSTMORTEM}, {"warn-mpi-version", DBG_WARNMPI}}); break;
    }
    return v;
}

static str word(Ctx &c, const char *al, int lo, int hi) { str s; int n = c.len(lo, hi); for (int i = 0; i < n; ++i) s += al[c.draw(strlen(al))]; return s; }

static str gen_value(Ctx &c, T t, bool junk_ok = true) {
    if (junk_ok && c.chance(1, 10)) return word(c, "abcxyz019-:,=_/.%s", 0, 12);
    switch (t) {
        case B: case NB: return c.oneof<const char *>({"yes", "no", "1", "0", "true", "false", "YES", "No", "TRUE"});
        case I: switch (c.draw(5)) {
            case 0: return std::to_string(c.range(-20, 300));
            case 1: return std::to_string((int)c.draw(1ull << 32));
            case 2: return c.oneof<const char *>({"2147483647", "-2147483648", "2147483648", "99999999999", "999999999999999999999999", "-1", "0", "12345678", "9999999", "10000000", "-1000000"});
            case 3: { char b[32]; snprintf(b, 32, c.flip() ? "0x%x" : "0%o", (unsigned)c.draw(100000)); return b; }
            default: return std::to_string(c.range(0, 64)); }
        case STR: switch (c.draw(4)) {
            case 0: return word(c, "abcdefghij_-.=:,0123", 1, 63);
            case 1: { str s = c.oneof<const char *>({"include:", "exclude:", ""}); int n = c.range(1, 5); for (int i = 0; i < n; ++i) { str x = "r" + std::to_string(c.draw(100)); if (s.size() + x.size() < 60) s += (i ? "," : "") + x; } return s; }
            case 2: { str s = word(c, "abc", 1, 1); s += str(c.range(55, 62), 'k'); return s; }
            default: return word(c, "abcdefghij", 1, 10); }
        case PATH: switch (c.draw(3)) {
            case 0: return word(c, "abc/", 1, 8) + c.oneof<const char *>({".json", ".csv", ".txt", ".xml", ""});
            case 1: return "/" + word(c, "abcdefgh/._-%=", 1, 300);
            default: return "/" + str(c.range(50, 3900), 'd') + "/f.json"; }
        case AFF: if (c.chance(1, 8)) return "any"; [[fallthrough]];
        case MODE: case MPISET: case MODEL: case TM: { str s = c.pick(CHOICE.at(t)); if (c.chance(1, 6)) for (auto &x : s) x = toupper(x); return s; }
        default: break;
    }
    auto &items = ITEMS.at(t);
    if (c.chance(1, 10)) return c.oneof<const char *>({"all", "none", "yes", "no", "api:all"});
    str s; int n = c.chance(1, 4) ? (int)items.size() : c.len(1, items.size());
    for (int i = 0; i < n; ++i) {
        str it = n == (int)items.size() ? items[i] : c.pick(items);
        if (it == "werror") it = "return-stolen";   // turns warnings into failures: exercised separately
        if (c.chance(1, 12)) it = "unknown";
        s += (s.empty() ? "" : c.chance(1, 15) ? "::" : ":") + it;
    }
    return s;
}

struct Arg { int opt; str text; str value; bool has; };   // opt<0: unknown

static Arg gen_arg(Ctx &c) {
    Arg a; a.has = false;
    if (c.chance(1, 8)) {
        a.opt = -1;
        a.text = c.oneof<const char *>({"--non-existent", "--lew", "--lewi-", "lewi", "=", "==", "=yes", "--", "-", "--no-", "--no-such", "--unknown=3", "--lewi--mpi=yes", "x=y=z", "--no-lewi=yes", "%s%n", "--LEWI", "--lewix=1", "--no", "--polic=9"});
        return a;
    }
    a.opt = c.draw(OPTS.size());
    const Opt &d = OPTS[a.opt];
    switch (c.weighted({6, 2, 2, 1})) {
        case 0: a.value = gen_value(c, d.t); a.has = !a.value.empty(); a.text = str(d.name) + "=" + a.value; break;
        case 1: a.value = "yes"; a.has = true; a.text = d.name; break;
        case 2: a.value = "no"; a.has = true; a.text = str("--no-") + (d.name + 2); break;
        case 3: a.text = str(d.name) + "="; break;
    }
    return a;
}

static str gen_args(Ctx &c, std::vector<Arg> &out, int hi) {
    str s; int n = c.len(0, hi);
    auto space = [&]() { int k = c.range(1, 3); str r; for (int i = 0; i < k; ++i) r += c.chance(1, 6) ? "\t\n"[c.draw(2)] : ' '; return r; };
    if (c.chance(1, 4)) s += space();
    for (int i = 0; i < n; ++i) { Arg a = gen_arg(c); out.push_back(a); if (i) s += space(); s += a.text; }
    if (c.chance(1, 4)) s += space();
    return s;
}

static bool has_value(const std::vector<Arg> &v, int opt, str &out) { bool f = false; for (auto &a : v) if (a.opt == opt && a.has) { out = a.value; f = true; } return f; }

static void run(Ctx &c) {
    unsetenv("DLB_ARGS"); unsetenv("LB_ARGS");
    for (auto &d : OPTS) if (d.var[0]) unsetenv(d.var);
    std::vector<Arg> api, env;
    bool have_api = c.chance(3, 4), have_env = c.chance(3, 4);
    str api_s, env_s;
    if (have_api) api_s = gen_args(c, api, 12);
    if (have_env) { env_s = gen_args(c, env, 12); setenv(c.chance(1, 8) ? "LB_ARGS" : "DLB_ARGS", env_s.c_str(), 1); }
    bool env_is_dlb = getenv("DLB_ARGS") != nullptr;
    std::map<int, str> old;
    if (c.chance(1, 4)) for (int i = 0; i < (int)OPTS.size(); ++i) if (OPTS[i].var[0] && c.chance(1, 3)) { old[i] = gen_value(c, OPTS[i].t); setenv(OPTS[i].var, old[i].c_str(), 1); c.note("%s=%s", OPTS[i].var, old[i].c_str()); }
    c.note("api '%s'", api_s.c_str()); c.note("env '%s'", env_s.c_str());
    if (env.size() + api.size() >= 3) c.nontrivial();

    // expected values: DLB_ARGS, then the argument, then the old variables, then the default
    std::map<size_t, Val> exp;
    for (int i = 0; i < (int)OPTS.size(); ++i) {
        const Opt &d = OPTS[i];
        str v; bool have = false;
        if (have_api && has_value(api, i, v)) have = true;
        str w; if (have_env && has_value(env, i, w)) { if (have) c.label("overwritten"); v = w; have = true; }
        if (!have && old.count(i)) { v = old[i]; have = true; }
        Val val; bool ok = have && meaning(d.t, v, val);
        if (d.t == STR && ok) val.text = val.text.substr(0, MAX_OPTION_LENGTH - 1);
        if (have && !ok) c.label("rejected value");
        if (!ok) { if (d.deprecated) { if (d.t == I) { if (!ok) continue; } else continue; } meaning(d.t, d.def, val); }
        exp[d.off] = val;
    }
    options_t o; memset(&o, 0, sizeof o);
    options_init(&o, have_api ? api_s.c_str() : nullptr);
    auto compare = [&](const options_t *x, const char *when) {
        for (auto &d : OPTS) {
            if (!exp.count(d.off)) continue;
            Val g = actual(x, d);
            PCHECK(c, g == exp[d.off], "%s: %s is %s, expected %s", when, d.name, g.show().c_str(), exp[d.off].show().c_str());
        }
    };
    compare(&o, "after init");
    // single entries parsed without an initialized process see the environment only
    if (c.flip()) {
        for (int k = 0; k < 4; ++k) {
            int i = c.draw(OPTS.size()); const Opt &d = OPTS[i];
            if (d.t == PATH || d.deprecated) continue;
            str v; bool have = have_env && env_is_dlb && has_value(env, i, v);
            Val val; if (!have || !meaning(d.t, v, val)) meaning(d.t, d.def, val);
            if (d.t == STR) val.text = val.text.substr(0, MAX_OPTION_LENGTH - 1);
            options_t x; memset(&x, 0, sizeof x);
            options_parse_entry(d.name, (char *)&x + d.off);
            Val g = actual(&x, d);
            PCHECK(c, g == val, "entry %s is %s, expected %s", d.name, g.show().c_str(), val.show().c_str());
        }
    }
    // set and get
    char *buf = (char *)malloc(PATH_MAX + 1);
    int steps = c.len(0, 12);
    for (int k = 0; k < steps; ++k) {
        const Opt &d = OPTS[c.draw(OPTS.size())];
        str name = d.name; if (c.chance(1, 8) && d.var[0]) name = d.var; if (c.chance(1, 8)) for (auto &x : name) x = toupper(x);
        str v = gen_value(c, d.t);
        c.note("set %s %s", name.c_str(), v.c_str());
        options_t before = o;
        int e = options_set_variable(&o, name.c_str(), v.c_str());
        Val val; bool ok = meaning(d.t, v, val);
        if (d.ro) PCHECK(c, e == DLB_ERR_PERM && !memcmp(&before, &o, sizeof o), "setting read-only %s returned %d", d.name, e);
        else if (ok) { PCHECK(c, e == DLB_SUCCESS, "setting %s=%s returned %d", d.name, v.c_str(), e); exp[d.off] = val; }
        else PCHECK(c, e == DLB_ERR_NOENT && !memcmp(&before, &o, sizeof o), "setting %s to '%s' returned %d", d.name, v.c_str(), e);
        compare(&o, "after set");
    }
    PCHECK(c, options_set_variable(&o, "--none-such", "1") == DLB_ERR_NOENT, "unknown variable set");
    PCHECK(c, options_get_variable(&o, "--none-such", buf) == DLB_ERR_NOENT, "unknown variable read");
    std::map<str, str> texts;
    for (size_t i = 0; i < OPTS.size(); ++i) {
        const Opt &d = OPTS[(i * 7 + steps) % OPTS.size()];
        memset(buf, 'Q', PATH_MAX); buf[PATH_MAX] = 0;
        PCHECK(c, options_get_variable(&o, d.name, buf) == DLB_SUCCESS, "cannot read %s", d.name);
        str t = buf; texts[d.name] = t;
        Val cur = actual(&o, d), back;
        if (d.t == NB) { cur.text = cur.text; }
        PCHECK(c, meaning(d.t, t, back) && back == cur, "%s reads '%s' which means %s, but it is %s", d.name, t.c_str(), back.show().c_str(), cur.show().c_str());
        // set again
        if (!d.ro) { options_t x = o; PCHECK(c, options_set_variable(&x, d.name, t.c_str()) == DLB_SUCCESS && actual(&x, d) == cur, "%s: '%s' set again differs", d.name, t.c_str()); }
        else if (!t.empty() && d.t != PATH && c.chance(1, 4)) {
            unsetenv("DLB_ARGS"); unsetenv("LB_ARGS"); for (auto &q : OPTS) if (q.var[0]) unsetenv(q.var);
            options_t x; memset(&x, 0, sizeof x);
            options_init(&x, (str(d.name) + "=" + t).c_str());
            PCHECK(c, actual(&x, d) == cur, "%s: '%s' initialized again differs: %s", d.name, t.c_str(), actual(&x, d).show().c_str());
            options_finalize(&x);
        }
    }
    // printing
    if (c.chance(1, 4)) {
        bool ext = c.flip();
        fflush(stderr);
        int save = dup(2); int fd = open("print.txt", O_RDWR | O_CREAT | O_TRUNC, 0600); dup2(fd, 2);
        options_print_variables(&o, ext);
        fflush(stderr); dup2(save, 2); close(save);
        str out; char b[4096]; lseek(fd, 0, SEEK_SET); ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) out.append(b, n); close(fd);
        for (auto &d : OPTS) {
            str key = "\n" + str(d.name) + ":";
            size_t p = out.find(key);
            bool expect = d.shown && (ext || !d.adv);
            PCHECK(c, (p != str::npos) == expect, "option %s %s printed", d.name, expect ? "is not" : "is");
            if (!expect) continue;
            p += key.size(); while (p < out.size() && (out[p] == '\t' || out[p] == '\n')) p++;
            str want = texts[d.name] + " ";
            PCHECK(c, out.compare(p, want.size(), want) == 0, "printed value of %s is '%s', expected '%s'", d.name, out.substr(p, 40).c_str(), want.c_str());
            PCHECK(c, out.find(key, p) == str::npos, "%s printed twice", d.name);
        }
        c.label("printed");
    }
    // arbitrary text never crashes and leaves unnamed options alone
    if (c.chance(1, 4)) {
        str s; int n = c.len(0, 200);
        for (int i = 0; i < n; ++i) s += c.chance(1, 12) ? str(OPTS[c.draw(OPTS.size())].name) : str(1, " \t\n=:-,abno%sx0\x7f\xc3"[c.draw(19)]);
        if (s.find("werror") == str::npos) {
            setenv("DLB_ARGS", s.c_str(), 1);
            options_t x; memset(&x, 0, sizeof x);
            c.note("junk '%s'", s.c_str());
            options_init(&x, c.flip() ? s.c_str() : nullptr);
            for (auto &d : OPTS) if (!d.deprecated && s.find(d.name + 2) == str::npos && !(d.off == O(lewi_respect_cpuset) || d.off == O(lewi_keep_cpu_on_blocking_call))) {
                Val def; meaning(d.t, d.def, def);
                bool oldvar = d.var[0] && getenv(d.var);
                if (!oldvar) PCHECK(c, actual(&x, d) == def, "junk changed %s to %s", d.name, actual(&x, d).show().c_str());
            }
            options_finalize(&x);
            options_parse_entry("--quiet", &x.quiet);
        }
    }
    free(buf);
    options_finalize(&o);
    PCHECK(c, o.talp_output_file == nullptr, "path kept after finalize");
    if (c.chance(1, 3)) debug_init(&o);
}

int main(int argc, char **argv) {
    pbt::Options o;
    o.property = "C22";
    o.quick_cases = 30000; o.thorough_cases = 600000;
    return pbt::run(argc, argv, o, run);
}
