// C23: CPU masks and topology queries against std::set<int>.
#include "pbt.hpp"
extern "C" {
#include "support/mask_utils.h"
#include "support/debug.h"
}
using pbt::Ctx;
typedef std::set<int> S;

static cpu_set_t to(const S &s) { cpu_set_t m; CPU_ZERO(&m); for (int i : s) CPU_SET(i, &m); return m; }
static S from(const cpu_set_t &m) { S s; for (int i = 0; i < CPU_SETSIZE; ++i) if (CPU_ISSET(i, &m)) s.insert(i); return s; }
static std::string show(const S &s) { std::string r = "{"; for (int i : s) r += (r.size() > 1 ? "," : "") + std::to_string(i); return r + "}"; }
static S inter(const S &a, const S &b) { S r; for (int i : a) if (b.count(i)) r.insert(i); return r; }
static S uni(const S &a, const S &b) { S r = a; r.insert(b.begin(), b.end()); return r; }
static S diff(const S &a, const S &b) { S r; for (int i : a) if (!b.count(i)) r.insert(i); return r; }
static bool sub(const S &a, const S &b) { for (int i : a) if (!b.count(i)) return false; return true; }

struct Topo { int size; S sys; std::vector<S> cores, nodes; bool init; };

static S gen_set(Ctx &c, int n) {
    S s;
    if (n <= 0) return s;
    switch (c.weighted({3, 3, 2, 2, 1, 1})) {
        case 0: { int k = c.len(0, 8); for (int i = 0; i < k; ++i) s.insert(c.draw(n)); break; }
        case 1: { int k = c.len(1, 6); for (int i = 0; i < k; ++i) { int a = c.draw(n), l = c.len(1, n); for (int j = a; j < n && j < a + l; ++j) s.insert(j); } break; }
        case 2: { int stp = c.range(2, 5), w = c.range(1, stp - 1), off = c.draw(stp); for (int i = 0; i < n; ++i) if ((i + off) % stp < w) s.insert(i); break; }
        case 3: { uint64_t bits = 0; for (int i = 0; i < n; ++i) { if (i % 32 == 0) bits = c.draw(1ull << 32); if (bits >> (i % 32) & 1) s.insert(i); } break; }
        case 4: for (int i = 0; i < n; ++i) s.insert(i); break;
        case 5: { int b = c.oneof({0, 31, 32, 63, 64, 65, 127, 128, 255, 256, 511, 1023}); for (int j = -1; j <= 1; ++j) if (b + j >= 0 && b + j < n && c.flip()) s.insert(b + j); s.insert(n - 1); break; }
    }
    return s;
}

static Topo gen_topo(Ctx &c) {
    Topo t;
    t.init = true;
    int kind = c.weighted({2, 4, 3, 3});
    if (kind == 0) { t.init = false; t.size = CPU_SETSIZE; return t; }
    if (kind == 1) {   // regular
        int smt = c.oneof({1, 2, 4, 1, 2, 8}), nodes = c.range(1, 4), cpn = c.chance(1, 6) ? c.range(1, 40) : c.range(1, 8);
        int cores = nodes * cpn;
        while (cores * smt > CPU_SETSIZE) cores -= nodes;
        t.size = cores * smt;
        mu_testing_set_sys(t.size, cores, nodes);
        for (int i = 0; i < t.size; ++i) t.sys.insert(i);
        t.cores.resize(cores); t.nodes.resize(nodes);
        for (int i = 0; i < t.size; ++i) { t.cores[i / smt].insert(i); t.nodes[i / (t.size / nodes)].insert(i); }
        c.label("regular");
        return t;
    }
    if (kind == 2) {   // interleaved hardware threads
        int smt = c.range(2, 4), nodes = c.range(1, 3), cores = nodes * c.len(1, 24);
        t.size = cores * smt;
        t.cores.resize(cores); t.nodes.resize(nodes);
        for (int i = 0; i < t.size; ++i) { t.sys.insert(i); t.cores[i % cores].insert(i); t.nodes[(i % cores) / (cores / nodes)].insert(i); }
        c.label("interleaved");
    } else {           // irregular: holes, cores of different sizes
        int cpu = c.draw(4), ncores = c.len(1, 30), nodes = c.range(1, std::min(4, ncores));
        t.nodes.resize(nodes);
        for (int k = 0; k < ncores; ++k) {
            int w = c.range(1, 4);
            S core;
            for (int i = 0; i < w; ++i) { core.insert(cpu); t.sys.insert(cpu); cpu++; }
            t.cores.push_back(core);
            S &nd = t.nodes[k * nodes / ncores];
            nd.insert(core.begin(), core.end());
            if (c.chance(1, 6)) cpu += c.range(1, 70);
        }
        t.size = *t.sys.rbegin() + 1;
        c.label("irregular");
    }
    std::vector<cpu_set_t> cm, nm;
    for (auto &s : t.cores) cm.push_back(to(s));
    for (auto &s : t.nodes) nm.push_back(to(s));
    cpu_set_t sm = to(t.sys);
    mu_testing_set_sys_masks(&sm, cm.data(), cm.size(), nm.data(), nm.size());
    return t;
}

static S parse_list(Ctx &c, const std::string &text) {   // our own reader of "[a,b-c]"
    S s; size_t i = 0;
    while (i < text.size()) {
        size_t e; int a = std::stoi(text.substr(i), &e); i += e; int b = a;
        if (i < text.size() && text[i] == '-') { ++i; b = std::stoi(text.substr(i), &e); i += e; PCHECK(c, b > a, "range %d-%d in %s", a, b, text.c_str()); }
        for (int k = a; k <= b; ++k) { PCHECK(c, !s.count(k), "CPU %d printed twice in %s", k, text.c_str()); PCHECK(c, s.empty() || *s.rbegin() < k, "unordered list %s", text.c_str()); s.insert(k); }
        if (i < text.size()) { PCHECK(c, text[i] == ',' && i + 1 < text.size(), "unexpected text at %zu in %s", i, text.c_str()); ++i; }
    }
    return s;
}
static bool is_list(const std::string &t) { return t.find_first_not_of("0123456789,-") == std::string::npos; }

// A random notation of the set; may include CPUs >= size which must be ignored
static std::string render(Ctx &c, const S &s, int &kind) {
    kind = c.draw(4);
    std::string r;
    if (s.empty()) { kind = c.oneof({1, 2}); return kind == 1 ? std::string(c.flip() ? "0x" : "0X") + std::string(c.range(1, 40), '0') : std::string(c.flip() ? "0b" : "0B") + std::string(c.range(1, 90), '0'); }
    int last = *s.rbegin();
    if (kind == 0) {
        std::vector<std::string> parts;
        for (auto it = s.begin(); it != s.end();) {
            int a = *it, b = a;
            auto nx = it; ++nx;
            int maxrun = c.draw(4) == 0 ? 1 : 5000;
            while (nx != s.end() && *nx == b + 1 && b - a + 1 < maxrun) { b++; ++nx; }
            it = nx;
            if (b == a) parts.push_back(c.chance(1, 8) ? std::to_string(a) + "-" + std::to_string(a) : std::to_string(a));
            else parts.push_back(std::to_string(a) + "-" + std::to_string(b));
        }
        if (c.chance(1, 3)) for (size_t i = parts.size(); i-- > 1;) std::swap(parts[i], parts[c.draw(i + 1)]);
        for (auto &p : parts) r += (r.empty() ? "" : ",") + p;
        if (c.chance(1, 6)) r += "," + parts[0];   // repeated part
    } else if (kind == 1) {
        int digits = last / 4 + 1 + (c.chance(1, 3) ? c.range(1, 20) : 0);
        std::string body;
        bool up = c.flip();
        for (int d = digits - 1; d >= 0; --d) { int v = 0; for (int b = 0; b < 4; ++b) if (s.count(d * 4 + b)) v |= 1 << b; body += (up ? "0123456789ABCDEF" : "0123456789abcdef")[v]; }
        r = std::string(c.flip() ? "0x" : "0X") + body;
    } else if (kind == 2) {
        int digits = last + 1 + (c.chance(1, 3) ? c.range(1, 80) : 0);
        for (int d = digits - 1; d >= 0; --d) r += s.count(d) ? '1' : '0';
        r = std::string(c.flip() ? "0b" : "0B") + r;
    } else {
        if (last == 0) { r = "10b"; return r; }
        for (int d = 0; d <= last; ++d) r += s.count(d) ? '1' : '0';
        r += c.flip() ? "b" : "B";
    }
    return r;
}

static void run(Ctx &c) {
    debug_init(nullptr == nullptr ? [] { static options_t o; o.quiet = true; return &o; }() : nullptr);
    Topo t = gen_topo(c);
    int lim = t.init ? t.size : CPU_SETSIZE;
    auto same = [&](const char *what, const cpu_set_t &m, const S &e) { S g = from(m); PCHECK(c, g == e, "%s: got %s, expected %s", what, show(g).c_str(), show(e).c_str()); };
    std::vector<int> coreof0(CPU_SETSIZE + 8, -1);
    for (size_t k = 0; k < t.cores.size(); ++k) for (int x : t.cores[k]) coreof0[x] = k;
    if (t.init) {
        c.note("system size %d, %zu cores, %zu nodes", t.size, t.cores.size(), t.nodes.size());
        PCHECK(c, mu_get_system_size() == t.size, "system size %d, expected %d", mu_get_system_size(), t.size);
        cpu_set_t m; mu_get_system_mask(&m); same("system mask", m, t.sys);
        PCHECK(c, mu_get_num_cores() == (int)t.cores.size(), "number of cores %d", mu_get_num_cores());
        PCHECK(c, mu_system_has_smt() == (t.cores[0].size() > 1), "smt flag");
        PCHECK(c, mu_get_system_hwthreads_per_core() == (int)t.cores[0].size(), "threads per core");
        for (int cpu = -2; cpu <= t.size + 2; ++cpu) {
            int core = cpu >= 0 ? coreof0[cpu] : -1;
            PCHECK(c, mu_get_core_id(cpu) == core, "core of CPU %d is %d, expected %d", cpu, mu_get_core_id(cpu), core);
            const mu_cpuset_t *cm = mu_get_core_mask(cpu);
            PCHECK(c, (cm != nullptr) == (core >= 0), "core mask of CPU %d: %p, core %d", cpu, (void *)cm, core);
            if (cm) {
                S g; for (int i = 0; i < t.size; ++i) if (CPU_ISSET_S(i, cm->alloc_size, cm->set)) g.insert(i);
                PCHECK(c, g == t.cores[core], "core mask of CPU %d: %s expected %s", cpu, show(g).c_str(), show(t.cores[core]).c_str());
                PCHECK(c, (int)cm->count == (int)g.size() && (int)cm->first_cpuid == *g.begin() && (int)cm->last_cpuid == *g.rbegin(), "core mask summary of CPU %d", cpu);
                PCHECK(c, mu_get_core_mask_by_coreid(core) == cm, "core mask by id differs for CPU %d", cpu);
            }
        }
        PCHECK(c, !mu_get_core_mask_by_coreid(-1) && !mu_get_core_mask_by_coreid(t.cores.size()) && !mu_get_core_mask_by_coreid(t.cores.size() + 5), "core mask of an invalid core");
    } else c.label("no-topology");

    std::vector<int> coreof(CPU_SETSIZE + 8, -1);
    for (size_t k = 0; k < t.cores.size(); ++k) for (int x : t.cores[k]) coreof[x] = k;
    int rounds = c.len(1, 12);
    int interesting = 0;
    for (int r = 0; r < rounds; ++r) {
        S a = gen_set(c, lim), b;
        switch (c.draw(4)) { case 0: b = gen_set(c, lim); break; case 1: b = a; if (lim) { int x = c.draw(lim); if (b.count(x)) b.erase(x); else b.insert(x); } break; case 2: b = a; break; case 3: b = uni(a, gen_set(c, lim)); break; }
        if (a.size() > 2 && *a.rbegin() - *a.begin() >= (int)a.size()) interesting++;
        cpu_set_t A = to(a), B = to(b), R, A0 = A, B0 = B;
        // garbage beyond the words of the system must be ignored
        if (t.init && c.chance(1, 4)) { int w = (t.size + 63) / 64; if (w < 16) { A.__bits[c.range(w, 15)] |= 1ul << c.draw(64); c.label("garbage"); } }
        c.note("a=%s b=%s", show(a).c_str(), show(b).c_str());
        auto clean = [&](cpu_set_t m) { int w = t.init ? (t.size + 63) / 64 : 16; for (int i = w; i < 16; ++i) m.__bits[i] = 0; return from(m); };
        #define OP(name, expr, e) do { memset(&R, 0, sizeof R); expr; S g = clean(R); S ee = e; PCHECK(c, g == ee, name ": got %s, expected %s", show(g).c_str(), show(ee).c_str()); } while (0)
        OP("and", mu_and(&R, &A, &B), inter(a, b));
        OP("or", mu_or(&R, &A, &B), uni(a, b));
        OP("xor", mu_xor(&R, &A, &B), diff(uni(a, b), inter(a, b)));
        OP("substract", mu_substract(&R, &A, &B), diff(a, b));
        OP("in place", (R = A, mu_substract(&R, &R, &B)), diff(a, b));
        OP("zero", (R = A, mu_zero(&R)), S());
        #define Q(expr, e) do { long g = (expr), ee = (e); PCHECK(c, g == ee, #expr " is %ld, expected %ld", g, ee); } while (0)
        Q(mu_equal(&A, &B), a == b);
        Q(mu_is_subset(&A, &B), sub(a, b));
        Q(mu_is_superset(&A, &B), sub(b, a));
        Q(mu_is_proper_subset(&A, &B), sub(a, b) && a != b);
        Q(mu_is_proper_superset(&A, &B), sub(b, a) && a != b);
        Q(mu_intersects(&A, &B), !inter(a, b).empty());
        Q(mu_count(&A), a.size());
        Q(mu_get_first_cpu(&A), a.empty() ? -1 : *a.begin());
        Q(mu_get_last_cpu(&A), a.empty() ? -1 : *a.rbegin());
        Q(mu_get_single_cpu(&A), a.size() == 1 ? *a.begin() : -1);
        for (int p = -3; p < lim + 2; p += (lim > 200 && p > 130 && p < lim - 3) ? 5 : 1) {
            int e = -1; if (p >= -1) { auto it = a.upper_bound(p); if (it != a.end()) e = *it; }
            int g = mu_get_next_cpu(&A, p);
            PCHECK(c, g == e, "next CPU after %d is %d, expected %d", p, g, e);
            g = mu_get_next_unset(&A, p);
            int top = t.init ? (t.size + 63) / 64 * 64 : CPU_SETSIZE;
            e = -1; if (p >= -1) for (int q = p + 1; q < top; ++q) if (!a.count(q)) { e = q; break; }
            // beyond the system size anything unset (or none) is right
            PCHECK(c, g == e || (e >= lim && (g == -1 || g >= lim)), "next unset after %d is %d, expected %d", p, g, e);
        }
        if (t.init) {
            S full_i, full_s, nod_i, nod_s; int ncomplete = 0, lastc = -1;
            for (size_t k = 0; k < t.cores.size(); ++k) {
                if (!inter(t.cores[k], a).empty()) full_i = uni(full_i, t.cores[k]);
                if (sub(t.cores[k], a)) { full_s = uni(full_s, t.cores[k]); ncomplete++; lastc = k; }
            }
            for (auto &n : t.nodes) { if (!inter(n, a).empty()) nod_i = uni(nod_i, n); if (sub(n, a)) nod_s = uni(nod_s, n); }
            OP("cores intersecting", mu_get_cores_intersecting_with_cpuset(&R, &A), full_i);
            OP("cores within", mu_get_cores_subset_of_cpuset(&R, &A), full_s);
            OP("nodes intersecting", mu_get_nodes_intersecting_with_cpuset(&R, &A), nod_i);
            OP("nodes within", mu_get_nodes_subset_of_cpuset(&R, &A), nod_s);
            Q(mu_count_cores(&A), ncomplete);
            Q(mu_get_last_coreid(&A), lastc);
            R = A; int k = mu_take_last_coreid(&R);
            PCHECK(c, k == lastc && clean(R) == (lastc < 0 ? a : diff(a, t.cores[lastc])), "take last core: %d, expected %d", k, lastc);
            int cid = c.draw(t.cores.size());
            OP("set core", (R = A, mu_set_core(&R, cid)), uni(a, t.cores[cid]));
            OP("unset core", (R = A, mu_unset_core(&R, cid)), diff(a, t.cores[cid]));
            for (int p = -2; p < lim + 1; p += lim > 100 ? 7 : 1) {
                int pc = p >= 0 ? coreof[p] : -1;
                int e = -1;
                if (p >= -1) for (auto it = a.upper_bound(p); it != a.end(); ++it) { if (coreof[*it] > pc) { e = *it; break; } }
                int g = mu_get_cpu_next_core(&A, p);
                PCHECK(c, g == e, "next core after CPU %d: %d, expected %d", p, g, e);
            }
            // orders
            if (t.sys.size() < 64 || c.chance(1, 4)) {
            auto core_of = [&](int cpu) { return coreof[cpu]; };
            S own; for (auto &cs : t.cores) if (c.chance(1, 3)) own = uni(own, cs);
            if (own.empty()) own = t.cores[c.draw(t.cores.size())];
            std::vector<cpuid_t> v(t.sys.begin(), t.sys.end());
            for (size_t i = v.size(); i-- > 1;) std::swap(v[i], v[c.draw(i + 1)]);
            auto v2 = v;
            cpu_set_t O = to(own);
            int fc = core_of(*own.begin());
            auto keyown = [&](int cpu) { int k = core_of(cpu); return std::make_tuple(own.count(cpu) ? 0 : k > fc ? 1 : 2, k, cpu); };
            qsort_r(v.data(), v.size(), sizeof(cpuid_t), mu_cmp_cpuids_by_ownership, &O);
            std::vector<int> e(t.sys.begin(), t.sys.end());
            std::sort(e.begin(), e.end(), [&](int x, int y) { return keyown(x) < keyown(y); });
            PCHECK(c, std::equal(e.begin(), e.end(), v.begin(), [](int x, cpuid_t y) { return x == (int)y; }), "order by ownership of %s is wrong", show(own).c_str());
            // affinity levels: owned, nodes of the owned, system
            std::vector<S> lv{own};
            S l1; for (auto &n : t.nodes) if (!inter(n, own).empty()) l1 = uni(l1, n);
            if (c.flip()) lv.push_back(uni(own, l1));
            if (c.flip() || lv.size() == 1) lv.push_back(t.sys);
            cpu_set_t aff[5]; for (auto &x : aff) CPU_ZERO(&x);
            for (size_t i = 0; i < lv.size(); ++i) aff[i] = to(lv[i]);
            auto level = [&](int cpu) { int l = 0; for (auto &s : lv) if (!s.count(cpu)) l++; return l; };
            auto keyaff = [&](int cpu) { int l = level(cpu), k = core_of(cpu); return std::make_tuple(l, l == 1 ? (k > fc ? 0 : 1) : 0, k, cpu); };
            qsort_r(v2.data(), v2.size(), sizeof(cpuid_t), mu_cmp_cpuids_by_affinity, aff);
            std::sort(e.begin(), e.end(), [&](int x, int y) { return keyaff(x) < keyaff(y); });
            PCHECK(c, std::equal(e.begin(), e.end(), v2.begin(), [](int x, cpuid_t y) { return x == (int)y; }), "order by affinity of %s is wrong", show(own).c_str());
            }
        }
        // printing
        std::string str = mu_to_str(&A0);
        PCHECK(c, str.size() >= 2 && str[0] == '[' && str.back() == ']', "printed %s", str.c_str());
        std::string body = str.substr(1, str.size() - 2);
        PCHECK(c, is_list(body) && parse_list(c, body) == a, "printed %s for %s", str.c_str(), show(a).c_str());
        {
            size_t len = c.flip() ? body.size() + 3 + c.draw(4) : c.range(0, body.size() + 5);
            std::vector<char> buf(len + 1, 'Z');
            char *heap = (char *)malloc(len ? len : 1); if (len) memset(heap, 'Z', len);
            mu_get_quoted_mask(&A0, heap, len);
            if (len >= 3) {
                std::string q(heap, strnlen(heap, len));
                PCHECK(c, q.size() < len, "quoted mask not terminated");
                PCHECK(c, q.size() >= 2 && q[0] == '"' && q.back() == '"', "quoted mask %s (%zu bytes)", q.c_str(), len);
                std::string qb = q.substr(1, q.size() - 2);
                if (len >= body.size() + 3) PCHECK(c, qb == body, "quoted mask %s for %s", q.c_str(), body.c_str());
                else PCHECK(c, is_list(qb) && body.compare(0, qb.size(), qb) == 0 && (qb.empty() || body[qb.size()] == ','), "truncated mask %s for %s", q.c_str(), body.c_str());
            }
            free(heap);
        }
        char *sl = mu_parse_to_slurm_format(&A0);
        std::string slurm = sl; free(sl);
        {
            PCHECK(c, slurm.compare(0, 2, "0x") == 0 && slurm.size() > 2, "slurm mask %s", slurm.c_str());
            S g; int n = slurm.size();
            for (int i = n - 1; i >= 2; --i) { char ch = slurm[i]; PCHECK(c, isxdigit(ch), "slurm mask %s", slurm.c_str()); int v = ch <= '9' ? ch - '0' : ch - 'a' + 10; for (int k = 0; k < 4; ++k) if (v >> k & 1) g.insert((n - 1 - i) * 4 + k); }
            PCHECK(c, g == a, "slurm mask %s for %s", slurm.c_str(), show(a).c_str());
        }
        // parsing
        S w = t.init && c.chance(1, 4) ? gen_set(c, CPU_SETSIZE) : a;   // may name CPUs the system does not have
        int kind; std::string text = render(c, w, kind);
        if (text.size() <= CPU_SETSIZE) {
            memset(&R, c.flip() ? 0xff : 0, sizeof R);
            mu_parse_mask(text.c_str(), &R);
            S e; for (int i : w) if (i < lim) e.insert(i);
            c.note("parse %s", text.c_str());
            PCHECK(c, from(R) == e, "parsed %s as %s", text.c_str(), show(from(R)).c_str());
            c.label(kind == 0 ? "list" : kind == 1 ? "hex" : kind == 2 ? "binary" : "old-binary");
            if (str.size() <= CPU_SETSIZE && !a.empty()) {
                cpu_set_t P; mu_parse_mask(body.c_str(), &P); PCHECK(c, from(P) == a, "round trip of %s", str.c_str());
                std::string t2 = render(c, a, kind);
                if (t2.size() <= CPU_SETSIZE) Q(mu_equivalent_masks(t2.c_str(), body.c_str()), 1);
                std::string t3 = render(c, b, kind);
                if (t3.size() <= CPU_SETSIZE) Q(mu_equivalent_masks(t2.size() <= CPU_SETSIZE ? t2.c_str() : body.c_str(), t3.c_str()), a == b);
            }
        }
        // junk never crashes, and never names CPUs out of the system
        if (c.chance(1, 3)) {
            std::string j; int n = c.len(0, 60);
            const char *al = "0123456789,-xXbBaAfF []\t.";
            bool listy = c.flip();
            for (int i = 0; i < n; ++i) j += listy ? "0123456789,-"[c.draw(12)] : al[c.draw(strlen(al))];
            CPU_ZERO(&R);
            c.note("junk '%s'", j.c_str());
            mu_parse_mask(j.c_str(), &R);
            for (int i : from(R)) PCHECK(c, i < lim, "junk '%s' names CPU %d", j.c_str(), i);
            mu_equivalent_masks(j.c_str(), text.c_str());
        }
    }
    if (t.init) mu_finalize();
    if (interesting) c.nontrivial();
}

int main(int argc, char **argv) {
    pbt::Options o;
    o.property = "C23";
    o.quick_cases = 5000; o.thorough_cases = 100000;
    return pbt::run(argc, argv, o, run);
}
