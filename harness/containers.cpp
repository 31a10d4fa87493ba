// C24: containers against their abstract types (model-based operation sequences).
#include "pbt.hpp"
#include <list>
#include <deque>
extern "C" {
#include "support/queues.h"
#include "support/gtree.h"
#include "support/gslist.h"
#include "apis/dlb_errors.h"
#include "LB_core/spd.h"
#include "support/small_array.h"
typedef struct rec_s { int key; int extra; } rec_t;
typedef int qint;
#define QUEUE_T qint
#define QUEUE_SIZE 5
#include "support/queue_template.h"
#define QUEUE_T rec_t
#define QUEUE_KEY_T int
#define QUEUE_SIZE 9
#include "support/queue_template.h"
#define ARRAY_T qint
#include "support/array_template.h"
#define ARRAY_T rec_t
#define ARRAY_KEY_T int
#include "support/array_template.h"
}
using pbt::Ctx;

// ---------------------------------------------------------------- queue template
template <class Q, class T, class F> static void dump(Q *q, std::vector<T> &v, F front, T *(*next)(Q *, T *)) {
    for (T *p = front(q); p; p = next(q, p)) { v.push_back(*p); if (v.size() > 64) return; }
}
static void q_template(Ctx &c) {
    queue_rec_t q; queue_rec_t_init(&q);
    const size_t cap = 8;                 // one slot is always kept empty
    std::deque<rec_t> m; int serial = 0; bool wrapped = false, removed = false; int enq = 0;
    int n = c.len(1, 80); int keys = c.range(1, 5);
    auto same = [&](const char *op) {
        PCHECK(c, queue_rec_t_size(&q) == m.size(), "%s: size %zu, expected %zu", op, queue_rec_t_size(&q), m.size());
        PCHECK(c, queue_rec_t_empty(&q) == m.empty(), "%s: empty wrong", op);
        std::vector<rec_t> v;
        for (rec_t *p = queue_rec_t_front(&q); p; p = queue_rec_t_next(&q, p)) { v.push_back(*p); if (v.size() > 40) c.fail("%s: iteration does not end", op); }
        PCHECK(c, v.size() == m.size(), "%s: iteration yields %zu elements, expected %zu", op, v.size(), m.size());
        for (size_t i = 0; i < v.size(); ++i) PCHECK(c, v[i].key == m[i].key && v[i].extra == m[i].extra, "%s: element %zu is (%d,%d), expected (%d,%d)", op, i, v[i].key, v[i].extra, m[i].key, m[i].extra);
        rec_t *b = queue_rec_t_back(&q);
        PCHECK(c, (b == nullptr) == m.empty(), "%s: back of queue", op);
        if (b) PCHECK(c, b->extra == m.back().extra, "%s: back is (%d,%d)", op, b->key, b->extra);
    };
    for (int i = 0; i < n; ++i) {
        switch (c.weighted({6, 3, 2, 2, 2, 1, 1})) {
            case 0: { rec_t r = {(int)c.range(1, keys), ++serial}; int rc = queue_rec_t_enqueue(&q, r); c.note("enqueue key=%d -> %d", r.key, rc);
                bool full = m.size() == cap; PCHECK(c, rc == (full ? -1 : 0), "enqueue on a queue with %zu of %zu returned %d", m.size(), cap, rc);
                if (!full) m.push_back(r); if (++enq > 9) wrapped = true; same("enqueue"); break; }
            case 1: { rec_t r = {-1, -1}; int rc = queue_rec_t_dequeue(&q, &r); c.note("dequeue -> %d", rc);
                PCHECK(c, rc == (m.empty() ? -1 : 0), "dequeue returned %d with %zu elements", rc, m.size());
                if (!m.empty()) { PCHECK(c, r.extra == m.front().extra && r.key == m.front().key, "dequeue gave (%d,%d)", r.key, r.extra); m.pop_front(); } same("dequeue"); break; }
            case 2: { int k = c.range(1, keys); c.note("remove key=%d", k); size_t before = m.size(); queue_rec_t_remove(&q, k);
                std::deque<rec_t> k2; for (auto &r : m) if (r.key != k) k2.push_back(r); m = k2; if (m.size() != before && !m.empty()) removed = true; same("remove"); break; }
            case 3: { if (m.empty()) break; int at = c.range(0, m.size() - 1); c.note("delete #%d", at); rec_t *p = queue_rec_t_front(&q); for (int j = 0; j < at; ++j) p = queue_rec_t_next(&q, p);
                queue_rec_t_delete(&q, p); m.erase(m.begin() + at); if (at > 0) removed = true; same("delete"); break; }
            case 4: { rec_t r = {(int)c.range(1, keys), ++serial}; c.note("replace key=%d", r.key); queue_rec_t_replace(&q, r); for (auto &x : m) if (x.key == r.key) { x = r; break; } same("replace"); break; }
            case 5: { int k = c.range(1, keys); rec_t *p = queue_rec_t_search(&q, k); rec_t *e = nullptr; for (auto &x : m) if (x.key == k) { e = &x; break; }
                PCHECK(c, (p == nullptr) == (e == nullptr), "search key %d: found=%d expected=%d", k, p != nullptr, e != nullptr); if (p) PCHECK(c, p->extra == e->extra, "search returned not the first match"); break; }
            default: if (c.chance(1, 6)) { c.note("clear"); queue_rec_t_clear(&q); m.clear(); same("clear"); } break;
        }
    }
    if (wrapped && removed) c.nontrivial();
    c.label("queue_template");
}
static void q_template_int(Ctx &c) {
    queue_qint q; queue_qint_init(&q); std::deque<int> m; int n = c.len(1, 60); bool wr = false; int enq = 0;
    for (int i = 0; i < n; ++i) {
        switch (c.weighted({5, 3, 2, 2})) {
            case 0: { int k = c.range(1, 6); int rc = queue_qint_enqueue(&q, k); c.note("enqueue %d -> %d", k, rc); PCHECK(c, rc == (m.size() == 4 ? -1 : 0), "enqueue rc %d", rc); if (m.size() < 4) m.push_back(k); if (++enq > 5) wr = true; break; }
            case 1: { int k = 0; int rc = queue_qint_dequeue(&q, &k); c.note("dequeue -> %d,%d", rc, k); PCHECK(c, rc == (m.empty() ? -1 : 0), "dequeue rc %d", rc); if (!m.empty()) { PCHECK(c, k == m.front(), "dequeue gave %d expected %d", k, m.front()); m.pop_front(); } break; }
            case 2: { int k = c.range(1, 6); c.note("remove %d", k); queue_qint_remove(&q, k); std::deque<int> k2; for (int x : m) if (x != k) k2.push_back(x); m = k2; break; }
            default: { int k = c.range(1, 6); int *p = queue_qint_search(&q, k); bool e = std::find(m.begin(), m.end(), k) != m.end(); PCHECK(c, (p != nullptr) == e, "search %d", k); if (p && c.flip()) { c.note("delete first %d", k); queue_qint_delete(&q, p); m.erase(std::find(m.begin(), m.end(), k)); } break; }
        }
        std::vector<int> v; for (int *p = queue_qint_front(&q); p; p = queue_qint_next(&q, p)) { v.push_back(*p); if (v.size() > 20) c.fail("iteration does not end"); }
        PCHECK(c, v == std::vector<int>(m.begin(), m.end()) && queue_qint_size(&q) == m.size(), "contents differ from the model (%zu vs %zu)", v.size(), m.size());
    }
    if (wr) c.nontrivial();
    c.label("queue_template_int");
}
// ---------------------------------------------------------------- arrays
static void arrays(Ctx &c) {
    int cap = c.range(1, 200); array_rec_t a; array_rec_t_init(&a, cap); std::vector<rec_t> m; int n = c.len(0, 250); int maxsz = 0;
    for (int i = 0; i < n; ++i) switch (c.weighted({12, 2, 1})) {
        case 0: if ((int)m.size() < cap) { rec_t r = {(int)c.range(-50, 50), i}; array_rec_t_push(&a, r); m.push_back(r); } break;
        case 1: { array_rec_t_sort(&a); std::vector<rec_t> got; for (size_t k = 0; k < array_rec_t_count(&a); ++k) got.push_back(array_rec_t_get(&a, k));
            for (size_t k = 1; k < got.size(); ++k) PCHECK(c, got[k - 1].key <= got[k].key, "sort: position %zu out of order", k);
            auto lt = [](const rec_t &x, const rec_t &y) { return std::make_pair(x.key, x.extra) < std::make_pair(y.key, y.extra); };
            auto s1 = got, s2 = m; std::sort(s1.begin(), s1.end(), lt); std::sort(s2.begin(), s2.end(), lt);
            PCHECK(c, s1.size() == s2.size(), "sort lost elements"); for (size_t k = 0; k < s1.size(); ++k) PCHECK(c, s1[k].key == s2[k].key && s1[k].extra == s2[k].extra, "sort is not a permutation");
            m = got; maxsz = std::max<int>(maxsz, m.size()); break; }
        default: if (c.chance(1, 8)) { array_rec_t_clear(&a); m.clear(); } break;
    }
    PCHECK(c, array_rec_t_count(&a) == m.size(), "count %zu expected %zu", array_rec_t_count(&a), m.size());
    for (size_t k = 0; k < m.size(); ++k) { rec_t r = array_rec_t_get(&a, k); PCHECK(c, r.key == m[k].key && r.extra == m[k].extra, "get(%zu)", k); }
    c.note("array capacity %d, %d operations, final %zu", cap, n, m.size());
    array_rec_t_destroy(&a);
    size_t sz = c.oneof<size_t>({1, 5, 63, 64, 65, 128, 400});
    { SMALL_ARRAY(int, sa, sz); for (size_t i = 0; i < sz; ++i) sa[i] = (int)i * 3; for (size_t i = 0; i < sz; ++i) PCHECK(c, sa[i] == (int)i * 3, "small array"); }
    { SMALL_ARRAY(lewi_request_t, sb, sz); for (size_t i = 0; i < sz; ++i) sb[i].howmany = i; for (size_t i = 0; i < sz; ++i) PCHECK(c, sb[i].howmany == i, "small array"); }
    if (maxsz > 5) c.nontrivial();
    c.label("arrays");
}
// ---------------------------------------------------------------- lewi reqs
static void lewi_reqs(Ctx &c) {
    static queue_lewi_reqs_t q; queue_lewi_reqs_init(&q); std::map<int, unsigned> m;
    int n = c.len(1, 60); int npid = c.oneof<int>({2, 3, 6, 40}); bool big = c.chance(1, 12); bool popped = false;
    if (big) { npid = 300; for (int p = 1; p <= 260; ++p) { unsigned h = 1 + (p * 7) % 5; int rc = queue_lewi_reqs_push(&q, p, h); bool full = m.size() == 255; PCHECK(c, rc == (full ? DLB_ERR_REQST : DLB_SUCCESS), "push %d-th distinct pid returned %d", p, rc); if (!full) m[p] = h; } c.note("filled with 255 requests"); }
    for (int i = 0; i < n; ++i) {
        switch (c.weighted({6, 2, 4, 1})) {
            case 0: { int p = c.range(0, npid); unsigned h = c.range(0, 12); int rc = queue_lewi_reqs_push(&q, p, h); c.note("push pid=%d n=%u -> %d", p, h, rc);
                if (p == 0) { PCHECK(c, rc == DLB_NOUPDT, "push of no process returned %d", rc); break; }
                if (h == 0) { m.erase(p); PCHECK(c, rc == DLB_SUCCESS, "push 0 rc %d", rc); break; }
                if (!m.count(p) && m.size() == 255) { PCHECK(c, rc == DLB_ERR_REQST, "push on full queue returned %d", rc); break; }
                m[p] += h; PCHECK(c, rc == DLB_SUCCESS, "push rc %d", rc); break; }
            case 1: { int p = c.range(0, npid); unsigned r = queue_lewi_reqs_remove(&q, p); c.note("remove pid=%d -> %u", p, r); unsigned e = m.count(p) ? m[p] : 0; PCHECK(c, r == e, "remove pid %d returned %u, expected %u", p, r, e); m.erase(p); break; }
            case 2: { unsigned ncpus = c.range(0, c.oneof<int>({3, 20, 100, 1200})); unsigned maxr = c.chance(1, 4) ? c.range(1, 5) : 512; static lewi_request_t out[512]; unsigned nr = 999;
                std::map<int, unsigned> before = m; unsigned left = queue_lewi_reqs_pop_ncpus(&q, ncpus, out, &nr, maxr); c.note("pop ncpus=%u max=%u -> %u requests, %u left", ncpus, maxr, nr, left);
                PCHECK(c, nr <= maxr && nr <= before.size(), "pop returned %u requests (max %u, queue %zu)", nr, maxr, before.size());
                unsigned sum = 0, tot = 0; for (auto &x : before) tot += x.second; std::set<int> seen;
                for (unsigned k = 0; k < nr; ++k) { int p = out[k].pid; PCHECK(c, before.count(p) && seen.insert(p).second, "pop: pid %d not queued or twice", p); PCHECK(c, out[k].howmany >= 1 && out[k].howmany <= before[p], "pop gave %u CPUs to pid %d, who asked for %u", out[k].howmany, p, before[p]); sum += out[k].howmany; m[p] -= out[k].howmany; if (!m[p]) m.erase(p); }
                PCHECK(c, sum + left == ncpus, "pop: %u given + %u left != %u", sum, left, ncpus);
                if (maxr >= before.size()) {
                    PCHECK(c, left == (ncpus > tot ? ncpus - tot : 0), "pop: %u CPUs left although %u were requested of %u", left, tot, ncpus);
                    unsigned lo = UINT_MAX, hi = 0; for (auto &x : m) { unsigned g = before[x.first] - x.second; lo = std::min(lo, g); hi = std::max(hi, g); }
                    if (!m.empty()) PCHECK(c, hi - lo <= 1, "pop: unsatisfied processes received between %u and %u", lo, hi);
                    // nobody satisfied with less received more than an unsatisfied one allows: satisfied ones got at most hi
                    if (!m.empty()) for (auto &x : before) if (!m.count(x.first)) PCHECK(c, x.second <= hi + 1, "pop: pid %d received %u, more than the even share %u", x.first, x.second, hi);
                    if (nr >= 2) popped = true;
                }
                break; }
            default: { int p = c.range(0, npid); unsigned g = queue_lewi_reqs_get(&q, p); PCHECK(c, g == (m.count(p) ? m[p] : 0), "get pid %d returned %u", p, g); break; }
        }
        PCHECK(c, queue_lewi_reqs_size(&q) == m.size(), "size %u, expected %zu", queue_lewi_reqs_size(&q), m.size());
        for (auto &x : m) PCHECK(c, queue_lewi_reqs_get(&q, x.first) == x.second, "pid %d has %u requests, expected %u", x.first, queue_lewi_reqs_get(&q, x.first), x.second);
    }
    if (popped) c.nontrivial();
    c.label("lewi_reqs");
}
// ---------------------------------------------------------------- proc reqs, pids
static void proc_reqs(Ctx &c) {
    static queue_proc_reqs_t q; queue_proc_reqs_init(&q); struct R { int pid; unsigned n; }; std::deque<R> m; bool served = false;
    // start the ring near its end in some cases, so that it wraps around
    int shift = c.oneof<int>({0, 0, 4090, 4094, 4095});
    for (int i = 0; i < shift; ++i) { queue_proc_reqs_push(&q, 1 + i % 2, 1, nullptr); queue_proc_reqs_pop(&q, nullptr); }
    int n = c.len(1, 60); std::vector<cpu_set_t> masks(7); for (int p = 1; p <= 6; ++p) { CPU_ZERO(&masks[p]); bool any = c.flip(); for (int k = 0; k < 6; ++k) if (any || c.flip()) CPU_SET(k, &masks[p]); }
    c.note("ring shifted by %d", shift);
    for (int i = 0; i < n; ++i) switch (c.weighted({6, 2, 2, 3})) {
        case 0: { int p = c.range(1, 6); unsigned h = c.range(0, 3); int rc = queue_proc_reqs_push(&q, p, h, &masks[p]); c.note("push pid=%d n=%u -> %d", p, h, rc);
            if (h == 0) { PCHECK(c, rc == DLB_SUCCESS, "rc %d", rc); std::deque<R> k; for (auto &r : m) if (r.pid != p) k.push_back(r); m = k; break; }
            PCHECK(c, rc == DLB_NOTED, "push rc %d", rc); 
            if (!m.empty() && m.back().pid == p && queue_proc_reqs_back(&q)->pid == p && queue_proc_reqs_back(&q)->howmany == m.back().n + h) m.back().n += h; else m.push_back({p, h}); break; }
        case 1: { int p = c.range(1, 6); c.note("remove pid=%d", p); queue_proc_reqs_remove(&q, p); std::deque<R> k; for (auto &r : m) if (r.pid != p) k.push_back(r); m = k; break; }
        case 2: { process_request_t r; memset(&r, 0, sizeof r); queue_proc_reqs_pop(&q, &r); c.note("pop -> pid=%d n=%u", r.pid, r.howmany); if (m.empty()) { PCHECK(c, r.pid == 0, "pop of an empty queue gave pid %d", r.pid); break; } 
            PCHECK(c, r.pid == m.front().pid && r.howmany == m.front().n, "pop gave (%d,%u), expected (%d,%u)", r.pid, r.howmany, m.front().pid, m.front().n); m.pop_front(); break; }
        default: { int cpu = c.range(0, 5); pid_t p = -1; queue_proc_reqs_get(&q, &p, cpu); c.note("get cpu=%d -> %d", cpu, p); int e = 0; size_t k = 0; for (; k < m.size(); ++k) if (CPU_ISSET(cpu, &masks[m[k].pid])) { e = m[k].pid; break; }
            PCHECK(c, p == e, "get(%d) served pid %d, the first entitled is %d", cpu, p, e); if (e) { served = true; if (--m[k].n == 0) m.erase(m.begin() + k); } break; }
    }
    // drain
    while (!m.empty()) { process_request_t r; memset(&r, 0, sizeof r); queue_proc_reqs_pop(&q, &r); PCHECK(c, r.pid == m.front().pid && r.howmany == m.front().n, "drain gave (%d,%u), expected (%d,%u)", r.pid, r.howmany, m.front().pid, m.front().n); m.pop_front(); }
    PCHECK(c, queue_proc_reqs_size(&q) == 0, "drained queue has size %u", queue_proc_reqs_size(&q));
    if (served) c.nontrivial();
    c.label("proc_reqs");
}
static void pids(Ctx &c) {
    queue_pids_t q; queue_pids_init(&q); std::deque<int> m; int n = c.len(1, 60); int enq = 0; bool rem = false;
    for (int i = 0; i < n; ++i) switch (c.weighted({5, 2, 3})) {
        case 0: { int p = c.range(1, 6); int rc = queue_pids_push(&q, p); c.note("push %d -> %d", p, rc); if (m.size() >= 7) PCHECK(c, rc == DLB_ERR_REQST, "push on full returned %d", rc);
            else PCHECK(c, rc == DLB_NOTED || rc == DLB_ERR_REQST, "rc %d", rc); if (rc == DLB_NOTED) { m.push_back(p); enq++; } else { unsigned s = queue_pids_size(&q); PCHECK(c, s == 7, "refused with size %u", s); } break; }
        case 1: { int p = c.range(1, 6); c.note("remove %d", p); queue_pids_remove(&q, p); std::deque<int> k; for (int x : m) if (x != p) k.push_back(x); rem |= k.size() != m.size() && k.size(); m = k; break; }
        default: { pid_t p = -1; queue_pids_pop(&q, &p); c.note("pop -> %d", p); int e = m.empty() ? 0 : m.front(); PCHECK(c, p == e, "pop gave %d, expected %d", p, e); if (!m.empty()) m.pop_front(); break; }
    }
    while (!m.empty()) { pid_t p; queue_pids_pop(&q, &p); PCHECK(c, p == m.front(), "drain gave %d, expected %d", p, m.front()); m.pop_front(); }
    pid_t p; queue_pids_pop(&q, &p); PCHECK(c, p == 0 && queue_pids_size(&q) == 0, "drained queue not empty");
    if (rem && enq > 8) c.nontrivial();
    c.label("pids");
}
// ---------------------------------------------------------------- list, tree
static void slist(Ctx &c) {
    GSList *l = nullptr; std::list<long> m; int n = c.len(1, 60); bool dup = false;
    for (int i = 0; i < n; ++i) {
        long v = c.range(1, 8);
        switch (c.weighted({5, 3, 1})) {
            case 0: dup |= std::find(m.begin(), m.end(), v) != m.end(); l = g_slist_prepend(l, (gpointer)v); m.push_front(v); c.note("prepend %ld", v); break;
            case 1: { l = g_slist_remove(l, (gpointer)v); auto it = std::find(m.begin(), m.end(), v); if (it != m.end()) m.erase(it); c.note("remove %ld", v); break; }
            default: l = g_slist_reverse(l); m.reverse(); c.note("reverse"); break;
        }
        PCHECK(c, g_slist_length(l) == m.size(), "length %u expected %zu", g_slist_length(l), m.size());
        auto it = m.begin(); for (GSList *p = l; p; p = p->next, ++it) PCHECK(c, it != m.end() && (long)p->data == *it, "list differs");
        std::vector<long> got; g_slist_foreach(l, [](gpointer d, gpointer u) { ((std::vector<long> *)u)->push_back((long)d); }, &got);
        PCHECK(c, got == std::vector<long>(m.begin(), m.end()), "foreach differs");
    }
    g_slist_free(l);
    if (dup) c.nontrivial();
    c.label("slist");
}
static std::map<long, int> *destroyed_keys, *destroyed_vals;
static int tcmp(gconstpointer a, gconstpointer b, gpointer) { long x = (long)a / 100, y = (long)b / 100; return x < y ? -1 : x > y; }
static int tcmp2(gconstpointer a, gconstpointer b) { return tcmp(b, a, nullptr); }  // <0: go left
static void gtree(Ctx &c) {
    // keys are longs compared by key/100: equal keys may have different identity
    std::map<long, int> dk, dv; destroyed_keys = &dk; destroyed_vals = &dv;
    GTree *t = g_tree_new_full(tcmp, nullptr, [](gpointer k) { (*destroyed_keys)[(long)k]++; }, [](gpointer v) { (*destroyed_vals)[(long)v]++; });
    std::map<long, std::pair<long, long>> m; std::map<long, int> edk, edv; long ser = 0; int n = c.len(1, 150); int kr = c.oneof<int>({4, 12, 60, 400}); size_t maxn = 0; int dels = 0;
    for (int i = 0; i < n; ++i) {
        long kk = c.range(1, kr); long key = kk * 100 + (ser % 100), val = ++ser * 1000 + 7;
        switch (c.weighted({8, 2, 5, 1, 2, 1})) {
            case 0: g_tree_insert(t, (gpointer)key, (gpointer)val); c.note("insert %ld", kk); if (m.count(kk)) { edv[m[kk].second]++; edk[key]++; m[kk].second = val; } else m[kk] = {key, val}; break;
            case 1: g_tree_replace(t, (gpointer)key, (gpointer)val); c.note("replace %ld", kk); if (m.count(kk)) { edv[m[kk].second]++; edk[m[kk].first]++; } m[kk] = {key, val}; break;
            case 2: { int r = g_tree_remove(t, (gconstpointer)key); c.note("remove %ld -> %d", kk, r); PCHECK(c, (r != 0) == (m.count(kk) > 0), "remove returned %d", r); if (m.count(kk)) { edk[m[kk].first]++; edv[m[kk].second]++; m.erase(kk); dels++; } break; }
            case 3: { int r = g_tree_steal(t, (gconstpointer)key); c.note("steal %ld -> %d", kk, r); PCHECK(c, (r != 0) == (m.count(kk) > 0), "steal returned %d", r); m.erase(kk); break; }
            case 4: { gpointer v = g_tree_lookup(t, (gconstpointer)key); long e = m.count(kk) ? m[kk].second : 0; PCHECK(c, (long)v == e, "lookup %ld gave %ld expected %ld", kk, (long)v, e);
                gpointer ok = nullptr, vv = nullptr; int r = g_tree_lookup_extended(t, (gconstpointer)key, &ok, &vv); PCHECK(c, (r != 0) == (m.count(kk) > 0), "lookup_extended"); if (r) PCHECK(c, (long)ok == m[kk].first && (long)vv == e, "lookup_extended key/value");
                GTreeNode *nd = g_tree_lookup_node(t, (gconstpointer)key); PCHECK(c, (nd != nullptr) == (m.count(kk) > 0), "lookup_node"); if (nd) PCHECK(c, (long)g_tree_node_value(nd) == e && (long)g_tree_node_key(nd) == m[kk].first, "node key/value");
                PCHECK(c, (long)g_tree_search(t, tcmp2, (gconstpointer)key) == e, "search %ld", kk);
                GTreeNode *sn = g_tree_search_node(t, tcmp2, (gconstpointer)key); PCHECK(c, sn == nd, "search_node %ld", kk); break; }
            default: { std::vector<long> got; struct U { std::vector<long> *v; size_t stop; } u = {&got, c.chance(1, 3) ? (size_t)c.range(1, 5) : 1000000};
                g_tree_foreach(t, [](gpointer k, gpointer, gpointer d) -> gboolean { U *u = (U *)d; u->v->push_back((long)k / 100); return u->v->size() >= u->stop; }, &u);
                std::vector<long> e; for (auto &x : m) { if (e.size() >= u.stop) break; e.push_back(x.first); } PCHECK(c, got == e, "foreach visits %zu nodes in the wrong order or number (expected %zu)", got.size(), e.size()); break; }
        }
        maxn = std::max(maxn, m.size());
        PCHECK(c, g_tree_nnodes(t) == (int)m.size(), "nnodes %d expected %zu", g_tree_nnodes(t), m.size());
        int h = g_tree_height(t); PCHECK(c, h <= 1.4405 * log2((double)m.size() + 2) + 0.5 && (m.empty() == (h == 0)), "height %d for %zu nodes", h, m.size());
        PCHECK(c, dk == edk && dv == edv, "destroy notifications differ from the model after operation %d", i);
        // iterate both ways
        GTreeNode *nd = g_tree_node_first(t); for (auto &x : m) { PCHECK(c, nd && (long)g_tree_node_key(nd) == x.second.first && (long)g_tree_node_value(nd) == x.second.second, "forward iteration at key %ld", x.first); nd = g_tree_node_next(nd); } PCHECK(c, !nd, "iteration past the end");
        nd = g_tree_node_last(t); for (auto it = m.rbegin(); it != m.rend(); ++it) { PCHECK(c, nd && (long)g_tree_node_key(nd) == it->second.first, "backward iteration at key %ld", it->first); nd = g_tree_node_previous(nd); } PCHECK(c, !nd, "iteration before the start");
    }
    if (c.flip()) { g_tree_ref(t); g_tree_unref(t); PCHECK(c, g_tree_nnodes(t) == (int)m.size(), "unref of a referenced tree emptied it"); }
    for (auto &x : m) { edk[x.second.first]++; edv[x.second.second]++; }
    if (c.flip()) { g_tree_destroy(t); } else g_tree_unref(t);
    PCHECK(c, dk == edk && dv == edv, "destroying the tree did not release every element once");
    if (maxn > 8 && dels > 2) c.nontrivial();
    c.label("gtree");
}
int main(int argc, char **argv) {
    pbt::Options o; o.property = "C24";
    o.rule = "see registry"; o.quick_cases = 24000; o.thorough_cases = 1000000; o.case_timeout = 10;
    return pbt::run(argc, argv, o, [](Ctx &c) {
        switch (c.draw(8)) {
            case 0: q_template(c); break; case 1: q_template_int(c); break; case 2: arrays(c); break; case 3: lewi_reqs(c); break;
            case 4: proc_reqs(c); break; case 5: pids(c); break; case 6: slist(c); break; default: gtree(c); break;
        }
    });
}
