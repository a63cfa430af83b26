// C12: threads share structure through Persistent handles; TSan plus per-thread reference models watch.
#include <atomic>
#include <mutex>
#include <thread>
#include <sched.h>
#include "configs.hpp"

using namespace eng;

// ---- TSan does not know fences: give an acquire fence the meaning "acquire on the objects this thread's last
// ---- read-modify-writes touched", and use the interception points to perturb the schedule.
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define UNDER_TSAN 1
#endif
#endif
static thread_local uint64_t yield_state = 0;
static thread_local uint64_t rmw_count = 0;
static std::atomic<int> yield_rate{0};
static void perturb() {
    ++rmw_count;
    int r = yield_rate.load(std::memory_order_relaxed);
    if (!r || !yield_state) return;
    yield_state = yield_state * 6364136223846793005ULL + 1442695040888963407ULL;
    uint64_t x = yield_state >> 33;
    if (x % 1000 < static_cast<uint64_t>(r)) {
        if (x & 0x100000) sched_yield();
        else for (volatile int i = 0; i < static_cast<int>(x % 400); i = i + 1) {}
    }
}
#ifdef UNDER_TSAN
extern "C" {
typedef unsigned int u32;
typedef unsigned long u64;
struct Last { void const volatile* p; int width; };
static thread_local Last last_rmw[4];
static thread_local unsigned last_n = 0;
static void remember(void const volatile* p, int w) { last_rmw[last_n++ % 4] = Last{p, w}; }
u32 __real___tsan_atomic32_fetch_sub(u32 volatile*, u32, int);
u32 __real___tsan_atomic32_fetch_add(u32 volatile*, u32, int);
u64 __real___tsan_atomic64_fetch_sub(u64 volatile*, u64, int);
u64 __real___tsan_atomic64_fetch_add(u64 volatile*, u64, int);
u32 __tsan_atomic32_load(u32 const volatile*, int);
u64 __tsan_atomic64_load(u64 const volatile*, int);
void __real___tsan_atomic_thread_fence(int);
u32 __wrap___tsan_atomic32_fetch_sub(u32 volatile* p, u32 v, int mo) {
    perturb();
    u32 r = __real___tsan_atomic32_fetch_sub(p, v, mo);
    if (r == v) remember(p, 32);
    perturb();
    return r;
}
u32 __wrap___tsan_atomic32_fetch_add(u32 volatile* p, u32 v, int mo) { perturb(); return __real___tsan_atomic32_fetch_add(p, v, mo); }
u64 __wrap___tsan_atomic64_fetch_sub(u64 volatile* p, u64 v, int mo) {
    perturb();
    u64 r = __real___tsan_atomic64_fetch_sub(p, v, mo);
    if (r == v) remember(p, 64);
    return r;
}
u64 __wrap___tsan_atomic64_fetch_add(u64 volatile* p, u64 v, int mo) { return __real___tsan_atomic64_fetch_add(p, v, mo); }
void __wrap___tsan_atomic_thread_fence(int mo) {
    __real___tsan_atomic_thread_fence(mo);
    if (mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME) {
        // only the object whose count just reached zero: it still exists, its deletion follows the fence
        if (last_n) {
            Last l = last_rmw[(last_n - 1) % 4];
            if (l.width == 32) __tsan_atomic32_load(static_cast<u32 const volatile*>(l.p), __ATOMIC_ACQUIRE);
            else if (l.width == 64) __tsan_atomic64_load(static_cast<u64 const volatile*>(l.p), __ATOMIC_ACQUIRE);
            last_n = 0;
        }
    }
}
}
#endif

namespace {
using Entry = std::pair<int, int>;
using M = std::vector<Entry>;

struct MapCfg {
    static constexpr char const* name = "threads/map";
    using Tree = BppTree<std::pair<int, int>, NODE_HDR + 3 * 8, cfg::inb(4, 8 + 4 + 8 + 4), 6>::mixins<OrderedBuilder<>, IndexedBuilder<>, SummedBuilder<PairExtractor<1>>>;
    static std::pair<int, int> mk(int k, int m) { return {k, m}; }
    static Entry un(std::pair<int, int> const& v) { return v; }
    static constexpr bool ordered = true;
};
struct SeqCfg {
    static constexpr char const* name = "threads/strings";
    using V = std::pair<std::string, int>;
    using Tree = BppTree<V, NODE_HDR + 3 * 40, cfg::inb(4, 8 + 8 + 4), 6>::mixins<IndexedBuilder<>, MaxBuilder<PairExtractor<1>>>;
    static V mk(int k, int m) { return {"a string too long for the buffer " + std::to_string(k), m}; }
    static Entry un(V const& v) { return {atoi(v.first.c_str() + 33), v.second}; }
    static constexpr bool ordered = false;
};

std::atomic<uint64_t> global_seq{0};   // relaxed only: it must not order anything

template <class C> struct Run {
    using T = typename C::Tree::Transient;
    using P = typename C::Tree::Persistent;
    struct HP { P p; M m; };
    struct HT { T t; M m; };

    struct Mail { std::mutex mu; std::unique_ptr<HP> h; };
    static constexpr int NMAIL = 4;
    Mail mail[NMAIL];
    std::unique_ptr<HP> global;
    std::atomic<int> ready{0};
    std::atomic<bool> go{false};
    int nthreads = 4;
    int nops = 60;

    [[noreturn]] static void bad(char const* what, size_t a = 0, size_t b = 0) {
        static std::mutex mu;
        std::lock_guard<std::mutex> g(mu);
        char buf[256];
        snprintf(buf, sizeof buf, "a thread observes another state than its own operations produced: %s (%zu, %zu)", what, a, b);
        die_violation(C12, buf);
    }
    template <class Tree> static void check(Tree const& t, M const& m, Rng& r, uint64_t& evs) {
        size_t i = 0;
        if (t.size() != m.size()) bad("size()", t.size(), m.size());
        if (r.chance(1, 2)) {
            for (auto it = t.cbegin(), e = t.cend(); it != e; ++it, ++i) if (i >= m.size() || C::un(*it) != m[i]) bad("element", i, m.size());
        } else {
            i = m.size();
            for (auto it = t.crbegin(), e = t.crend(); it != e; ++it) { if (i == 0 || C::un(*it) != m[i - 1]) bad("element (reverse)", i, m.size()); --i; }
            i = i == 0 ? m.size() : 0;
        }
        if (i != m.size()) bad("length", i, m.size());
        evs += m.size() + 2;
        if (!m.empty()) {
            size_t p = r.below(m.size());
            if (C::un(t.at_index(p)) != m[p]) bad("at_index", p, m.size());
            if (C::un(t.front()) != m.front() || C::un(t.back()) != m.back()) bad("front() or back()", p, m.size());
            auto it = t.find_index_const(p);
            if (C::un(*it) != m[p] || t.order(it) != p) bad("find_index", p, m.size());
            size_t q = r.below(m.size());
            it += static_cast<long>(q) - static_cast<long>(p);
            if (C::un(*it) != m[q] || static_cast<size_t>(it - t.cbegin()) != q) bad("iterator moved from", p, q);
            size_t const lo = std::min(p, q), hi = std::max(p, q);
            if constexpr (C::ordered) {
                if (t.at_key(m[p].first) != m[p].second) bad("at_key", p, m.size());
                if (!t.contains(m[p].first) || C::un(*t.find_const(m[p].first)) != m[p]) bad("find", p, m.size());
                int const k = m[p].first + static_cast<int>(r.below(3)) - 1;
                auto lb = std::lower_bound(m.begin(), m.end(), k, [](Entry const& e, int x) { return e.first < x; });
                auto ub = std::upper_bound(m.begin(), m.end(), k, [](int x, Entry const& e) { return x < e.first; });
                auto tl = t.lower_bound_const(k); auto tu = t.upper_bound_const(k);
                if (lb == m.end() ? tl.valid() : C::un(*tl) != *lb) bad("lower_bound", p, m.size());
                if (ub == m.end() ? tu.valid() : C::un(*tu) != *ub) bad("upper_bound", p, m.size());
                if (t.contains(k) != (lb != ub)) bad("contains", p, m.size());
                long s = 0, before = 0;
                for (size_t j = 0; j < m.size(); ++j) { s += m[j].second; if (j < q) before += m[j].second; }
                if (t.sum() != static_cast<int>(s)) bad("sum", static_cast<size_t>(t.sum()), static_cast<size_t>(s));
                if (t.sum_exclusive(it) != before || t.sum_inclusive(it) != before + m[q].second) bad("sum up to", q, m.size());
                if (before + m[q].second > 0) {
                    auto sl = t.sum_lower_bound_const(static_cast<int>(before) + 1);
                    size_t e = 0;
                    for (long acc = m[0].second; acc < before + 1 && ++e < m.size();) acc += m[e].second;
                    if (e == m.size() ? sl.valid() : C::un(*sl) != m[e]) bad("sum_lower_bound", q, m.size());
                }
                evs += 6;
            } else {
                int mx = m[0].second, part = m[lo].second;
                for (auto& e : m) mx = std::max(mx, e.second);
                for (size_t j = lo; j <= hi; ++j) part = std::max(part, m[j].second);
                if (t.max() != mx) bad("max", p, m.size());
                if (C::un(*t.max_element_const()).second != mx) bad("max_element", p, m.size());
                auto a = t.find_index_const(lo); auto b = t.find_index_const(hi);
                ++b;   // the range is half-open
                if (t.max(a, b) != part) bad("max of a range", lo, hi);
                evs += 2;
            }
            evs += 5;
        }
    }
    static void edit(T& t, M& m, Rng& r) {
        int what = static_cast<int>(r.below(10));
        if (m.size() > 90 || (what < 4 && !m.empty())) {
            size_t p = r.below(m.size());
            if (C::ordered && r.chance(1, 2)) { if constexpr (C::ordered) t.erase_key(m[p].first); }
            else if (r.chance(1, 2)) t.erase_index(p);
            else { auto it = t.begin(); it += static_cast<long>(p); t.erase(it); }
            m.erase(m.begin() + static_cast<long>(p));
        } else if (what < 7 && !m.empty()) {
            size_t p = r.below(m.size());
            int v = static_cast<int>(r.below(1000));
            if (r.chance(1, 2)) t.assign_index(p, C::mk(m[p].first, v));
            else { auto it = t.find_index(p); t.update(it, [&](auto const& o) { auto n = o; n.second = v; return n; }); }
            m[p].second = v;
        } else {
            int k = static_cast<int>(r.below(500)), v = static_cast<int>(r.below(1000));
            if constexpr (C::ordered) {
                auto it = std::lower_bound(m.begin(), m.end(), k, [](Entry const& e, int x) { return e.first < x; });
                if (it != m.end() && it->first == k) { t.insert_or_assign(C::mk(k, v)); it->second = v; }
                else { t.insert_v(C::mk(k, v)); m.insert(it, Entry{k, v}); }
            } else {
                size_t p = r.below(m.size() + 1);
                if (p == m.size()) t.push_back(C::mk(k, v)); else t.insert_index(p, C::mk(k, v));
                m.insert(m.begin() + static_cast<long>(p), Entry{k, v});
            }
        }
    }
    static HP fedit(HP const& h, Rng& r) {
        // functional forms
        M m = h.m;
        int what = static_cast<int>(r.below(4));
        if (what == 0 && !m.empty()) { size_t p = r.below(m.size()); m.erase(m.begin() + static_cast<long>(p)); return HP{h.p.erase_index(p), std::move(m)}; }
        if (what == 1 && !m.empty()) { m.pop_back(); return HP{h.p.pop_back(), std::move(m)}; }
        if (what == 2 && !m.empty()) { size_t p = r.below(m.size()); int v = static_cast<int>(r.below(1000)); m[p].second = v; return HP{h.p.assign_index(p, C::mk(m[p].first, v)), std::move(m)}; }
        int k = (C::ordered && !m.empty() ? m.back().first : 0) + 1 + static_cast<int>(r.below(5));
        if (m.size() > 90) { m.erase(m.begin()); return HP{h.p.pop_front(), std::move(m)}; }
        m.emplace_back(k, 7);
        return HP{h.p.push_back(C::mk(k, 7)), std::move(m)};
    }

    struct Out { uint64_t evs = 0, steps = 0, rmw = 0; std::vector<std::pair<uint64_t, int>> order; std::map<char const*, uint64_t> ops; };

    void thread(int id, uint64_t seed, std::vector<HP> hs, Out& out) {
        Rng r(seed);
        std::vector<std::unique_ptr<HP>> ps;
        std::vector<std::unique_ptr<HT>> ts;
        for (auto& h : hs) ps.push_back(std::make_unique<HP>(std::move(h)));
        hs.clear();
        yield_state = seed | 1;
        ready.fetch_add(1, std::memory_order_relaxed);
        while (!go.load(std::memory_order_relaxed)) sched_yield();
        for (int i = 0; i < nops; ++i) {
            int what = static_cast<int>(r.below(100));
            char const* op = "?";
            if (ps.empty() && what >= 15) what = 4;
            if (ps.size() > 6) ps.erase(ps.begin() + static_cast<long>(r.below(ps.size())));
            if (ts.size() > 2) ts.erase(ts.begin());
            size_t k = ps.empty() ? 0 : r.below(ps.size());
            if (what < 5) { op = "copy shared object"; ps.push_back(std::make_unique<HP>(HP{global->p, global->m})); }
            else if (what < 15) { op = "read shared object"; check(global->p, global->m, r, out.evs); }
            else if (what < 26) { op = "read handle"; check(ps[k]->p, ps[k]->m, r, out.evs); }
            else if (what < 34) { op = "copy handle"; ps.push_back(std::make_unique<HP>(*ps[k])); }
            else if (what < 40) { op = "assign handle"; size_t j = r.below(ps.size()); P const& src = ps[k]->p; ps[j]->p = src; M m = ps[k]->m; ps[j]->m = m; }
            else if (what < 50) { op = "destroy handle"; ps.erase(ps.begin() + static_cast<long>(k)); }
            else if (what < 62) { op = "functional edit"; HP n = fedit(*ps[k], r); check(n.p, n.m, r, out.evs); ps.push_back(std::make_unique<HP>(std::move(n))); }
            else if (what < 72) {
                op = "edit a transient copy";
                HT h{static_cast<P const&>(ps[k]->p).transient(), ps[k]->m};
                int n = static_cast<int>(r.range(1, 6));
                for (int e = 0; e < n; ++e) edit(h.t, h.m, r);
                check(h.t, h.m, r, out.evs);
                if (r.chance(1, 2)) ps.push_back(std::make_unique<HP>(HP{std::move(h.t).persistent(), std::move(h.m)}));
                else ts.push_back(std::make_unique<HT>(HT{std::move(h.t), std::move(h.m)}));
            }
            else if (what < 84) {
                if (ts.empty()) { op = "new transient"; ts.push_back(std::make_unique<HT>(HT{static_cast<P const&>(ps[k]->p).transient(), ps[k]->m})); }
                HT& h = *ts[r.below(ts.size())];
                op = "edit own transient";
                for (int e = 0; e < 3; ++e) edit(h.t, h.m, r);
                if (r.chance(1, 2)) {
                    // publish a snapshot and go on editing
                    op = "snapshot and go on editing";
                    auto np = std::make_unique<HP>(HP{static_cast<T const&>(h.t).persistent(), h.m});
                    Mail& mb = mail[r.below(NMAIL)];
                    std::unique_ptr<HP> old;
                    { std::lock_guard<std::mutex> g(mb.mu); old = std::move(mb.h); mb.h = std::move(np); }
                    if (old) ps.push_back(std::move(old));
                    for (int e = 0; e < 3; ++e) edit(h.t, h.m, r);
                    check(h.t, h.m, r, out.evs);
                }
            }
            else if (what < 94) {
                op = "exchange handle";
                Mail& mb = mail[r.below(NMAIL)];
                auto mine = r.chance(1, 2) ? std::make_unique<HP>(*ps[k]) : std::move(ps[k]);
                if (!ps[k]) ps.erase(ps.begin() + static_cast<long>(k));
                std::unique_ptr<HP> theirs;
                { std::lock_guard<std::mutex> g(mb.mu); theirs = std::move(mb.h); mb.h = std::move(mine); }
                if (theirs) { check(theirs->p, theirs->m, r, out.evs); ps.push_back(std::move(theirs)); }
            }
            else {
                op = "iterate while others drop";
                P c = ps[k]->p;
                M m = ps[k]->m;
                ps.erase(ps.begin() + static_cast<long>(k));
                check(c, m, r, out.evs);
            }
            out.ops[op]++;
            out.steps++;
            out.order.emplace_back(global_seq.fetch_add(1, std::memory_order_relaxed), id * 32 + static_cast<int>(hash_str(op) % 31));
        }
        // drop everything concurrently
        while (!ps.empty() || !ts.empty()) {
            if (!ps.empty() && (ts.empty() || r.chance(1, 2))) ps.erase(ps.begin() + static_cast<long>(r.below(ps.size())));
            else ts.erase(ts.begin());
        }
        out.rmw = rmw_count;
        yield_state = 0;
    }

    void episode(Rng& rng) {
        S().cur = C12;
        static int const rates[] = {0, 20, 100, 300};
        yield_rate = rates[rng.below(4)];
        nthreads = static_cast<int>(rng.range(2, 8));
        nops = static_cast<int>(rng.range(15, 70));
        // a family of related trees
        std::vector<HP> fam;
        T t;
        M m;
        int n = static_cast<int>(rng.range(0, 60));
        for (int i = 0; i < n; ++i) edit(t, m, rng);
        for (int f = 0; f < 4; ++f) {
            fam.push_back(HP{static_cast<T const&>(t).persistent(), m});
            for (int i = 0; i < 3; ++i) edit(t, m, rng);
        }
        global = std::make_unique<HP>(fam[rng.below(fam.size())]);
        std::vector<Out> outs(static_cast<size_t>(nthreads));
        std::vector<std::thread> th;
        ready = 0;
        go = false;
        for (int i = 0; i < nthreads; ++i) {
            std::vector<HP> mine;
            int c = static_cast<int>(rng.range(1, 4));
            for (int j = 0; j < c; ++j) mine.push_back(fam[rng.below(fam.size())]);
            th.emplace_back([this, i, s = rng.next(), mv = std::move(mine), &outs]() mutable { thread(i, s, std::move(mv), outs[static_cast<size_t>(i)]); });
        }
        fam.clear();       // the threads hold the only references (and one of them will be the last)
        if (rng.chance(1, 2)) { M gm = m; T mine = std::move(t); t = T{}; mine.push_back(C::mk(100000, 1)); }
        while (ready.load(std::memory_order_relaxed) < nthreads) sched_yield();
        go.store(true, std::memory_order_relaxed);
        for (auto& x : th) x.join();
        std::vector<std::pair<uint64_t, int>> order;
        uint64_t h = 0;
        for (auto& o : outs) {
            S().evaluations += o.evs;
            S().steps += o.steps;
            S().counters["reference count updates"] += o.rmw;
            for (auto& x : o.ops) S().op_counts[x.first] += x.second;
            order.insert(order.end(), o.order.begin(), o.order.end());
        }
        std::sort(order.begin(), order.end());
        int switches = 0;
        for (size_t i = 0; i < order.size(); ++i) { h = mix(h, static_cast<uint64_t>(order[i].second)); if (i && order[i].second / 32 != order[i - 1].second / 32) ++switches; }
        S().counters["thread switches between operations"] += static_cast<uint64_t>(switches);
        S().counters["threads started"] += static_cast<uint64_t>(nthreads);
        if (switches > nthreads) context(h);
        Rng r2(h);
        uint64_t e = 0;
        check(global->p, global->m, r2, e);
        for (auto& mb : mail) if (mb.h) { check(mb.h->p, mb.h->m, r2, e); mb.h.reset(); }
        global.reset();
        if (S().samples.size() < 3) {
            std::string s = std::string(C::name) + ": " + std::to_string(nthreads) + " threads, order of (thread:op) ";
            for (size_t i = 0; i < order.size() && i < 40; ++i) s += std::to_string(order[i].second / 32) + ":" + std::to_string(order[i].second % 32) + " ";
            sample(s);
        }
    }
};
template <class C> void go() {
    episodes(C::name, S().episodes, [](Rng& rng) { Run<C> r; r.episode(rng); });
}
}
int main(int argc, char** argv) {
    init(argc, argv);
#if !defined(ONLY) || ONLY == 1
    go<MapCfg>();
#endif
#if !defined(ONLY) || ONLY == 2
    go<SeqCfg>();
#endif
    return finish();
}
