// Numbers that small random trees never reach: iterators held over many edits, crowds of snapshots, trees of very many elements.
#include <deque>
#include <memory>
#include <numeric>
#include <string>
#include <vector>
#include "bpptree/bpptree.hpp"
#include "bpptree/indexed.hpp"
#include "bpptree/max.hpp"
#include "bpptree/min.hpp"
#include "bpptree/ordered.hpp"
#include "bpptree/summed.hpp"
#include "mon.hpp"
#include "traits.hpp"
#include "tracked.hpp"
using namespace mon;
using namespace bpptree;

constexpr int inb(int n, int per) { return NODE_HDR + 8 + n * per; }
static void did(char const* op, long a = 0, long b = 0) {
    log_op(op, a, b);
    S().op_counts[op]++;
    S().steps++;
}
static void counted(char const* what, uint64_t n) { auto& c = S().counters[what]; c = std::max<uint64_t>(c, n); }

// ---------------------------------------------------------------- C09: an iterator held over very many edits of values
template <class V, class Tree>
struct Gap {
    using T = typename Tree::Transient;
    using P = typename Tree::Persistent;
    static V mk(long i) { return tr::Conv<V>::mk(i); }
    static long id(V const& v) { return tr::Conv<V>::id(v); }

    static void run(Rng& rng, long edits) {
        T t{};
        std::vector<long> m;
        long const n = rng.range(1, 3) == 1 ? rng.range(2, 12) : rng.range(30, 150);
        for (long i = 0; i < n; ++i) { t.push_back(mk(i)); m.push_back(i); }
        size_t const p = rng.below(m.size());
        auto it = t.begin() + static_cast<long>(p);
        auto cit = t.cbegin() + static_cast<long>(p);
        auto rit = t.rbegin() + (n - 1 - static_cast<long>(p));
        auto const last = t.cend();
        (void) id(*cit); (void) id(it.get()); (void) id(rit.get());
        did("hold iterators over edits", n, static_cast<long>(p));
        std::deque<P> snaps;
        int const rare = static_cast<int>(rng.range(10, 400));
        bool touched = false;
        for (long i = 1; i <= edits; ++i) {
            if (rng.chance(1, static_cast<unsigned>(rare)) || i == 1) { snaps.push_back(t.persistent()); if (snaps.size() > 2) snaps.pop_front(); }
            if (i == 200) snaps.clear();
            size_t const q = rng.chance(1, 20) || !touched ? p : rng.below(m.size());
            touched = touched || q == p;
            long const v = 1000 + i % 50000;
            switch (rng.below(4)) {
                case 0: t.assign_index(q, mk(v)); break;
                case 1: t.update_index(q, [&](V const&) { return mk(v); }); break;
                case 2: { auto e = t.begin() + static_cast<long>(q); t.assign(e, mk(v)); break; }
                default: { auto e = t.begin() + static_cast<long>(q); *e = mk(v); }
            }
            m[q] = v;
            S().steps++;
            // copies of the iterators, which themselves stay as they were
            auto a = it; auto b = cit; auto c = rit;
            MON_CHECK(C09, id(a.get()) == m[p], "an iterator held over %ld edits reads %ld, its element is %ld", i, id(a.get()), m[p]);
            MON_CHECK(C09, id(*b) == m[p], "a const iterator held over %ld edits reads %ld, its element is %ld", i, id(*b), m[p]);
            MON_CHECK(C09, id(c.get()) == m[p], "a reverse iterator held over %ld edits reads %ld, its element is %ld", i, id(c.get()), m[p]);
            if ((i & 3) == 0) {
                auto d = cit;
                if (p + 1 < m.size()) { ++d; MON_CHECK(C09, id(*d) == m[p + 1], "the successor of an iterator held over %ld edits", i); }
                else { ++d; MON_CHECK(C09, d == last, "the end after an iterator held over %ld edits", i); }
                auto e = rit;
                e += static_cast<long>(p);
                MON_CHECK(C09, id(e.get()) == m[0], "begin reached from an iterator held over %ld edits", i);
            }
            if (i > 300 && (i & (i - 1)) == 0) context(mix(static_cast<uint64_t>(i), t.depth()));
        }
        counted("edits under a held iterator", static_cast<uint64_t>(edits));
        sample("an iterator at " + std::to_string(p) + " of " + std::to_string(n) + " held over " + std::to_string(edits) + " edits, checked after each");
    }
};

// ---------------------------------------------------------------- C03, C11: very many owners of the same nodes
template <class V, class Tree>
struct Crowd {
    using T = typename Tree::Transient;
    using P = typename Tree::Persistent;
    static V mk(long i) { return tr::Conv<V>::mk(i); }
    static long id(V const& v) { return tr::Conv<V>::id(v); }

    static void check(P const& p, std::vector<long> const& base, size_t x, long vx, size_t tail, char const* what) {
        MON_CHECK(C03, static_cast<size_t>(p.size()) == base.size() + tail, "%s: size", what);
        size_t i = 0;
        for (V const& v : p) {
            if (i < base.size()) MON_CHECK(C03, id(v) == (i == x ? vx : base[i]), "%s: element %zu is %ld", what, i, id(v));
            ++i;
        }
        MON_CHECK(C03, i == base.size() + tail, "%s: traversal", what);
    }

    static void run(Rng& rng, long owners) {
        {
            std::vector<long> base;
            T t{};
            long const n = rng.range(20, 60);
            for (long i = 0; i < n; ++i) { t.push_back(mk(i)); base.push_back(i); }
            size_t const x = rng.below(base.size());
            bool const diverge = rng.chance(1, 2);
            did(diverge ? "very many snapshots, an edit after each" : "very many handles of one snapshot", owners, static_cast<long>(x));
            std::vector<P> ps;
            ps.reserve(static_cast<size_t>(owners));
            std::vector<long> vs;
            if (!diverge) ps.push_back(t.persistent());
            if (!diverge) vs.push_back(base[x]);
            while (static_cast<long>(ps.size()) < owners) {
                long const i = static_cast<long>(ps.size());
                if (diverge) {
                    t.assign_index(x, mk(1000 + i));
                    ps.push_back(t.persistent());
                    vs.push_back(1000 + i);
                } else {
                    ps.push_back(ps[static_cast<size_t>(rng.below(ps.size()))]);
                    vs.push_back(base[x]);
                }
                S().steps++;
                if ((i & (i - 1)) == 0 && i > 100) {
                    check(ps[0], base, x, vs[0], 0, "the first of a crowd of snapshots");
                    // an edit must still copy what it shares with so many
                    T w = ps.back().transient();
                    w.assign_index(0, mk(-5));
                    w.pop_back();
                    check(ps.back(), base, x, vs.back(), 0, "the last of a crowd of snapshots");
                    context(mix(static_cast<uint64_t>(i), diverge));
                }
            }
            // from the full crowd
            {
                T w = ps[rng.below(ps.size())].transient();
                for (long k = 0; k < 10; ++k) w.insert(w.begin() + static_cast<long>(rng.below(static_cast<uint64_t>(n))), mk(-k - 2));
                for (int k = 0; k < 30; ++k) { auto e = w.begin() + static_cast<long>(rng.below(w.size())); w.erase(e); }
            }
            for (int k = 0; k < 40; ++k) { size_t j = rng.below(ps.size()); check(ps[j], base, x, vs[j], 0, "one of a crowd of snapshots"); }
            counted("owners of one node", static_cast<uint64_t>(owners));
            // the crowd leaves, in some order
            bool const fifo = rng.chance(1, 2);
            std::vector<size_t> keep{0, ps.size() / 2, ps.size() - 1};
            std::vector<P> kept;
            std::vector<long> keptv;
            for (size_t k : keep) { kept.push_back(ps[k]); keptv.push_back(vs[k]); }
            if (fifo) for (auto& p : ps) p = P();
            else while (!ps.empty()) ps.pop_back();
            ps.clear();
            for (size_t k = 0; k < kept.size(); ++k) check(kept[k], base, x, keptv[k], 0, "what remains of a crowd of snapshots");
            if (rng.chance(1, 2)) t.clear();
            for (size_t k = 0; k < kept.size(); ++k) {
                kept[k] = kept[k].push_back(mk(7));
                check(kept[k], base, x, keptv[k], 1, "what remains of a crowd of snapshots, edited");
            }
            sample(std::string(diverge ? "diverging snapshots: " : "handles: ") + std::to_string(owners) + " of a tree of " + std::to_string(n) + " elements");
        }
        if constexpr (std::is_same_v<V, tr::Val>) MON_CHECK(C11, tr::Registry::get().live.empty(), "%zu elements survive the last tree", tr::Registry::get().live.size());
    }
};

// ---------------------------------------------------------------- trees of very many elements
using PR = std::pair<int32_t, int32_t>;
struct BigMap {
    using V = PR;
    using Tree = BppTree<PR, 512, 512, 16>::mixins<OrderedBuilder<>, IndexedBuilder<>, SummedBuilder<PairExtractor<1>>, MinBuilder<PairExtractor<1>>, MaxBuilder<PairExtractor<1>>>;
    static constexpr bool ordered = true, hasmin = true;
    static long key(V const& v) { return v.first; }
    static long val(V const& v) { return v.second; }
    static V mk(long k, long v) { return {static_cast<int32_t>(k), static_cast<int32_t>(v)}; }
};
struct BigSeq {
    using V = int64_t;
    using Tree = BppTree<int64_t, NODE_HDR + 6 * 8, inb(9, 8 + 4 + 8 + 8), 10>::mixins<IndexedBuilder<uint32_t>, SummedBuilder<>, MaxBuilder<ValueExtractor>>;
    static constexpr bool ordered = false, hasmin = false;
    static long key(V const&) { return 0; }
    static long val(V const& v) { return v; }
    static V mk(long, long v) { return v; }
};
template <class C>
struct Big {
    using V = typename C::V;
    using T = typename C::Tree::Transient;
    using P = typename C::Tree::Persistent;
    using Sz = std::decay_t<decltype(std::declval<T&>().order(std::declval<T&>().cend()))>;
    struct E { long k, v; };
    using M = std::vector<E>;
    Rng& rng;
    explicit Big(Rng& r) : rng(r) {}

    bool same(V const& v, E const& e) { return C::val(v) == e.v && (!C::ordered || C::key(v) == e.k); }
    size_t lb(M const& m, long k) { return static_cast<size_t>(std::lower_bound(m.begin(), m.end(), k, [](E const& e, long x) { return e.k < x; }) - m.begin()); }

    template <class X>
    void contents(X const& x, M const& m, Tag tag, char const* what) {
        MON_CHECK(tag, static_cast<size_t>(x.size()) == m.size(), "%s: size %zu, expected %zu", what, static_cast<size_t>(x.size()), m.size());
        size_t i = 0;
        for (V const& v : x) {
            if (i >= m.size() || !same(v, m[i])) failf(tag, "%s: element %zu of %zu", what, i, m.size());
            ++i;
        }
        ev(i);
        MON_CHECK(tag, i == m.size(), "%s: traversal visits %zu of %zu", what, i, m.size());
        for (auto it = x.rbegin(); it != x.rend(); ++it) {
            --i;
            if (i >= m.size() || !same(*it, m[i])) failf(tag, "%s: element %zu of %zu in reverse", what, i, m.size());
        }
    }

    template <class X>
    void ask(X const& x, M const& m, char const* what) {
        if (m.empty()) return;
        size_t const n = m.size(), p = rng.chance(1, 6) ? n - 1 : rng.below(n), q = rng.chance(1, 6) ? 0 : rng.below(n);
        if (on(C05)) {
            MON_CHECK(C05, same(x.at_index(static_cast<Sz>(p)), m[p]), "%s: at_index(%zu) of %zu", what, p, n);
            auto it = x.find_index_const(static_cast<Sz>(p));
            MON_CHECK(C05, static_cast<size_t>(x.order(it)) == p && same(*it, m[p]), "%s: order(find_index(%zu)) of %zu", what, p, n);
            auto far = x.cbegin() + static_cast<long>(q);
            MON_CHECK(C05, static_cast<size_t>(x.order(far)) == q, "%s: order(begin() + %zu) of %zu", what, q, n);
            MON_CHECK(C05, static_cast<size_t>(x.order(x.cend())) == n, "%s: order(end()) of %zu", what, n);
        }
        if (on(C08)) {
            auto a = x.cbegin() + static_cast<long>(p);
            auto b = x.cend() - static_cast<long>(n - q);
            MON_CHECK(C08, same(*a, m[p]), "%s: begin() + %zu of %zu", what, p, n);
            MON_CHECK(C08, same(*b, m[q]), "%s: end() - %zu of %zu", what, n - q, n);
            MON_CHECK(C08, b - a == static_cast<long>(q) - static_cast<long>(p), "%s: distance from %zu to %zu of %zu is %ld", what, p, q, n, static_cast<long>(b - a));
            MON_CHECK(C08, x.cend() - a == static_cast<long>(n - p) && a - x.cend() == static_cast<long>(p) - static_cast<long>(n), "%s: distance from %zu to the end of %zu", what, p, n);
            a += static_cast<long>(q) - static_cast<long>(p);
            MON_CHECK(C08, a == b && (a < x.cend()) && !(b < a), "%s: %zu moved to %zu of %zu", what, p, q, n);
            auto r = x.crbegin() + static_cast<long>(n - 1 - p);
            MON_CHECK(C08, same(*r, m[p]) && r - x.crbegin() == static_cast<long>(n - 1 - p) && x.crend() - r == static_cast<long>(p + 1), "%s: rbegin() + %zu of %zu", what, n - 1 - p, n);
            auto over = x.cbegin() + static_cast<long>(n + rng.below(3) * 100000);
            MON_CHECK(C08, over == x.cend(), "%s: begin() moved beyond the end of %zu", what, n);
        }
        if (on(C06)) {
            long before = 0, total = 0;
            for (size_t i = 0; i < n; ++i) { total += m[i].v; if (i < p) before += m[i].v; }
            auto it = x.cbegin() + static_cast<long>(p);
            MON_CHECK(C06, static_cast<long>(x.sum()) == total, "%s: sum of %zu is %ld, expected %ld", what, n, static_cast<long>(x.sum()), total);
            MON_CHECK(C06, static_cast<long>(x.sum_exclusive(it)) == before && static_cast<long>(x.sum_inclusive(it)) == before + m[p].v, "%s: sums up to %zu of %zu", what, p, n);
            if (m[p].v > 0) {
                // values are not negative, so the first element to reach a sum is found
                auto f = x.sum_lower_bound_const(static_cast<decltype(x.sum())>(before + 1));
                MON_CHECK(C06, f == it, "%s: sum_lower_bound(%ld) is at %zu, expected %zu", what, before + 1, static_cast<size_t>(f - x.cbegin()), p);
            }
        }
        if (on(C07)) {
            size_t const lo = std::min(p, q), hi = std::max(p, q) + 1;
            long mx = m[lo].v, mn = mx;
            for (size_t i = lo; i < hi; ++i) { mx = std::max(mx, m[i].v); mn = std::min(mn, m[i].v); }
            auto a = x.cbegin() + static_cast<long>(lo), b = x.cbegin() + static_cast<long>(hi);
            MON_CHECK(C07, static_cast<long>(x.max(a, b)) == mx, "%s: max of [%zu,%zu) of %zu", what, lo, hi, n);
            auto at = x.max_element_const(a, b) - x.cbegin();
            MON_CHECK(C07, at >= static_cast<long>(lo) && at < static_cast<long>(hi) && m[static_cast<size_t>(at)].v == mx, "%s: max_element of [%zu,%zu) of %zu is at %ld", what, lo, hi, n, static_cast<long>(at));
            if constexpr (C::hasmin) {
                MON_CHECK(C07, static_cast<long>(x.min(a, b)) == mn, "%s: min of [%zu,%zu) of %zu", what, lo, hi, n);
                auto mi = x.min_element_const(a, b) - x.cbegin();
                MON_CHECK(C07, mi >= static_cast<long>(lo) && mi < static_cast<long>(hi) && m[static_cast<size_t>(mi)].v == mn, "%s: min_element of [%zu,%zu) of %zu", what, lo, hi, n);
            }
            long all = m[0].v;
            for (auto& e : m) all = std::max(all, e.v);
            MON_CHECK(C07, static_cast<long>(x.max()) == all, "%s: max of %zu", what, n);
        }
        if constexpr (C::ordered) if (on(C02)) {
            long const k = m[p].k + rng.range(-1, 1);
            size_t const l = lb(m, k), u = lb(m, k + 1);
            int const key = static_cast<int>(k);
            MON_CHECK(C02, x.lower_bound_const(key) == x.cbegin() + static_cast<long>(l), "%s: lower_bound(%ld) of %zu", what, k, n);
            MON_CHECK(C02, x.upper_bound_const(key) == x.cbegin() + static_cast<long>(u), "%s: upper_bound(%ld) of %zu", what, k, n);
            MON_CHECK(C02, x.contains(key) == (l != u), "%s: contains(%ld) of %zu", what, k, n);
            auto f = x.find_const(key);
            MON_CHECK(C02, l != u ? f == x.cbegin() + static_cast<long>(l) : f == x.cend(), "%s: find(%ld) of %zu", what, k, n);
            if (l != u) MON_CHECK(C02, x.at_key(key) == m[l].v, "%s: at_key(%ld) of %zu", what, k, n);
        }
    }

    void edit(T& t, M& m) {
        size_t const p = rng.chance(1, 8) ? (rng.chance(1, 2) ? 0 : m.size() - 1) : rng.below(m.size());
        long const v = rng.range(0, 3000);
        switch (rng.below(5)) {
            case 0: case 1: {
                if constexpr (C::ordered) {
                    long const k = m[p].k + 1;
                    size_t const l = lb(m, k);
                    t.insert_or_assign(C::mk(k, v));
                    if (l < m.size() && m[l].k == k) m[l].v = v;
                    else m.insert(m.begin() + static_cast<long>(l), E{k, v});
                } else {
                    t.insert_index(static_cast<Sz>(p), C::mk(0, v));
                    m.insert(m.begin() + static_cast<long>(p), E{0, v});
                }
                break;
            }
            case 2:
                if constexpr (C::ordered) t.erase_key(static_cast<int>(m[p].k));
                else t.erase_index(static_cast<Sz>(p));
                m.erase(m.begin() + static_cast<long>(p));
                break;
            case 3: {
                auto e = t.begin() + static_cast<long>(p);
                t.erase(e);
                m.erase(m.begin() + static_cast<long>(p));
                MON_CHECK(C01, p < m.size() ? same(e.get(), m[p]) : e == t.end(), "an iterator after erasing %zu of %zu", p, m.size());
                break;
            }
            default:
                t.assign_index(static_cast<Sz>(p), C::mk(m[p].k, v));
                m[p].v = v;
        }
        S().steps++;
        MON_CHECK(C01, static_cast<size_t>(t.size()) == m.size(), "size after an edit is %zu, expected %zu", static_cast<size_t>(t.size()), m.size());
    }

    void run() {
        T t{};
        M m;
        long const n = rng.chance(1, 3) ? rng.range(65400, 65700) : rng.range(70000, 200000);
        did("build", n);
        bool const back = rng.chance(1, 2);
        m.resize(static_cast<size_t>(n));
        for (long i = 0; i < n; ++i) m[static_cast<size_t>(i)] = E{i * 3, rng.range(0, 3000)};
        if (back) for (auto& e : m) t.push_back(C::mk(e.k, e.v));
        else for (size_t i = m.size(); i-- > 0;) t.push_front(C::mk(m[i].k, m[i].v));
        contents(t, m, C01, "a large tree");
        for (int i = 0; i < 30; ++i) ask(t, m, "a large tree");
        struct Snap { P p; M m; };
        std::deque<std::unique_ptr<Snap>> snaps;
        long const steps = 160;
        for (long i = 0; i < steps; ++i) {
            if (i % 50 == 20) { snaps.push_back(std::make_unique<Snap>(Snap{t.persistent(), m})); if (snaps.size() > 2) snaps.pop_front(); }
            int const burst = static_cast<int>(rng.range(1, 12));
            for (int j = 0; j < burst; ++j) edit(t, m);
            ask(t, m, "a large tree after edits");
            if (!snaps.empty() && i % 4 == 0) ask(snaps.back()->p, snaps.back()->m, "a snapshot of a large tree");
            if (i % 16 == 0) context(mix(static_cast<uint64_t>(i / 16), mix(t.depth(), static_cast<uint64_t>(n / 20000) * 2 + back)));
        }
        did("edit", steps);
        contents(t, m, C01, "a large tree after edits");
        for (auto& s : snaps) contents(s->p, s->m, C03, "a snapshot of a large tree");
        // and back over the 2^16th element
        if (m.size() > 65536 + 40 && n < 66000) while (m.size() > 65500) { t.pop_back(); m.pop_back(); ask(t, m, "a shrinking tree"); }
        counted("elements of a tree", static_cast<uint64_t>(n));
        sample("a tree of " + std::to_string(n) + " elements, " + std::to_string(steps) + " bursts of edits, depth " + std::to_string(t.depth()));
    }
};

int main(int argc, char** argv) {
    mon::init(argc, argv);
    long n = S().episodes;
    (void) n;
#if CFG == 1
    S().cur = C09;
    episodes("gap-int", n, [](Rng& r) { Gap<int32_t, BppTree<int32_t, NODE_HDR + 3 * 4, inb(4, 8 + 8), 8>::mixins<IndexedBuilder<>>>::run(r, 66500); });
    episodes("gap-string", n, [](Rng& r) { Gap<std::string, BppTree<std::string, 512, 512, 8>::mixins<IndexedBuilder<>>>::run(r, 66500); });
    episodes("gap-long", n / 6, [](Rng& r) { Gap<int32_t, BppTree<int32_t, NODE_HDR + 3 * 4, inb(4, 8 + 8), 8>::mixins<IndexedBuilder<>>>::run(r, 1100000); });
#elif CFG == 2
    S().cur = C03;
    episodes("crowd-tracked", n, [](Rng& r) { Crowd<tr::Val, BppTree<tr::Val, NODE_HDR + 3 * 16, inb(4, 8 + 8), 8>::mixins<IndexedBuilder<>>>::run(r, r.range(65600, 68000)); });
    episodes("crowd-string", n, [](Rng& r) { Crowd<std::string, BppTree<std::string, NODE_HDR + 4 * 32, inb(4, 8 + 8), 8>::mixins<IndexedBuilder<>>>::run(r, r.range(65600, 68000)); });
#elif CFG == 3
    S().cur = C01;
    episodes("big-map", n, [](Rng& r) { Big<BigMap>(r).run(); });
#elif CFG == 4
    S().cur = C01;
    episodes("big-seq", n, [](Rng& r) { Big<BigSeq>(r).run(); });
#endif
    return mon::finish();
}
