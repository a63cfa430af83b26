// C21: trees grow to max_size() by push_back, stay within max_depth(), and shrink back to depth one.
#include <deque>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
#include "bpptree/bpptree.hpp"
#include "bpptree/indexed.hpp"
#include "bpptree/max.hpp"
#include "bpptree/min.hpp"
#include "bpptree/ordered.hpp"
#include "bpptree/summed.hpp"
#include "mon.hpp"
#include "traits.hpp"
using namespace mon;
using namespace bpptree;

constexpr int inb(int n, int per) { return NODE_HDR + 8 + n * per; }
using PR = std::pair<int32_t, int32_t>;

struct Base { static constexpr bool indexed = false, summed = false, minmax = false, ordered = false; };
template <int depth> struct ShInt : Base {
    using V = int32_t;
    using Tree = typename BppTree<int32_t, NODE_HDR + 3 * 4, inb(4, 8 + 8 + 4), depth>::template mixins<IndexedBuilder<>, SummedBuilder<>>;
    static constexpr bool indexed = true, summed = true;
    static constexpr long want_depth = depth;
};
template <int depth> struct ShMap : Base {
    using V = PR;
    using Tree = typename BppTree<PR, NODE_HDR + 2 * 8, inb(5, 8 + 4 + 4), depth>::template mixins<OrderedBuilder<>, MaxBuilder<PairExtractor<1>>>;
    static constexpr bool ordered = true;
    static constexpr long want_depth = depth;
};
template <int depth> struct ShStr : Base {
    using V = std::string;
    using Tree = typename BppTree<std::string, NODE_HDR + 4 * 32, inb(4, 8 + 4), depth>::template mixins<IndexedBuilder<uint32_t>>;
    static constexpr bool indexed = true;
    static constexpr long want_depth = depth;
};
template <int depth> struct ShPlain : Base {
    using V = int64_t;
    using Tree = typename BppTree<int64_t, NODE_HDR + 1 * 8, inb(4, 8), depth>::template mixins<>;
    static constexpr long want_depth = depth;
};
template <int depth> struct ShDeep : Base {
    using V = int64_t;
    using Tree = typename BppTree<int64_t, NODE_HDR + 1 * 8, inb(4, 8 + 8), depth>::template mixins<IndexedBuilder<>>;
    static constexpr bool indexed = true;
    static constexpr long want_depth = depth;
};
template <int depth> struct ShDef : Base {
    using V = int64_t;
    using Tree = typename BppTree<int64_t, 512, 512, depth>::template mixins<IndexedBuilder<>, SummedBuilder<>>;
    static constexpr bool indexed = true, summed = true;
    static constexpr long want_depth = depth;
};

// nodes near the largest number of elements that a node may have
struct LongOf { long operator()(uint8_t v) const { return v; } };
struct ShHugeLeaf : Base {
    using V = uint8_t;
    using Tree = BppTree<uint8_t, NODE_HDR + 65000, inb(4, 8 + 8 + 8), 4>::mixins<IndexedBuilder<>, SummedBuilder<LongOf>>;
    static constexpr bool indexed = true, summed = true;
    static constexpr long want_depth = 4, full_node = 65000;
};
struct ShHugeInner : Base {
    using V = int32_t;
    using Tree = BppTree<int32_t, NODE_HDR + 8, inb(43000, 8 + 4), 3>::mixins<IndexedBuilder<uint32_t>>;
    static constexpr bool indexed = true;
    static constexpr long want_depth = 3, full_node = 43000;
};
struct ShHugeBoth : Base {
    using V = int16_t;
    using Tree = BppTree<int16_t, NODE_HDR + 2 * 300, inb(300, 8 + 4 + 2), 3>::mixins<IndexedBuilder<uint32_t>, MaxBuilder<ValueExtractor>>;
    static constexpr bool indexed = true;
    static constexpr long want_depth = 3, full_node = 90000;
};

template <class C>
struct Run {
    using V = typename C::V;
    using T = typename C::Tree::Transient;
    using P = typename C::Tree::Persistent;
    using M = std::deque<long>;
    Rng& rng;
    long high_depth = 0;
    explicit Run(Rng& r) : rng(r) {}

    static V mk(long i) {
        if constexpr (std::is_same_v<V, PR>) return V(static_cast<int32_t>(i), static_cast<int32_t>(i * 3));
        else return tr::Conv<V>::mk(i);
    }
    static long id(V const& v) {
        if constexpr (std::is_same_v<V, PR>) return v.second == v.first * 3 ? v.first : -99999;
        else return tr::Conv<V>::id(v);
    }
    void did(char const* op, long n) {
        log_op(op, n);
        S().op_counts[op]++;
        S().steps++;
    }

    // cheap, after every edit
    template <class X>
    void glance(X const& x, M const& m, char const* what) {
        ev(4);
        S().steps++;
        if (x.size() != m.size() || x.empty() != m.empty()) failf(C21, "%s: size %zu, expected %zu", what, static_cast<size_t>(x.size()), m.size());
        if (x.depth() > x.max_depth() || x.depth() < 1) failf(C21, "%s: depth %zu of at most %zu", what, static_cast<size_t>(x.depth()), static_cast<size_t>(x.max_depth()));
        if (m.size() < 2 && x.depth() != 1) failf(C21, "%s: depth %zu with %zu elements", what, static_cast<size_t>(x.depth()), m.size());
        if (!m.empty() && (id(x.front()) != m.front() || id(x.back()) != m.back())) failf(C21, "%s: front or back", what);
        if (x.size() > x.max_size()) failf(C21, "%s: size above max_size()", what);
    }

    template <class X>
    void full(X const& x, M const& m, char const* what) {
        glance(x, m, what);
        size_t i = 0;
        for (auto const& v : x) {
            MON_CHECK(C21, i < m.size() && id(v) == m[i], "%s: element %zu of %zu", what, i, m.size());
            ++i;
        }
        MON_CHECK(C21, i == m.size(), "%s: traversal visits %zu of %zu", what, i, m.size());
        for (auto it = x.rbegin(); it != x.rend(); ++it) {
            --i;
            MON_CHECK(C21, i < m.size() && id(*it) == m[i], "%s: element %zu in reverse", what, i);
        }
        points(x, m, what, 20);
        context(mix(hash_str(what), mix(static_cast<uint64_t>(x.depth()), static_cast<uint64_t>(std::log2(1.0 + static_cast<double>(m.size()))))));
    }

    template <class X>
    void points(X const& x, M const& m, char const* what, int n) {
        if (m.empty()) {
            MON_CHECK(C21, x.begin() == x.end() && x.rbegin() == x.rend() && x.cbegin() == x.cend(), "%s: begin() != end() of an empty tree", what);
        }
        for (int k = 0; k < n && !m.empty(); ++k) {
            size_t p = k == 0 ? m.size() - 1 : k == 1 ? 0 : rng.below(m.size());
            auto it = x.cbegin() + static_cast<long>(p);
            MON_CHECK(C21, it.valid() && id(*it) == m[p], "%s: begin() + %zu of %zu", what, p, m.size());
            auto back = x.cend() - static_cast<long>(m.size() - p);
            MON_CHECK(C21, back == it, "%s: end() - %zu of %zu", what, m.size() - p, m.size());
            if constexpr (C::indexed) {
                using Sz = std::decay_t<decltype(x.order(x.cend()))>;
                MON_CHECK(C21, id(x.at_index(static_cast<Sz>(p))) == m[p] && static_cast<size_t>(x.order(it)) == p, "%s: index %zu of %zu", what, p, m.size());
            }
            if constexpr (C::ordered) {
                auto f = x.find(mk(m[p]).first);
                MON_CHECK(C21, f.valid() && f == it, "%s: find of element %zu of %zu", what, p, m.size());
            }
        }
        if constexpr (C::summed) {
            long s = 0;
            for (long v : m) s += v;
            MON_CHECK(C21, static_cast<long>(x.sum()) == s, "%s: sum", what);
        }
    }

    // values: ascending so that ordered trees accept them, small enough for the sums
    void push(T& t, M& m) {
        long v = m.empty() ? 0 : m.back() + 1;
        if (rng.chance(1, 2)) t.push_back(mk(v));
        else t.emplace_back(mk(v));
        m.push_back(v);
    }

    bool interesting(size_t n, T const& t) {
        // around the sizes at which a level fills up
        if (n < 40) return rng.chance(1, 6);
        (void) t;
        return (n & (n - 1)) == 0 || rng.chance(1, static_cast<unsigned>(n / 4 + 20));
    }

    struct Snap { P p; M m; };

    void fill(T& t, M& m, size_t upto, int style) {
        std::deque<Snap> snaps;
        did(style == 0 ? "fill by push_back" : style == 1 ? "fill by push_back with snapshots" : "fill by Persistent::push_back", static_cast<long>(upto));
        size_t depth = t.depth();
        while (m.size() < upto) {
            if (style == 2) {
                long v = m.empty() ? 0 : m.back() + 1;
                P p = t.persistent();
                P q = rng.chance(1, 2) ? p.push_back(mk(v)) : p.emplace_back(mk(v));
                glance(p, m, "source of Persistent::push_back");
                m.push_back(v);
                glance(q, m, "Persistent::push_back");
                t = rng.chance(1, 2) ? q.transient() : std::move(q).transient();
            } else {
                push(t, m);
            }
            glance(t, m, "push_back");
            if (t.depth() != depth) {
                if (t.depth() != depth + 1) failf(C21, "push_back changed the depth from %zu to %zu", depth, static_cast<size_t>(t.depth()));
                depth = t.depth();
                full(t, m, "at a new depth");
            } else if (interesting(m.size(), t)) full(t, m, "while filling");
            if (style == 1 && rng.chance(1, static_cast<unsigned>(upto / 12 + 3))) {
                if (snaps.size() > 2) snaps.pop_front();
                snaps.push_back(Snap{t.persistent(), m});
            }
        }
        for (auto& s : snaps) full(s.p, s.m, "a snapshot taken while filling");
        full(t, m, "filled");
        high_depth = std::max<long>(high_depth, static_cast<long>(t.depth()));
    }

    void drain(T& t, M& m, size_t downto, int style) {
        static char const* const names[] = {"drain by pop_back", "drain by pop_front", "drain at random", "drain with snapshots", "drain forwards through an iterator"};
        did(names[style], static_cast<long>(downto));
        std::deque<Snap> snaps;
        size_t depth = t.depth();
        std::unique_ptr<typename T::iterator> it;
        size_t pos = 0;
        while (m.size() > downto) {
            if (style == 0 || (style == 3 && rng.chance(1, 3))) {
                V v = t.pop_back();
                MON_CHECK(C21, id(v) == m.back(), "pop_back returns another element");
                m.pop_back();
            } else if (style == 1) {
                V v = t.pop_front();
                MON_CHECK(C21, id(v) == m.front(), "pop_front returns another element");
                m.pop_front();
            } else if (style == 4) {
                if (!it || pos >= m.size()) { pos = rng.below(m.size()); it = std::make_unique<typename T::iterator>(t.begin() + static_cast<long>(pos)); }
                t.erase(*it);
                m.erase(m.begin() + static_cast<long>(pos));
                MON_CHECK(C21, it->valid() == (pos < m.size()), "iterator after erase");
                if (pos < m.size()) MON_CHECK(C21, id(it->get()) == m[pos], "iterator after erase");
            } else {
                size_t p = rng.below(m.size());
                auto e = t.begin() + static_cast<long>(p);
                t.erase(e);
                m.erase(m.begin() + static_cast<long>(p));
            }
            if (style == 3 && rng.chance(1, 20)) {
                if (snaps.size() > 2) snaps.pop_front();
                snaps.push_back(Snap{t.persistent(), m});
            }
            glance(t, m, "removal");
            if (t.depth() > depth) failf(C21, "a removal raised the depth from %zu to %zu", depth, static_cast<size_t>(t.depth()));
            if (t.depth() != depth) { depth = t.depth(); full(t, m, "after losing depth"); }
            else if (interesting(m.size(), t)) full(t, m, "while draining");
        }
        for (auto& s : snaps) full(s.p, s.m, "a snapshot taken while draining");
        full(t, m, "drained");
    }

    // an emptied tree and a new one get the same edits
    void like_new(T& used, char const* what) {
        did(what, 0);
        T fresh{};
        M m;
        full(used, m, what);
        for (int i = 0; i < 120; ++i) {
            // an insert into a tree below its full depth always fits
            if (used.depth() == used.max_depth() && (used.max_depth() > 1 || used.size() == used.max_size())) break;
            long a = rng.range(0, 3);
            if constexpr (C::ordered) {
                long v = m.empty() ? 0 : m.back() + 1;
                used.push_back(mk(v));
                fresh.push_back(mk(v));
                m.push_back(v);
            } else if (a == 3 && !m.empty()) {
                size_t p = rng.below(m.size());
                auto e = used.begin() + static_cast<long>(p);
                used.erase(e);
                auto f = fresh.begin() + static_cast<long>(p);
                fresh.erase(f);
                m.erase(m.begin() + static_cast<long>(p));
            } else {
                long v = rng.range(0, 100);
                size_t p = rng.below(m.size() + 1);
                auto e = m.empty() ? used.begin() : used.begin() + static_cast<long>(p);
                used.insert(e, mk(v));
                auto f = m.empty() ? fresh.begin() : fresh.begin() + static_cast<long>(p);
                fresh.insert(f, mk(v));
                m.insert(m.begin() + static_cast<long>(p), v);
            }
            MON_CHECK(C21, used.depth() == fresh.depth(), "%s: depth %zu where a new tree has %zu after the same edits", what, static_cast<size_t>(used.depth()), static_cast<size_t>(fresh.depth()));
            glance(used, m, what);
        }
        full(used, m, what);
        full(fresh, m, "a new tree");
    }

    void at_the_limit(T& t, M& m) {
        did("at max_size()", static_cast<long>(m.size()));
        MON_CHECK(C21, t.size() == t.max_size(), "not filled");
        MON_CHECK(C21, t.depth() == t.max_depth(), "a full tree has depth %zu of %zu", static_cast<size_t>(t.depth()), static_cast<size_t>(t.max_depth()));
#ifdef BPPTREE_SAFETY_CHECKS
        P p = t.persistent();
        bool thrown = false;
        try {
            P q = p.push_back(mk(m.back() + 1));
        } catch (std::logic_error const&) {
            thrown = true;
        }
        MON_CHECK(C21, thrown, "push_back beyond max_size() of a full tree succeeds");
        full(p, m, "after a refused push_back");
#endif
        S().counters["filled to max_size()"]++;
        // a full tree still takes edits
        for (int i = 0; i < 10; ++i) {
            if constexpr (!C::ordered) {
                size_t q = rng.below(m.size());
                long v = rng.range(0, 50);
                t.assign(t.begin() + static_cast<long>(q), mk(v));
                m[q] = v;
            }
            if (rng.chance(1, 2)) {
                V v = t.pop_back();
                MON_CHECK(C21, id(v) == m.back(), "pop_back of a full tree");
                long back = m.back();
                t.push_back(v);
                m.back() = back;
                glance(t, m, "pop_back and push_back of a full tree");
            }
        }
        full(t, m, "a full tree after edits");
    }

    void run() {
        T t{};
        M m;
        MON_CHECK(C21, static_cast<long>(t.max_depth()) == C::want_depth, "max_depth() is %zu, the depth limit is %ld", static_cast<size_t>(t.max_depth()), C::want_depth);
        full(t, m, "a new tree");
        size_t cap = t.max_size();
        bool big = cap > 5000;
        fill(t, m, cap, big ? static_cast<int>(rng.below(2)) : static_cast<int>(rng.below(3)));
        at_the_limit(t, m);
        int style = static_cast<int>(big ? rng.below(2) : rng.below(5));
        if (rng.chance(1, 4)) {
            P keep = t.persistent();
            M km = m;
            t.clear();
            m.clear();
            like_new(t, "cleared");
            full(keep, km, "a snapshot of a cleared tree");
        } else {
            if (rng.chance(1, 3)) drain(t, m, rng.below(cap), static_cast<int>(rng.below(2)));
            drain(t, m, rng.chance(1, 4) ? 1 : 0, style);
            if (m.empty()) like_new(t, "emptied");
        }
        t.clear();
        m.clear();
        if (!big || rng.chance(1, 3)) {
            fill(t, m, cap, big ? 0 : static_cast<int>(rng.below(2)));
            at_the_limit(t, m);
        }
        if (!C::ordered) thin();
        S().counters["max depth reached"] = std::max<uint64_t>(S().counters["max depth reached"], static_cast<uint64_t>(high_depth));
        sample("max_size " + std::to_string(cap) + ", depth " + std::to_string(high_depth) + ": " + ring_text(10));
    }

    // more elements or children than fit in a narrow count
    void huge() {
        T t{};
        M m;
        long const upto = C::full_node + rng.range(200, C::full_node / 3);
        did("fill huge nodes", upto);
        bool const front = rng.chance(1, 2), snapshot = rng.chance(1, 2);
        size_t depth = 1;
        long fullest = 0;
        std::deque<Snap> snaps;
        // by push_back: a node split at its end may keep few elements on its right
        for (long i = 0; i < upto; ++i) {
            long v = rng.range(0, 100);
            if (front && i > upto - 400) { t.push_front(mk(v)); m.push_front(v); }
            else { t.push_back(mk(v)); m.push_back(v); }
            glance(t, m, "push of a huge node");
            if (t.depth() == depth) fullest = i;
            bool const edge = (i & (i + 1)) == 0 || ((i + 1) & i) == 0 || t.depth() != depth;
            depth = t.depth();
            if (edge && i > 100) full(t, m, "huge nodes");
            if (snapshot && (i == 33000 || i == 64000)) snaps.push_back(Snap{t.persistent(), m});
        }
        (void) fullest;
        full(t, m, "huge nodes filled");
        for (int i = 0; i < 150; ++i) {
            size_t p = rng.chance(1, 3) ? m.size() - 1 - rng.below(300) : rng.below(m.size());
            auto e = t.begin() + static_cast<long>(p);
            if (rng.chance(1, 3)) {
                long v = rng.range(0, 100);
                t.insert(e, mk(v));
                m.insert(m.begin() + static_cast<long>(p), v);
                MON_CHECK(C21, e.valid() && id(e.get()) == m[p] && static_cast<size_t>(t.order(e)) == p, "insert into a huge node");
            } else if (rng.chance(1, 2)) {
                t.erase(e);
                m.erase(m.begin() + static_cast<long>(p));
                MON_CHECK(C21, e.valid() == (p < m.size()) && (p >= m.size() || id(e.get()) == m[p]), "erase from a huge node");
            } else {
                long v = rng.range(0, 100);
                t.assign(e, mk(v));
                m[p] = v;
            }
            glance(t, m, "edit of a huge node");
            points(t, m, "edit of a huge node", i % 10 == 0 ? 4 : 0);
            if (snapshot && i == 70) snaps.push_back(Snap{t.persistent(), m});
        }
        full(t, m, "huge nodes edited");
        for (auto& s : snaps) full(s.p, s.m, "a snapshot of huge nodes");
        snaps.clear();
        S().counters["huge nodes filled"]++;
        long const downto = rng.chance(1, 2) ? 0 : C::full_node / 2;
        while (static_cast<long>(m.size()) > downto) {
            V v = t.pop_back();
            MON_CHECK(C21, id(v) == m.back(), "pop_back of a huge node");
            m.pop_back();
            glance(t, m, "pop_back of a huge node");
            if ((m.size() & (m.size() - 1)) == 0 && m.size() > 100) full(t, m, "huge nodes while draining");
        }
        for (long i = 0; i < 300 && !m.empty(); ++i) {
            V v = t.pop_front();
            MON_CHECK(C21, id(v) == m.front(), "pop_front of a huge node");
            m.pop_front();
            glance(t, m, "pop_front of a huge node");
        }
        full(t, m, "huge nodes drained");
        high_depth = std::max<long>(high_depth, static_cast<long>(depth));
        sample("huge nodes, " + std::to_string(upto) + " elements, depth " + std::to_string(depth) + ": " + ring_text(6));
    }

    // inserting in the middle leaves half-full nodes, the quickest way to great depth
    void thin() {
        T t{};
        M m;
        did("grow thin", 0);
        long limit = static_cast<long>(t.max_depth()) >= 13 ? 100000 : 3000;
        if constexpr (C::want_depth < 3 || std::is_same_v<C, ShDef<3>>) limit = 0;
        std::deque<long> model;
        bool front = rng.chance(1, 3);
        auto it = t.begin();
        size_t depth = 1;
        for (long i = 0; i < limit && t.depth() < t.max_depth(); ++i) {
            if (front || m.size() < 2) { t.push_front(mk(i % 1000)); m.push_front(i % 1000); }
            else {
                size_t p = m.size() / 2;
                auto e = t.begin() + static_cast<long>(p);
                t.insert(e, mk(i % 1000));
                m.insert(m.begin() + static_cast<long>(p), i % 1000);
            }
            glance(t, m, "thin insert");
            if (t.depth() != depth) {
                if (t.depth() != depth + 1) failf(C21, "an insert changed the depth from %zu to %zu", depth, static_cast<size_t>(t.depth()));
                depth = t.depth();
                full(t, m, "a thin tree at a new depth");
            }
        }
        high_depth = std::max<long>(high_depth, static_cast<long>(t.depth()));
        full(t, m, "a thin tree");
        drain(t, m, 0, static_cast<int>(rng.below(m.size() > 5000 ? 2 : 5)));
        like_new(t, "emptied");
    }
};

#if CFG == 8
// Nodes keep to the bytes they were configured with. Elements own no memory here, so what a tree allocates are its nodes.
#include <cstdlib>
#include <new>
static bool metering = false;
static size_t largest = 0, allocated = 0;
static void* meter(size_t n, size_t a) {
    if (metering) { ++allocated; if (n > largest) largest = n; }
    void* p = a > 16 ? std::aligned_alloc(a, (n + a - 1) / a * a) : malloc(n);
    if (!p) abort();
    return p;
}
void* operator new(size_t n) { return meter(n, 0); }
void* operator new(size_t n, std::align_val_t a) { return meter(n, static_cast<size_t>(a)); }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete(void* p, std::align_val_t) noexcept { free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { free(p); }

template <int n, int align = 4> struct alignas(align) Blob {
    int32_t v = 0;
    char pad[n - 4] = {};
    Blob() = default;
    Blob(int32_t x) : v(x) {} //NOLINT
    friend bool operator<(Blob const& a, Blob const& b) { return a.v < b.v; }
};
template <> struct Blob<4, 4> { int32_t v = 0; Blob() = default; Blob(int32_t x) : v(x) {} friend bool operator<(Blob const& a, Blob const& b) { return a.v < b.v; } }; //NOLINT
struct BlobKey { template <class B> int32_t operator()(B const& b) const { return b.v; } };
template <class V, int leaf_bytes, int internal_bytes, class... M>
void budget(char const* what, Rng& rng) {
    constexpr int leaf = leaf_bytes + 2 * (NODE_HDR - 8), internal = internal_bytes + 2 * (NODE_HDR - 8);
    using Tree = typename BppTree<V, leaf, internal, 8>::template mixins<M...>;
    typename Tree::Transient t{};
    std::vector<typename Tree::Persistent> snaps;
    log_op(what, leaf, internal);
    S().op_counts["grow and look at the sizes of nodes"]++;
    bool const front = rng.chance(1, 2);
    int const n = static_cast<int>(rng.range(300, 1500));
    for (int i = 0; i < n && t.depth() < 7; ++i) {
        size_t const depth = t.depth();
        metering = true;
        largest = 0;
        if (front) t.push_front(V(n - i)); else t.push_back(V(i));
        metering = false;
        S().steps++;
        size_t const limit = depth == 1 && t.depth() == 1 ? leaf : std::max(leaf, internal);
        MON_CHECK(C21, largest <= limit, "%s: a node takes %zu bytes where leaves are given %d and internal nodes %d", what, largest, leaf, internal);
        if (rng.chance(1, 40)) snaps.push_back(t.persistent());
        if (snaps.size() > 3) snaps.erase(snaps.begin());
        ev();
    }
    MON_CHECK(C21, static_cast<int>(t.size()) <= n && t.size() > 100, "%s: size", what);
    int last = -1;
    for (V const& v : std::as_const(t)) { MON_CHECK(C21, v.v > last, "%s: contents", what); last = v.v; }
    S().counters["nodes allocated"] = allocated;
    context(mix(hash_str(what), mix(t.depth(), front)));
}
static void budgets(Rng& rng) {
    using I = IndexedBuilder<>;
    using I8 = IndexedBuilder<uint16_t>;
    using O = OrderedBuilder<ValueExtractor>;
    using MX = MaxBuilder<ValueExtractor>;
    using MN = MinBuilder<ValueExtractor>;
    using MK = MinBuilder<BlobKey>;
    budget<Blob<4>, 512, 512>("plain ints", rng);
    budget<Blob<4>, 100, 300, I>("ints in odd sizes", rng);
    budget<Blob<4>, 65, 1000, O, I8>("ordered ints", rng);
    budget<Blob<8>, 777, 111, I8, MK>("pairs, large leaves", rng);
    budget<Blob<12>, 128, 256, MX, I>("three words", rng);
    budget<Blob<20>, 256, 200, MN, MX>("five words", rng);
    budget<Blob<24, 8>, 300, 333, O, MX, I>("aligned to 8", rng);
    budget<Blob<64, 32>, 512, 512, I>("aligned to 32", rng);
    budget<Blob<64, 32>, 400, 700, MX>("aligned to 32, kept in internal nodes", rng);
    budget<Blob<100>, 1000, 900, O>("wide", rng);
    budget<Blob<100>, 230, 560, MN, I8>("wide, small nodes", rng);
    budget<Blob<4>, 4096, 4096, I>("pages", rng);
}
#endif

int main(int argc, char** argv) {
    mon::init(argc, argv);
    S().cur = C21;
    long n = S().episodes;
    (void) n;
#define SHAPE(name, eps) episodes(#name, eps, [](Rng& r) { Run<name>(r).run(); });
#if CFG == 1
    SHAPE(ShInt<1>, n) SHAPE(ShInt<2>, n) SHAPE(ShInt<3>, n) SHAPE(ShInt<5>, n)
#elif CFG == 2
    SHAPE(ShMap<1>, n) SHAPE(ShMap<2>, n) SHAPE(ShMap<4>, n) SHAPE(ShMap<5>, n)
#elif CFG == 3
    SHAPE(ShStr<1>, n) SHAPE(ShStr<2>, n) SHAPE(ShStr<3>, n) SHAPE(ShStr<5>, n)
#elif CFG == 4
    SHAPE(ShPlain<2>, n) SHAPE(ShPlain<4>, n) SHAPE(ShPlain<7>, n)
#elif CFG == 5
    SHAPE(ShDef<2>, n) SHAPE(ShDef<3>, n / 8 + 1)
#elif CFG == 6
    // deep: only thin growth and a drain (max_size() is out of reach)
    episodes("ShDeep<14>", n / 8 + 1, [](Rng& r) { Run<ShDeep<14>> run(r); run.thin(); S().counters["max depth reached"] = static_cast<uint64_t>(run.high_depth); sample("depth " + std::to_string(run.high_depth) + ": " + ring_text(10)); });
#elif CFG == 7
    SHAPE(ShDef<4>, n)
#elif CFG == 9
#define HUGE_SHAPE(name) episodes("huge " #name, n / 8 + 1, [](Rng& r) { Run<name>(r).huge(); });
    HUGE_SHAPE(ShHugeLeaf) HUGE_SHAPE(ShHugeInner) HUGE_SHAPE(ShHugeBoth)
#elif CFG == 8
    episodes("budgets", n, [](Rng& r) { budgets(r); });
#endif
    return mon::finish();
}
