// C15: what operations cost, in executed code edges, allocations, element copies and comparisons - never in time.
// Compiled with -fsanitize-coverage=trace-pc-guard: every executed edge calls back.
#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <new>
#include <string>
#include <vector>
#include "bpptree/bpptree.hpp"
#include "bpptree/indexed.hpp"
#include "bpptree/max.hpp"
#include "bpptree/min.hpp"
#include "bpptree/ordered.hpp"
#include "bpptree/summed.hpp"
#include "mon.hpp"
using namespace mon;
using namespace bpptree;

#define NOCOV __attribute__((no_sanitize("coverage")))

struct Cost {
    uint64_t edges = 0, allocs = 0, frees = 0, copies = 0, moves = 0, cmps = 0;
};
static Cost now;
static bool metering = false;
extern "C" NOCOV void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) { for (; a < b; ++a) *a = 1; }
extern "C" NOCOV void __sanitizer_cov_trace_pc_guard(uint32_t*) { if (metering) ++now.edges; }

NOCOV void* operator new(size_t n) { if (metering) ++now.allocs; void* p = malloc(n); if (!p) abort(); return p; }
NOCOV void* operator new(size_t n, std::align_val_t) { return operator new(n); }
NOCOV void operator delete(void* p) noexcept { if (metering && p) ++now.frees; free(p); }
NOCOV void operator delete(void* p, size_t) noexcept { operator delete(p); }
NOCOV void operator delete(void* p, std::align_val_t) noexcept { operator delete(p); }
NOCOV void operator delete(void* p, size_t, std::align_val_t) noexcept { operator delete(p); }

// a value that counts how often it is copied
struct Cnt {
    int32_t v = 0;
    NOCOV Cnt() = default;
    NOCOV explicit Cnt(int32_t x) : v(x) {}
    NOCOV Cnt(Cnt const& o) noexcept : v(o.v) { if (metering) ++now.copies; }
    NOCOV Cnt(Cnt&& o) noexcept : v(o.v) { if (metering) ++now.moves; }
    NOCOV Cnt& operator=(Cnt const& o) noexcept { v = o.v; if (metering) ++now.copies; return *this; }
    NOCOV Cnt& operator=(Cnt&& o) noexcept { v = o.v; if (metering) ++now.moves; return *this; }
    NOCOV ~Cnt() {}
};
struct CntLess {
    template <class A, class B> NOCOV bool operator()(A const& a, B const& b) const { if (metering) ++now.cmps; return a < b; }
};
using El = std::pair<int32_t, Cnt>;

namespace cfg {
constexpr int inb(int n, int per) { return NODE_HDR + 8 + n * per; }
struct Base { static constexpr bool ordered = false, indexed = false, summed = false, hasmin = false; static constexpr long leaf = 2 + NODE_HDR / 8, node = 3 + NODE_HDR / 8; };
// tiny nodes: deep trees at moderate sizes
struct CoMap : Base {
    using Tree = BppTree<El, NODE_HDR + 3 * 8, inb(4, 8 + 4 + 8 + 4 + 4 + 4), 16>::mixins<OrderedBuilder<PairExtractor<0>, CntLess>, IndexedBuilder<>, SummedBuilder<PairExtractor<0>>, MinBuilder<PairExtractor<0>>, MaxBuilder<PairExtractor<0>>>;
    static constexpr bool ordered = true, indexed = true, summed = true, hasmin = true;
};
struct CoSeq : Base {
    using Tree = BppTree<El, NODE_HDR + 3 * 8, inb(4, 8 + 8 + 4 + 4), 16>::mixins<IndexedBuilder<>, SummedBuilder<PairExtractor<0>>, MinBuilder<PairExtractor<0>>>;
    static constexpr bool indexed = true, summed = true, hasmin = true;
};
// default nodes, binary search
struct CoBig : Base {
    using Tree = BppTree<El, 512, 512, 6>::mixins<OrderedBuilder<PairExtractor<0>, CntLess, std::true_type>, SummedBuilder<PairExtractor<0>>, MaxBuilder<PairExtractor<0>>>;
    static constexpr bool ordered = true, summed = true;
    static constexpr long leaf = 64, node = 40;
};
struct CoPlain : Base {
    using Tree = BppTree<El, NODE_HDR + 3 * 8, inb(4, 8), 16>::mixins<>;
};
}

template <class C>
struct Run {
    using T = typename C::Tree::Transient;
    using P = typename C::Tree::Persistent;
    Rng& rng;
    struct Worst { uint64_t edges = 0, allocs = 0, frees = 0, copies = 0, moves = 0, cmps = 0, n = 0; };
    // op -> size class -> worst cost
    std::map<std::string, std::map<long, Worst>> table;
    std::map<long, long> depth_of;
    long cls = 0;
    explicit Run(Rng& r) : rng(r) {}

    // an upper bound on what one operation may do that is independent of n
    template <class F>
    NOCOV Cost meter(char const* op, F&& f) {
        S().steps++;
        S().op_counts[op]++;
        log_op(op, cls);
        now = Cost{};
        metering = true;
        f();
        metering = false;
        Cost c = now;
        Worst& w = table[op][cls];
        w.edges = std::max(w.edges, c.edges);
        w.allocs = std::max(w.allocs, c.allocs);
        w.frees = std::max(w.frees, c.frees);
        w.copies = std::max(w.copies, c.copies);
        w.moves = std::max(w.moves, c.moves);
        w.cmps = std::max(w.cmps, c.cmps);
        ++w.n;
        return c;
    }
    NOCOV static El el(long k) { return El(static_cast<int32_t>(k), Cnt(static_cast<int32_t>(k))); }

#define COST_CHECK(cond, ...) MON_CHECK(C15, cond, __VA_ARGS__)

    // nothing a pure read does allocates or copies elements
    NOCOV void pure(Cost const& c, char const* op, uint64_t copies = 0) {
        COST_CHECK(c.allocs == 0 && c.frees == 0, "%s allocates (%llu allocations)", op, static_cast<unsigned long long>(c.allocs));
        COST_CHECK(c.copies <= copies, "%s copies %llu elements", op, static_cast<unsigned long long>(c.copies));
    }
#define READ(op, ...) do { Cost c_ = meter(op, [&] { __VA_ARGS__; }); pure(c_, op); } while (0)

    template <class X>
    NOCOV void reads(X const& x, std::vector<int32_t> const& m) {
        long n = static_cast<long>(m.size());
        volatile long sink = 0;
        for (int rep = 0; rep < 60; ++rep) {
            size_t p = rep == 0 ? 0 : rep == 1 ? m.size() - 1 : rng.below(m.size());
            size_t q = rep == 2 ? 0 : rng.below(m.size());
            if (p > q && rng.chance(1, 2)) std::swap(p, q);
            int32_t key = m[p] + static_cast<int32_t>(rep % 3 == 0 ? 1 : 0);
            (void) key;
            auto it = x.cbegin();
            auto jt = x.cend();
            auto rt = x.crbegin();
            READ("size/empty/depth", sink = static_cast<long>(x.size()) + x.empty() + static_cast<long>(x.depth()));
            READ("begin", auto t = x.cbegin(); sink = t.valid());
            READ("end", auto t = x.cend(); sink = t.valid());
            READ("rbegin", auto t = x.crbegin(); sink = t.valid());
            READ("rend", auto t = x.crend(); sink = t.valid());
            READ("front/back", sink = x.front().first + x.back().first);
            if constexpr (C::ordered) {
                READ("find", auto t = x.find(key); sink = t.valid());
                READ("lower_bound", auto t = x.lower_bound(key); sink = t.valid());
                READ("upper_bound", auto t = x.upper_bound(key); sink = t.valid());
                READ("contains", sink = x.contains(key));
                READ("at_key", sink = x.at_key(m[p]).v);
                it = x.find(m[p]);
                jt = x.find(m[q]);
            }
            if constexpr (C::indexed) {
                READ("at_index", sink = x.at_index(p).first);
                READ("operator[]", sink = x.find_index(p).valid());
                it = x.find_index(p);
                jt = x.find_index(q);
                READ("order", sink = static_cast<long>(x.order(it)));
                READ("order(end)", sink = static_cast<long>(x.order(x.cend())));
                READ("iterator difference", sink = it - jt);
                READ("iterator order", sink = it < jt);
                READ("it + n", auto t = it + (static_cast<long>(q) - static_cast<long>(p)); sink = t.valid());
                READ("it += n", auto t = x.cbegin(); t += static_cast<long>(p); sink = t.valid());
                READ("end - n", auto t = x.cend() - (n - static_cast<long>(p)); sink = t.valid());
                READ("past the end", auto t = it + 2 * n; sink = t.valid());
                READ("it[n]", sink = it[static_cast<long>(q) - static_cast<long>(p)].first);
                READ("end - begin", sink = x.cend() - x.cbegin());
                READ("rbegin + n", auto t = x.crbegin() + static_cast<long>(p); sink = t.valid());
                rt = x.crbegin() + static_cast<long>(p);
                READ("reverse - reverse", sink = rt - x.crbegin());
                READ("order(reverse)", sink = static_cast<long>(x.order(rt)));
                READ("std::lower_bound step", auto t = std::next(x.cbegin(), static_cast<long>(p)); sink = std::distance(t, x.cend()));
            }
            READ("++", auto t = it; ++t; sink = t.valid());
            READ("--", auto t = it; if (p != 0) --t; sink = t.valid());
            READ("-- from end", auto t = x.cend(); --t; sink = t.valid());
            READ("++ reverse", auto t = rt; ++t; sink = t.valid());
            READ("iterator ==", sink = it == jt);
            if constexpr (C::summed) {
                READ("sum", sink = static_cast<long>(x.sum()));
                READ("sum_inclusive", sink = static_cast<long>(x.sum_inclusive(it)));
                READ("sum_exclusive", sink = static_cast<long>(x.sum_exclusive(it)));
                READ("sum_exclusive(end)", sink = static_cast<long>(x.sum_exclusive(x.cend())));
                auto target = static_cast<int32_t>(static_cast<long>(x.sum()) * rng.range(0, 110) / 100);
                READ("sum_lower_bound", auto t = x.sum_lower_bound(target); sink = t.valid());
            }
            if constexpr (C::hasmin) {
                READ("min", sink = x.min());
                auto lo = p <= q ? it : jt, hi = p <= q ? jt : it;
                if (lo != hi) {
                    READ("min over a range", sink = x.min(lo, hi));
                    READ("min_element over a range", auto t = x.min_element(lo, hi); sink = t.valid());
                }
                READ("min over a prefix", sink = x.min(x.cbegin(), ++x.cbegin()));
                READ("min to the end", sink = x.min(it, x.cend()));
                READ("min over everything", sink = x.min(x.cbegin(), x.cend()));
                READ("min over a reverse range", sink = x.min(rt, x.crend()));
                READ("min_element", auto t = x.min_element(); sink = t.valid());
                READ("min_element_const", auto t = x.min_element_const(); sink = t.valid());
            }
        }
        (void) sink;
        (void) n;
    }

    NOCOV void traverse(T const& t) {
        uint64_t n = t.size();
        long s = 0;
        Cost c = meter("traversal, per 64 elements", [&] { for (auto const& e : t) s += e.first; });
        pure(c, "traversal");
        Worst& w = table["traversal, per 64 elements"][cls];
        w.edges = c.edges * 64 / n;   // linear in n, so per element
        Cost r = meter("reverse traversal, per 64 elements", [&] { for (auto it = t.crbegin(); it != t.crend(); ++it) s += it.get().first; });
        pure(r, "reverse traversal");
        table["reverse traversal, per 64 elements"][cls].edges = r.edges * 64 / n;
        (void) s;
    }

    // one edit of a tree; returns the model key list unchanged in size class
    enum Kind { INS, ERASE, ASSIGN };

    // keys are multiples of 4 so that there is room for absent ones
    NOCOV int32_t fresh(std::vector<int32_t> const& m) {
        for (;;) {
            int32_t k = m[rng.below(m.size())] + static_cast<int32_t>(rng.range(1, 3));
            if (!std::binary_search(m.begin(), m.end(), k)) return k;
        }
    }
    NOCOV void madd(std::vector<int32_t>& m, size_t p, int32_t k) { m.insert(m.begin() + static_cast<long>(p), k); }

    // performs a random edit under the meter. shared: nodes may have to be copied
    template <class F>
    NOCOV void edit(T& t, std::vector<int32_t>& m, bool shared, F&& note) {
        uint64_t d = t.depth();
        char const* pre = shared ? "shared " : "";
        auto name = [&](char const* op) { static std::map<std::string, std::string> names; std::string s = std::string(pre) + op; return names.emplace(s, s).first->second.c_str(); };
        Cost c;
        Kind kind = ASSIGN;
        char const* nm = "";
        size_t p = rng.below(m.size());
        if constexpr (C::ordered) {
            int32_t k = m[p];
            switch (rng.below(8)) {
                case 0: case 1: {
                    int32_t f = fresh(m);
                    El e = el(f);
                    nm = name("insert_v"); kind = INS;
                    c = meter(nm, [&] { t.insert_v(e); });
                    madd(m, static_cast<size_t>(std::lower_bound(m.begin(), m.end(), f) - m.begin()), f);
                    break;
                }
                case 2: { int32_t f = fresh(m); El e = el(f); nm = name("insert_or_assign absent"); kind = INS; c = meter(nm, [&] { t.insert_or_assign(e); }); madd(m, static_cast<size_t>(std::lower_bound(m.begin(), m.end(), f) - m.begin()), f); break; }
                case 3: { El e = el(k); nm = name("insert_or_assign present"); c = meter(nm, [&] { t.insert_or_assign(e); }); break; }
                case 4: { El e = el(k); nm = name("assign_v"); c = meter(nm, [&] { t.assign_v(e); }); break; }
                case 5: { nm = name("update_key"); c = meter(nm, [&] { t.update_key(k, [](Cnt const& x) { return Cnt(x.v + 1); }); }); break; }
                default: nm = name("erase_key"); kind = ERASE; c = meter(nm, [&] { t.erase_key(k); }); m.erase(m.begin() + static_cast<long>(p)); break;
            }
        } else if constexpr (C::indexed) {
            int32_t k = static_cast<int32_t>(rng.range(0, 50));
            El e = el(k);
            switch (rng.below(11)) {
                case 0: case 1: nm = name("insert_index"); kind = INS; c = meter(nm, [&] { t.insert_index(p, e); }); madd(m, p, k); break;
                case 2: nm = name("push_back"); kind = INS; c = meter(nm, [&] { t.push_back(e); }); m.push_back(k); break;
                case 3: nm = name("push_front"); kind = INS; c = meter(nm, [&] { t.push_front(e); }); madd(m, 0, k); break;
                case 4: { auto it = t.find_index(p); nm = name("insert(it)"); kind = INS; c = meter(nm, [&] { t.insert(it, e); }); madd(m, p, k); break; }
                case 5: nm = name("assign_index"); c = meter(nm, [&] { t.assign_index(p, e); }); m[p] = k; break;
                case 6: nm = name("update_index"); c = meter(nm, [&] { t.update_index(p, [](El const& x) { return El(x.first, Cnt(1)); }); }); break;
                case 7: nm = name("erase_index"); kind = ERASE; c = meter(nm, [&] { t.erase_index(p); }); m.erase(m.begin() + static_cast<long>(p)); break;
                case 8: { auto it = t.find_index(p); nm = name("erase(it)"); kind = ERASE; c = meter(nm, [&] { t.erase(it); }); m.erase(m.begin() + static_cast<long>(p)); break; }
                case 9: { auto it = t.find_index(p); nm = name("assign(it)"); c = meter(nm, [&] { t.assign(it, e); }); m[p] = k; break; }
                default: { auto it = t.find_index(p); nm = name("update(it)"); c = meter(nm, [&] { t.update(it, [](El const& x) { return El(x.first, Cnt(2)); }); }); }
            }
        } else {
            int32_t k = static_cast<int32_t>(rng.range(0, 50));
            El e = el(k);
            size_t near_ = rng.below(std::min<size_t>(m.size(), 50));
            auto it = t.begin();
            for (size_t i = 0; i < near_; ++i) ++it;
            switch (rng.below(7)) {
                case 0: nm = name("push_back"); kind = INS; c = meter(nm, [&] { t.push_back(e); }); m.push_back(k); break;
                case 1: nm = name("push_front"); kind = INS; c = meter(nm, [&] { t.push_front(e); }); madd(m, 0, k); break;
                case 2: nm = name("insert(it)"); kind = INS; c = meter(nm, [&] { t.insert(it, e); }); madd(m, near_, k); break;
                case 3: nm = name("assign(it)"); c = meter(nm, [&] { t.assign(it, e); }); m[near_] = k; break;
                case 4: nm = name("erase(it)"); kind = ERASE; c = meter(nm, [&] { t.erase(it); }); m.erase(m.begin() + static_cast<long>(near_)); break;
                case 5: nm = name("pop_back"); kind = ERASE; c = meter(nm, [&] { t.pop_back(); }); m.pop_back(); break;
                default: nm = name("pop_front"); kind = ERASE; c = meter(nm, [&] { t.pop_front(); }); m.erase(m.begin());
            }
        }
        uint64_t leaf = static_cast<uint64_t>(C::leaf);
        if (!shared) {
            if (kind == INS) {
                COST_CHECK(c.allocs <= d + 1, "%s of unshared nodes allocates %llu nodes at depth %llu", nm, static_cast<unsigned long long>(c.allocs), static_cast<unsigned long long>(d));
                COST_CHECK(c.frees == 0, "%s of unshared nodes frees %llu nodes", nm, static_cast<unsigned long long>(c.frees));
            } else if (m.size() > 0) {
                COST_CHECK(c.allocs == 0, "%s of unshared nodes allocates %llu nodes", nm, static_cast<unsigned long long>(c.allocs));
            }
            COST_CHECK(c.copies <= 4, "%s of unshared nodes copies %llu elements", nm, static_cast<unsigned long long>(c.copies));
        } else {
            COST_CHECK(c.allocs <= (kind == INS ? 2 * d + 1 : d), "%s of shared nodes allocates %llu nodes at depth %llu", nm, static_cast<unsigned long long>(c.allocs), static_cast<unsigned long long>(d));
            COST_CHECK(c.copies <= leaf + 4, "%s of shared nodes copies %llu elements", nm, static_cast<unsigned long long>(c.copies));
        }
        note(c);
        context(mix(hash_str(nm), mix(d, c.allocs)));
    }

    NOCOV void snapshots(T& t, std::vector<int32_t>& m) {
        uint64_t d = t.depth();
        {
            // the first snapshot may have to mark everything that was edited since, later ones only what changed
            P p = t.persistent();
            for (int i = 0; i < 8; ++i) {
                Cost c = meter("persistent(), nothing changed", [&] { P q = t.persistent(); });
                pure(c, "a snapshot");
            }
            Cost c = meter("transient()", [&] { T q = p.transient(); });
            pure(c, "transient()");
            c = meter("copy of a Persistent", [&] { P q(p); });
            pure(c, "a copy of a Persistent");
            c = meter("copy of a Transient", [&] { T q(t); });
            pure(c, "a copy of a Transient");
        }
        for (int i = 0; i < 60; ++i) {
            P p = t.persistent();
            // k edits after a snapshot hold at most k paths of new nodes
            long k = rng.chance(1, 2) ? 1 : rng.range(1, 8);
            int64_t extra = 0;
            for (long j = 0; j < k; ++j) edit(t, m, true, [&](Cost const& c) { extra += static_cast<int64_t>(c.allocs) - static_cast<int64_t>(c.frees); });
            uint64_t dd = std::max<uint64_t>(d, t.depth());
            COST_CHECK(extra <= static_cast<int64_t>(static_cast<uint64_t>(k) * (2 * dd + 1)), "%ld edits after a snapshot hold %lld extra nodes at depth %llu", k, static_cast<long long>(extra), static_cast<unsigned long long>(dd));
            std::unique_ptr<P> q;
            {
                auto* raw = static_cast<P*>(malloc(sizeof(P)));
                Cost c = meter(k == 1 ? "persistent() after one edit" : "persistent() after up to 8 edits", [&] { new (raw) P(t.persistent()); });
                pure(c, "a snapshot after a few edits");
                q = std::make_unique<P>(std::move(*raw));
                raw->~P();
                free(raw);
            }
            auto gone = std::make_unique<P>(std::move(p));
            Cost c = meter(k == 1 ? "drop a snapshot one edit old" : "drop a snapshot up to 8 edits old", [&] { gone.reset(); });
            COST_CHECK(c.frees <= static_cast<uint64_t>(k) * (2 * dd + 1) + 2, "dropping a snapshot %ld edits old frees %llu nodes", k, static_cast<unsigned long long>(c.frees));
            q.reset();
        }
        // functional edits
        P p = t.persistent();
        for (int i = 0; i < 40; ++i) {
            El e = el(static_cast<int32_t>(rng.range(0, 50)));
            std::unique_ptr<P> out;
            out.reset();
            Cost c;
            size_t pos = rng.below(m.size());
            (void) pos;
            if constexpr (C::ordered) {
                El f = el(fresh(m));
                c = meter("P.insert_v", [&] { P q = p.insert_v(f); });
                func(c, p.depth());
                c = meter("P.erase_key", [&] { P q = p.erase_key(m[pos]); });
                func(c, p.depth());
                c = meter("P.update_key", [&] { P q = p.update_key(m[pos], [](Cnt const& x) { return x; }); });
                func(c, p.depth());
            } else {
                c = meter("P.push_back", [&] { P q = p.push_back(e); });
                func(c, p.depth());
                c = meter("P.push_front", [&] { P q = p.push_front(e); });
                func(c, p.depth());
                auto it = p.cend();
                --it;
                c = meter("P.erase(it)", [&] { P q = p.erase(it); });
                func(c, p.depth());
                if constexpr (C::indexed) {
                    c = meter("P.insert_index", [&] { P q = p.insert_index(pos, e); });
                    func(c, p.depth());
                    c = meter("P.erase_index", [&] { P q = p.erase_index(pos); });
                    func(c, p.depth());
                }
            }
        }
    }
    NOCOV void func(Cost const& c, uint64_t d) {
        COST_CHECK(c.allocs <= 2 * d + 2, "a functional edit allocates %llu nodes at depth %llu", static_cast<unsigned long long>(c.allocs), static_cast<unsigned long long>(d));
        COST_CHECK(c.copies <= static_cast<uint64_t>(C::leaf) + 5, "a functional edit copies %llu elements", static_cast<unsigned long long>(c.copies));
        COST_CHECK(c.frees <= 2 * d + 2, "dropping the result of a functional edit frees %llu nodes", static_cast<unsigned long long>(c.frees));
    }
    // after the first edit of a leaf its path is private
    NOCOV void repeat(T& t, std::vector<int32_t> const& m) {
        for (int i = 0; i < 10; ++i) {
            P keep = t.persistent();
            size_t p = rng.below(m.size());
            for (int j = 0; j < 4; ++j) {
                Cost c;
                if constexpr (C::ordered) c = meter(j ? "update again" : "update once", [&] { t.update_key(m[p], [](Cnt const&) { return Cnt(7); }); });
                else {
                    auto it = t.begin();
                    for (size_t s = 0; s < p % 40; ++s) ++it;
                    c = meter(j ? "update again" : "update once", [&] { t.update(it, [](El const& x) { return El(x.first, Cnt(7)); }); });
                }
                if (j) COST_CHECK(c.allocs == 0, "a second edit of a private leaf allocates %llu nodes", static_cast<unsigned long long>(c.allocs));
                else COST_CHECK(c.allocs <= t.depth(), "an edit after a snapshot allocates %llu nodes at depth %zu", static_cast<unsigned long long>(c.allocs), static_cast<size_t>(t.depth()));
            }
        }
    }

    NOCOV void at_size(long n, long c) {
        cls = c;
        T t{};
        std::vector<int32_t> m;
        int how = static_cast<int>(rng.below(3));
        std::vector<int32_t> keys;
        for (long i = 0; i < n; ++i) keys.push_back(static_cast<int32_t>(C::ordered ? i * 4 : rng.range(0, 50)));
        m = keys;
        if constexpr (C::ordered) {
            if (how == 0) for (int32_t k : keys) t.push_back(el(k));
            else {
                for (size_t i = keys.size(); i > 1; --i) std::swap(keys[i - 1], keys[rng.below(i)]);
                for (int32_t k : keys) t.insert_v(el(k));
            }
        } else {
            if (how == 1) for (size_t i = keys.size(); i-- > 0;) t.push_front(el(keys[i]));
            else for (int32_t k : keys) t.push_back(el(k));
        }
        depth_of[c] = std::max<long>(depth_of[c], static_cast<long>(t.depth()));
        reads(t, m);
        traverse(t);
        uint64_t total_alloc = 0, edits = 0;
        for (int i = 0; i < 200 && m.size() > static_cast<size_t>(n / 2); ++i) edit(t, m, false, [&](Cost const& x) { total_alloc += x.allocs; ++edits; });
        // splits leave two half-full nodes: on average an edit allocates far less than one node per level
        COST_CHECK(total_alloc <= edits * 2 + 40, "%llu unshared edits allocate %llu nodes", static_cast<unsigned long long>(edits), static_cast<unsigned long long>(total_alloc));
        snapshots(t, m);
        repeat(t, m);
        P p = t.persistent();
        reads(p, m);
        depth_of[c] = std::max<long>(depth_of[c], static_cast<long>(t.depth()));
        S().counters["max elements"] = std::max<uint64_t>(S().counters["max elements"], static_cast<uint64_t>(n));
        S().counters["max depth"] = std::max<uint64_t>(S().counters["max depth"], static_cast<uint64_t>(t.depth()));
    }

    // worst costs at the two sizes
    NOCOV void compare(long small, long big) {
        double ratio = static_cast<double>(depth_of[big]) / static_cast<double>(depth_of[small]);
        for (auto& o : table) {
            Worst& a = o.second[small];
            Worst& b = o.second[big];
            if (a.n < 3 || b.n < 3) { if (o.first.find("traversal") == std::string::npos) continue; }
            // several edits share their paths in a small tree: they are compared with as many single ones
            size_t many = o.first.find("up to 8 edits");
            double base = static_cast<double>(a.edges);
            if (many != std::string::npos) base = 8.0 * static_cast<double>(table[o.first.find("drop") == 0 ? "drop a snapshot one edit old" : "persistent() after one edit"][small].edges);
            char const* dbg = getenv("COST_DEBUG");
            if (dbg) printf("%-44s edges %6llu -> %6llu  cmps %4llu -> %4llu moves %4llu -> %4llu copies %llu -> %llu allocs %llu -> %llu (limit %.0f)\n", o.first.c_str(), (unsigned long long) a.edges, (unsigned long long) b.edges, (unsigned long long) a.cmps, (unsigned long long) b.cmps, (unsigned long long) a.moves, (unsigned long long) b.moves, (unsigned long long) a.copies, (unsigned long long) b.copies, (unsigned long long) a.allocs, (unsigned long long) b.allocs, limit(base, ratio));
            ev(4);
            if (static_cast<double>(b.edges) > limit(base, ratio))
                failf(C15, "%s: %llu executed edges at the larger size, %llu at the smaller one (depth %ld and %ld)", o.first.c_str(), static_cast<unsigned long long>(b.edges), static_cast<unsigned long long>(a.edges), depth_of[big], depth_of[small]);
            if (static_cast<double>(b.cmps) > limit(static_cast<double>(a.cmps), ratio))
                failf(C15, "%s: %llu comparisons at the larger size, %llu at the smaller one", o.first.c_str(), static_cast<unsigned long long>(b.cmps), static_cast<unsigned long long>(a.cmps));
            if (b.moves > 4 * a.moves + 3 * static_cast<uint64_t>(C::leaf) + 12)
                failf(C15, "%s: %llu element moves at the larger size, %llu at the smaller one", o.first.c_str(), static_cast<unsigned long long>(b.moves), static_cast<unsigned long long>(a.moves));
        }
    }
    NOCOV static double limit(double small, double ratio) { return 2.2 * small * ratio + 120; }
};

#define STR2(x) #x
#define STR(x) STR2(x)
int main(int argc, char** argv) {
    mon::init(argc, argv);
    S().cur = C15;
    long n1 = cfg::CFG::leaf > 10 ? 3000 : 400;
    long n2 = n1 * 64;
    episodes(STR(CFG), S().episodes, [&](Rng& r) {
        Run<cfg::CFG> run(r);
        for (int i = 0; i < 3; ++i) run.at_size(n1 + r.range(0, n1 / 4), 1);
        run.at_size(n2 + r.range(0, n2 / 4), 2);
        run.compare(1, 2);
        sample("sizes " + std::to_string(n1) + " and " + std::to_string(n2) + ", depths " + std::to_string(run.depth_of[1]) + " and " + std::to_string(run.depth_of[2]));
    });
    return mon::finish();
}
