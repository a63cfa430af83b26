// C18: one history of operations, executed on trees that differ only in tuning parameters; all results must agree.
// Every variant runs the same script; after each operation and at each observation what the variants answered is compared
// with the answers of the first variant (default node sizes, linear search, all mixins). The digest of each history is
// printed too: run.py compares it between builds (with and without safety checks, optimisation levels).
#include <algorithm>
#include <functional>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
#include "bpptree/bpptree.hpp"
#include "bpptree/indexed.hpp"
#include "bpptree/max.hpp"
#include "bpptree/min.hpp"
#include "bpptree/ordered.hpp"
#include "bpptree/summed.hpp"
#include "mon.hpp"
using namespace mon;
using namespace bpptree;

using El = std::pair<int32_t, int32_t>;
constexpr int inb(int n, int per) { return NODE_HDR + 8 + n * per; }

#ifndef EQ
#define EQ 1
#endif

enum Facet { CONTENT, KEYED, INDEXED, SUMMED, MINS, MAXS, ERRORS, NFACETS };
static char const* const facet_names[] = {"contents and positions", "keyed lookups", "indexes", "sums", "minima", "maxima", "exceptions"};

struct Out {
    uint64_t h[NFACETS] = {};
    bool has[NFACETS] = {};
    void add(Facet f, long x) { has[f] = true; h[f] = mix(h[f] + 0x9e37, static_cast<uint64_t>(x)); }
};

enum Kind {
    INSERT_V, INSERT_OR_ASSIGN, ASSIGN_V, UPDATE_KEY, ERASE_KEY,   // keyed
    INSERT_AT, ERASE_AT, ASSIGN_AT, UPDATE_AT, PROXY_AT, ERASE_REV, INSERT_REV,   // through iterators or indexes
    PUSH_BACK, PUSH_FRONT, POP_BACK, POP_FRONT, EMPLACE_BACK,
    SNAPSHOT, RESTORE, CLEAR, COPY, OBSERVE, MISUSE, NKINDS
};
static char const* const kind_names[] = {"insert_v", "insert_or_assign", "assign_v", "update_key", "erase_key", "insert at", "erase at", "assign at", "update at", "write through proxy at",
    "erase through reverse iterator", "insert through reverse iterator", "push_back", "push_front", "pop_back", "pop_front", "emplace_back", "snapshot", "restore", "clear", "copy", "observe", "misuse"};

struct Op {
    Kind kind = OBSERVE;
    El e{};
    size_t pos = 0;
    bool functional = false;
    uint64_t seed = 0;
    int32_t key_max = 0;
};

struct Subject {
    char const* name = "";
    virtual ~Subject() = default;
    virtual void apply(Op const& o, Out& out) = 0;
};

struct Opt { bool ordered, indexed, summed, hasmin, hasmax; };

template <class Tree, bool ordered, bool indexed, bool summed, bool hasmin, bool hasmax>
struct Variant final : Subject {
    using T = typename Tree::Transient;
    using P = typename Tree::Persistent;
    T t{};
    std::vector<P> snaps;

    template <class X>
    auto at(X& x, size_t p) {
        if constexpr (indexed) { return x.find_index(p); }
        else { auto it = x.begin(); for (size_t i = 0; i < p; ++i) ++it; return it; }
    }
    template <class X>
    auto cat(X const& x, size_t p) {
        if constexpr (indexed) { if (p < x.size()) return x.find_index_const(p); else return x.cend(); }
        else { auto it = x.cbegin(); for (size_t i = 0; i < p; ++i) ++it; return it; }
    }
    template <class X>
    auto rcat(X const& x, size_t p) {
        if constexpr (indexed) return x.crbegin() + static_cast<long>(p);
        else { auto it = x.crbegin(); for (size_t i = 0; i < p; ++i) ++it; return it; }
    }
    static long pack(El const& e) { return static_cast<long>(e.first) * 1000003 + e.second; }
    template <class I>
    void where(Out& out, I it) {
        long v = -1;
        if (it.valid()) { El const e = *it; v = pack(e); }
        out.add(CONTENT, v);
    }
    template <class F>
    void functional(F&& f) { P p = t.persistent(); P q = f(p); t = q.transient(); }

    template <class X>
    void observe(X const& x, Op const& o, Out& out) {
        Rng r(o.seed);
        size_t n = x.size();
        out.add(CONTENT, static_cast<long>(n));
        out.add(CONTENT, x.empty());
        for (auto const& e : x) out.add(CONTENT, pack(e));
        { long k = 0; for (auto it = x.crbegin(); it != x.crend(); ++it, ++k) out.add(CONTENT, pack(*it)); out.add(CONTENT, k); }
        if (n) { out.add(CONTENT, pack(x.front())); out.add(CONTENT, pack(x.back())); }
        for (int i = 0; i < 10; ++i) {
            auto key = static_cast<int32_t>(r.range(-3, o.key_max + 3));
            size_t p = r.below(n + 1), q = r.below(n + 1);
            if (p > q) std::swap(p, q);
            long target = r.range(0, 60) * static_cast<long>(n) / 2;
            if constexpr (ordered) {
                auto f = [&](auto it) { out.add(KEYED, it.valid() ? pack(*it) : -1); };
                f(x.find_const(key));
                f(x.lower_bound_const(key));
                f(x.upper_bound_const(key));
                out.add(KEYED, x.contains(key));
                if (x.contains(key)) out.add(KEYED, x.at_key(key));
            }
            if constexpr (indexed) {
                if (n) {
                    size_t a = p < n ? p : n - 1, b = q < n ? q : n - 1;
                    out.add(INDEXED, pack(x.at_index(a)));
                    auto ia = x.find_index_const(a), ib = x.find_index_const(b);
                    out.add(INDEXED, static_cast<long>(x.order(ia)));
                    out.add(INDEXED, ib - ia);
                    out.add(INDEXED, pack(ia[static_cast<long>(b) - static_cast<long>(a)]));
                    out.add(INDEXED, (ia < ib) + 2 * (ia <= ib) + 4 * (ia == ib));
                    out.add(INDEXED, static_cast<long>(x.order(x.cend())));
                    auto m = ib - static_cast<long>(b - a);
                    out.add(INDEXED, pack(*m));
                    auto rv = x.crbegin() + static_cast<long>(a);
                    out.add(INDEXED, pack(*rv));
                    out.add(INDEXED, static_cast<long>(x.order(rv)));
                }
            }
            if constexpr (summed) {
                out.add(SUMMED, static_cast<long>(x.sum()));
                auto b = cat(x, p);
                if (p < n) out.add(SUMMED, static_cast<long>(x.sum_inclusive(b)));
                out.add(SUMMED, static_cast<long>(x.sum_exclusive(b)));
                auto lb = x.sum_lower_bound_const(static_cast<int32_t>(target));
                out.add(SUMMED, lb.valid() ? pack(*lb) : -1);
            }
            if constexpr (hasmin) {
                if (n) { out.add(MINS, x.min()); out.add(MINS, x.min_element_const()->second); }
                if (p < q) {
                    auto b = cat(x, p), e = cat(x, q);
                    out.add(MINS, x.min(b, e));
                    auto rb = rcat(x, n - q), re = rcat(x, n - p);
                    out.add(MINS, x.min(rb, re));
                    auto me = x.min_element_const(b, e);
                    out.add(MINS, me->second);
                }
            }
            if constexpr (hasmax) {
                if (n) out.add(MAXS, x.max());
                if (p < q) { auto b = cat(x, p), e = cat(x, q); out.add(MAXS, x.max(b, e)); out.add(MAXS, x.max_element_const(b, e)->first); }
            }
        }
    }
#ifdef BPPTREE_SAFETY_CHECKS
    template <class F>
    void guard(Out& out, F&& f) {
        try { f(); out.add(ERRORS, 0); }
        catch (std::out_of_range const&) { out.add(ERRORS, 1); }
        catch (std::logic_error const&) { out.add(ERRORS, 2); }
        catch (std::exception const&) { out.add(ERRORS, 3); }
    }
    void misuse(Op const& o, Out& out) {
        Rng r(o.seed);
        // odd keys are never present
        auto absent = static_cast<int32_t>(r.range(-2, o.key_max / 2 + 2) * 2 + 1);
        (void) absent;
        if constexpr (ordered) {
            guard(out, [&] { t.assign_v(absent, 1); });
            guard(out, [&] { t.erase_key(absent); });
            guard(out, [&] { t.update_key(absent, [](int32_t v) { return v + 1; }); });
            guard(out, [&] { (void) t.at_key(absent); });
        }
        if constexpr (hasmin) {
            if (t.size()) { auto b = cat(t, o.pos); guard(out, [&] { (void) t.min(b, b); }); }
            else guard(out, [&] { (void) t.min(); });
        }
    }
#endif

    void apply(Op const& o, Out& out) override {
        El const e = o.e;
        switch (o.kind) {
            case INSERT_V: case INSERT_OR_ASSIGN: case ASSIGN_V: case UPDATE_KEY: case ERASE_KEY:
                if constexpr (ordered) {
                    auto up = [](int32_t v) { return (v * 7 + 3) % 51; };
                    switch (o.kind) {
                        case INSERT_V: if (o.functional) functional([&](P const& p) { return p.insert_v(e); }); else t.insert_v(e.first, e.second); break;
                        case INSERT_OR_ASSIGN: if (o.functional) functional([&](P const& p) { return p.insert_or_assign(e.first, e.second); }); else t.insert_or_assign(e); break;
                        case ASSIGN_V: if (o.functional) functional([&](P const& p) { return p.assign_v(e); }); else t.assign_v(e.first, e.second); break;
                        case UPDATE_KEY: if (o.functional) functional([&](P const& p) { return p.update_key(e.first, up); }); else t.update_key(e.first, up); break;
                        default: if (o.functional) functional([&](P const& p) { return p.erase_key(e.first); }); else t.erase_key(e.first);
                    }
                    auto it = t.find(e.first);
                    where(out, it);
                }
                break;
            case INSERT_AT: {
                auto nth = [&](auto it) { for (size_t i = 0; i < o.pos; ++i) ++it; return it; };
                if (o.functional) functional([&](P const& p) { return p.insert(nth(p.cbegin()), e); });
                else {
                    bool done = false;
                    if constexpr (indexed) { if (o.seed & 1) { t.insert_index(o.pos, e); done = true; } }
                    auto it = nth(t.begin());
                    if (!done) t.insert(it, e);
                    where(out, it);
                    ++it;
                    where(out, it);
                }
                break;
            }
            case ERASE_AT:
                if (o.functional) functional([&](P const& p) { return p.erase(cat(p, o.pos)); });
                else { auto it = at(t, o.pos); t.erase(it); where(out, it); }
                break;
            case ASSIGN_AT:
                if (o.functional) functional([&](P const& p) { return p.assign(cat(p, o.pos), e); });
                else { auto it = at(t, o.pos); t.assign(it, e); where(out, it); }
                break;
            case UPDATE_AT: { auto it = at(t, o.pos); t.update(it, [](El const& x) { return El(x.first, (x.second * 3 + 1) % 51); }); where(out, it); break; }
            case PROXY_AT: { auto it = at(t, o.pos); *it = e; where(out, it); break; }
            case ERASE_REV: { auto it = t.rbegin(); for (size_t i = 0; i < o.pos; ++i) ++it; t.erase(it); where(out, it); break; }
            case INSERT_REV: { auto it = t.rbegin(); for (size_t i = 0; i < o.pos; ++i) ++it; t.insert(it, e); where(out, it); break; }
            case PUSH_BACK: if (o.functional) functional([&](P const& p) { return p.push_back(e); }); else t.push_back(e); break;
            case PUSH_FRONT: if (o.functional) functional([&](P const& p) { return p.push_front(e); }); else t.push_front(e); break;
            case POP_BACK: out.add(CONTENT, pack(t.pop_back())); break;
            case POP_FRONT: out.add(CONTENT, pack(t.pop_front())); break;
            case EMPLACE_BACK: t.emplace_back(e.first, e.second); break;
            case SNAPSHOT: if (snaps.size() > 3) snaps.erase(snaps.begin()); snaps.push_back(t.persistent()); break;
            case RESTORE: if (!snaps.empty()) t = snaps[o.pos % snaps.size()].transient(); break;
            case CLEAR: t.clear(); break;
            case COPY: { T u(t); t = std::move(u); break; }
            case OBSERVE: observe(t, o, out); if (!snaps.empty()) observe(snaps[o.seed % snaps.size()], o, out); break;
#ifdef BPPTREE_SAFETY_CHECKS
            case MISUSE: misuse(o, out); break;
#endif
            default: break;
        }
        out.add(CONTENT, static_cast<long>(t.size()));
    }
};

using Make = std::unique_ptr<Subject> (*)();
struct Entry { char const* name; Make make; };
template <class V> std::unique_ptr<Subject> mk() { return std::make_unique<V>(); }

namespace var {
using O = OrderedBuilder<PairExtractor<0>>;
using OB = OrderedBuilder<PairExtractor<0>, detail::MinComparator, std::true_type>;
using I = IndexedBuilder<>;
using I32 = IndexedBuilder<int32_t>;
using S = SummedBuilder<PairExtractor<1>>;
using MN = MinBuilder<PairExtractor<1>>;
using MX = MaxBuilder<PairExtractor<0>>;
template <int L, int N, int D, class... M> using Tr = typename BppTree<El, L, N, D>::template mixins<M...>;
template <int L, int N, int D, class... M> using TrX = typename BppTree<El, L, N, D, false>::template mixins<M...>;
constexpr int L3 = NODE_HDR + 3 * 8;
// ordered trees
using MapDefault = Variant<Tr<512, 512, 6, O, I, S, MN, MX>, true, true, true, true, true>;
using MapTiny = Variant<Tr<L3, inb(4, 32), 16, O, I, S, MN, MX>, true, true, true, true, true>;
using MapTinyBin = Variant<Tr<NODE_HDR + 5 * 8, inb(5, 32), 12, OB, I, S, MN, MX>, true, true, true, true, true>;
using MapBig = Variant<Tr<4096, 512, 5, OB, I, S, MN, MX>, true, true, true, true, true>;
using MapWideNode = Variant<Tr<L3, 2048, 5, MX, MN, S, I, O>, true, true, true, true, true>;
using MapBare = Variant<Tr<NODE_HDR + 4 * 8, inb(4, 12), 14, OB>, true, false, false, false, false>;
using MapExc = Variant<TrX<100, inb(6, 32), 10, S, O, MX, I32, MN>, true, true, true, true, true>;
using MapIdx = Variant<Tr<60, inb(9, 20), 8, I, O>, true, true, false, false, false>;
using MapSumMax = Variant<Tr<NODE_HDR + 3 * 8, inb(4, 20), 16, S, MX, O>, true, false, true, false, true>;
// sequences
using SeqDefault = Variant<Tr<512, 512, 6, I, S, MN, MX>, false, true, true, true, true>;
using SeqTiny = Variant<Tr<L3, inb(4, 28), 16, MX, MN, S, I>, false, true, true, true, true>;
using SeqBig = Variant<Tr<4096, 1024, 5, S, I, MN, MX>, false, true, true, true, true>;
using SeqBare = Variant<Tr<NODE_HDR + 4 * 8, inb(4, 8), 14>, false, false, false, false, false>;
using SeqExc = Variant<TrX<NODE_HDR + 7 * 8, inb(5, 28), 10, MN, I32, MX, S>, false, true, true, true, true>;
using SeqWideNode = Variant<Tr<L3, 2048, 5, I, MN>, false, true, false, true, false>;
using SeqMax = Variant<Tr<200, inb(4, 12), 14, MX>, false, false, false, false, true>;
// the shorthands for maps and sequences, options given in different orders
using AliasMap = Variant<BppTreeMap<int32_t, int32_t>::mixins<I, S, MN, MX>, true, true, true, true, true>;
using AliasMapTiny = Variant<BppTreeMap<int32_t, int32_t>::depth_limit<13>::internal_node_bytes<inb(4, 32)>::binary_search<true>::leaf_node_bytes<L3>::mixins<MX, S, I, MN>, true, true, true, true, true>;
using AliasSeq = Variant<BppTreeVector<El>::mixins<S, MN, MX>, false, true, true, true, true>;
using AliasSeqTiny = Variant<BppTreeVector<El>::depth_limit<13>::internal_node_bytes<inb(4, 28)>::leaf_node_bytes<L3>::size_type<int32_t>::mixins<MX, S, MN>, false, true, true, true, true>;
}

#if EQ >= 10
// The order in which the options of a shorthand are given does not matter either. Trees are filled until they are full, which
// has to throw (exceptions are disabled by default in this build, and the option enables them).
struct Filled {
    size_t max_size = 0, max_depth = 0, depth = 0, n = 0, after = 0;
    uint64_t digest = 0;
    bool threw = false;
};
template <class T, class V, class = void> struct HasInsertV : std::false_type {};
template <class T, class V> struct HasInsertV<T, V, std::void_t<decltype(std::declval<T&>().insert_v(std::declval<V>()))>> : std::true_type {};
template <class V, class Tree>
Filled fill(char const* name, int how) {
    using T = typename Tree::Transient;
    T t{};
    Filled f;
    f.max_size = t.max_size();
    f.max_depth = t.max_depth();
    auto mk = [](long i) { if constexpr (std::is_same_v<V, El>) return El(static_cast<int32_t>(i), static_cast<int32_t>(i * 5 % 97)); else return static_cast<V>(i); };
    long const limit = static_cast<long>(f.max_size) + 1;
    log_op(name, limit, how);
    S().op_counts["fill until it throws"]++;
    for (long i = 0; i < limit && !f.threw; ++i) {
        S().steps++;
        // from one end, from the other one, or a permutation by the order of bits
        long x = how == 0 ? i : how == 1 ? limit - i : (i * 7919) % 100003;
        try {
            if constexpr (HasInsertV<T, V>::value) t.insert_v(mk(x));
            else if (how == 0) t.push_back(mk(x));
            else if (how == 1) t.push_front(mk(x));
            else { auto it = t.begin(); it += static_cast<long>(i / 2); t.insert(it, mk(x)); }
            f.n++;
        } catch (std::logic_error const&) { f.threw = true; }
    }
    f.depth = t.depth();
    for (V const& v : std::as_const(t)) {
        long x;
        if constexpr (std::is_same_v<V, El>) x = v.first * 1000L + v.second; else x = static_cast<long>(v);
        f.digest = mix(f.digest, static_cast<uint64_t>(x));
        f.after++;
    }
    for (size_t i = 0; i <= f.n / 2; ++i) t.pop_back();
    t.push_back(mk(limit + 200000));
    f.digest = mix(f.digest, t.size());
    ev(f.n);
    context(mix(hash_str(name), static_cast<uint64_t>(how)));
    return f;
}
template <class V, class Ref, class... Trees>
void same_limits(char const* what) {
    for (int how = 0; how < 3; ++how) {
        Filled const a = fill<V, Ref>(what, how);
        MON_CHECK(C18, a.threw && a.n == a.after, "%s: a tree whose depth is exhausted does not throw, or loses elements (%zu of %zu)", what, a.after, a.n);
        int i = 0;
        auto one = [&](Filled const& b) {
            ++i;
            MON_CHECK(C18, a.max_size == b.max_size && a.max_depth == b.max_depth, "%s: order %d of the options gives another capacity: %zu elements in %zu levels, not %zu in %zu", what, i, b.max_size, b.max_depth, a.max_size, a.max_depth);
            MON_CHECK(C18, a.threw == b.threw && a.n == b.n && a.after == b.after && a.depth == b.depth && a.digest == b.digest, "%s: order %d of the options behaves differently when the tree is full: %zu elements, threw %d", what, i, b.n, b.threw);
        };
        (one(fill<V, Trees>(what, how)), ...);
    }
}
static void limits() {
#if EQ == 10
    constexpr int L = NODE_HDR + 3 * 8, N = inb(4, 12);
    using Cmp = detail::MinComparator;
    using M0 = BppTree<El, L, N, 3, false>::mixins<OrderedBuilder<PairExtractor<0>, Cmp, std::true_type>>;
    using B = BppTreeMap<int32_t, int32_t>;
    same_limits<El, M0,
        B::disable_exceptions<false>::leaf_node_bytes<L>::internal_node_bytes<N>::depth_limit<3>::compare<Cmp>::binary_search<true>::mixins<>,
        B::binary_search<true>::disable_exceptions<false>::depth_limit<3>::internal_node_bytes<N>::compare<Cmp>::leaf_node_bytes<L>::mixins<>,
        B::leaf_node_bytes<L>::compare<Cmp>::depth_limit<3>::binary_search<true>::internal_node_bytes<N>::disable_exceptions<false>::mixins<>,
        B::internal_node_bytes<N>::depth_limit<3>::disable_exceptions<false>::compare<Cmp>::binary_search<true>::leaf_node_bytes<L>::mixins<>,
        B::disable_exceptions<false>::binary_search<true>::depth_limit<3>::leaf_node_bytes<L>::internal_node_bytes<N>::mixins<>>("BppTreeMap");
    using S0 = BppTree<int32_t, NODE_HDR + 3 * 4, inb(4, 12), 3, false>::mixins<OrderedBuilder<ValueExtractor, Cmp, std::true_type>>;
    using SB = BppTreeSet<int32_t>;
    same_limits<int32_t, S0,
        SB::disable_exceptions<false>::leaf_node_bytes<NODE_HDR + 3 * 4>::internal_node_bytes<N>::depth_limit<3>::compare<Cmp>::binary_search<true>::mixins<>,
        SB::binary_search<true>::disable_exceptions<false>::depth_limit<3>::internal_node_bytes<N>::compare<Cmp>::leaf_node_bytes<NODE_HDR + 3 * 4>::mixins<>,
        SB::leaf_node_bytes<NODE_HDR + 3 * 4>::compare<Cmp>::depth_limit<3>::binary_search<true>::internal_node_bytes<N>::disable_exceptions<false>::mixins<>,
        SB::disable_exceptions<false>::compare<Cmp>::depth_limit<3>::leaf_node_bytes<NODE_HDR + 3 * 4>::binary_search<true>::internal_node_bytes<N>::mixins<>>("BppTreeSet");
#else
    constexpr int L = NODE_HDR + 3 * 8, N = inb(4, 16);
    using V0 = BppTree<int64_t, L, N, 3, false>::mixins<IndexedBuilder<uint32_t>>;
    using B = BppTreeVector<int64_t>;
    same_limits<int64_t, V0,
        B::disable_exceptions<false>::leaf_node_bytes<L>::internal_node_bytes<N>::depth_limit<3>::size_type<uint32_t>::mixins<>,
        B::size_type<uint32_t>::disable_exceptions<false>::depth_limit<3>::internal_node_bytes<N>::leaf_node_bytes<L>::mixins<>,
        B::leaf_node_bytes<L>::depth_limit<3>::size_type<uint32_t>::internal_node_bytes<N>::disable_exceptions<false>::mixins<>,
        B::disable_exceptions<false>::size_type<uint32_t>::internal_node_bytes<N>::leaf_node_bytes<L>::depth_limit<3>::mixins<>,
        B::disable_exceptions<false>::internal_node_bytes<N>::size_type<uint32_t>::depth_limit<3>::leaf_node_bytes<L>::mixins<>>("BppTreeVector");
#endif
}
#endif

#define V(x) Entry{#x, mk<var::x>}
static const std::vector<Entry> entries = {
#if EQ == 1
    V(MapDefault), V(MapTiny), V(MapBare)
#elif EQ == 2
    V(MapDefault), V(MapTinyBin), V(MapSumMax)
#elif EQ == 3
    V(MapDefault), V(MapBig), V(MapExc)
#elif EQ == 4
    V(MapDefault), V(MapWideNode), V(MapIdx)
#elif EQ == 5
    V(SeqDefault), V(SeqTiny), V(SeqBare)
#elif EQ == 6
    V(SeqDefault), V(SeqBig), V(SeqExc), V(SeqMax)
#elif EQ == 7
    V(SeqDefault), V(SeqWideNode)
#elif EQ == 8
    V(MapDefault), V(MapTinyBin)   // with safety checks
#elif EQ == 9
    V(SeqDefault), V(SeqTiny)      // with safety checks
#elif EQ == 10
    V(AliasMap), V(AliasMapTiny)
#elif EQ == 11
    V(AliasSeq), V(AliasSeqTiny)
#endif
};
constexpr bool is_map = EQ <= 4 || EQ == 8 || EQ == 10;

struct History {
    Rng& rng;
    std::vector<std::unique_ptr<Subject>> subs;
    std::vector<El> m;
    std::vector<std::vector<El>> msnaps;
    uint64_t digest = 0;
    int32_t key_max = 0;
    explicit History(Rng& r) : rng(r) { for (Entry const& e : entries) { subs.push_back(e.make()); subs.back()->name = e.name; } }

    void run(Op const& o) {
        std::vector<Out> outs(subs.size());
        S().steps++;
        S().op_counts[kind_names[o.kind]]++;
        log_op(kind_names[o.kind], static_cast<long>(o.pos), o.e.first, o.functional);
        for (size_t i = 0; i < subs.size(); ++i) {
            log_op(kind_names[o.kind], static_cast<long>(o.pos), o.e.first, static_cast<long>(i));
            subs[i]->apply(o, outs[i]);
        }
        for (int f = 0; f < NFACETS; ++f) {
            if (o.kind != MISUSE && outs[0].has[f]) digest = mix(digest, outs[0].h[f]);
            for (size_t i = 1; i < subs.size(); ++i)
                if (outs[0].has[f] && outs[i].has[f])
                    MON_CHECK(C18, outs[0].h[f] == outs[i].h[f], "%s after %s: %s and %s answer differently (%zu elements)", facet_names[f], kind_names[o.kind], subs[0]->name, subs[i]->name, m.size());
        }
        context(mix(static_cast<uint64_t>(o.kind) * 64 + static_cast<uint64_t>(o.functional), mix(m.empty() ? 0 : static_cast<uint64_t>(63 - __builtin_clzll(m.size())), m.empty() ? 0 : o.pos * 8 / m.size()) + static_cast<uint64_t>(EQ)));
    }
    size_t lb(int32_t k) { return static_cast<size_t>(std::lower_bound(m.begin(), m.end(), El(k, -1)) - m.begin()); }
    void madd(size_t p, El e) { m.insert(m.begin() + static_cast<long>(p), e); }

    void play(long ops, size_t cap, int32_t kmax) {
        key_max = kmax;
        for (long s = 0; s < ops; ++s) {
            S().step = s;
            Op o;
            o.key_max = key_max;
            o.seed = rng.next();
            o.functional = rng.chance(1, 6);
            o.e = El(static_cast<int32_t>(rng.range(0, key_max / 2)) * 2, static_cast<int32_t>(rng.range(0, 50)));
            size_t n = m.size();
            o.pos = n ? rng.below(n) : 0;
            bool grow = n < cap && rng.chance(n < cap / 2 ? 6 : 4, 9);
            bool present = n && is_map && rng.chance(2, 3);
            if (present) o.e.first = m[o.pos].first;
            size_t p = lb(o.e.first);
            bool have = is_map && p < n && m[p].first == o.e.first;
            uint64_t c = rng.below(100);
            if (c < 6) o.kind = OBSERVE;
            else if (c < 9) { o.kind = SNAPSHOT; if (msnaps.size() > 3) msnaps.erase(msnaps.begin()); msnaps.push_back(m); }
            else if (c < 10 && !msnaps.empty() && rng.chance(1, 3)) { o.kind = RESTORE; m = msnaps[o.pos % msnaps.size()]; }
            else if (c < 11 && rng.chance(1, 12)) { o.kind = CLEAR; m.clear(); }
            else if (c < 12) o.kind = COPY;
#ifdef BPPTREE_SAFETY_CHECKS
            else if (false) {}
#endif
            else if (is_map) {
                if (grow) {
                    uint64_t w = rng.below(10);
                    if (w < 6 || n == 0) {
                        o.kind = rng.chance(1, 2) ? INSERT_V : INSERT_OR_ASSIGN;
                        if (have) { if (o.kind == INSERT_OR_ASSIGN) m[p].second = o.e.second; }
                        else madd(p, o.e);
                    } else if (w < 8) { o.e.first = m.back().first + 2; if (o.e.first > key_max) key_max = o.e.first; o.kind = rng.chance(1, 2) ? PUSH_BACK : EMPLACE_BACK; m.push_back(o.e); }
                    else { o.e.first = m.front().first - 2; o.kind = PUSH_FRONT; madd(0, o.e); }
                } else if (n) {
                    switch (rng.below(9)) {
                        case 0: o.kind = ASSIGN_V; o.e.first = m[o.pos].first; m[o.pos].second = o.e.second; break;
                        case 1: o.kind = UPDATE_KEY; o.e.first = m[o.pos].first; m[o.pos].second = (m[o.pos].second * 7 + 3) % 51; break;
                        case 2: case 3: o.kind = ERASE_KEY; o.e.first = m[o.pos].first; m.erase(m.begin() + static_cast<long>(o.pos)); break;
                        case 4: o.kind = ERASE_AT; m.erase(m.begin() + static_cast<long>(o.pos)); break;
                        case 5: o.kind = rng.chance(1, 2) ? ASSIGN_AT : PROXY_AT; o.e.first = m[o.pos].first; m[o.pos].second = o.e.second; break;
                        case 6: o.kind = UPDATE_AT; m[o.pos].second = (m[o.pos].second * 3 + 1) % 51; break;
                        case 7: o.kind = ERASE_REV; o.pos %= 6; m.erase(m.end() - 1 - static_cast<long>(o.pos)); break;
                        default: if (rng.chance(1, 2)) { o.kind = POP_BACK; m.pop_back(); } else { o.kind = POP_FRONT; m.erase(m.begin()); }
                    }
                }
            } else {
                if (grow) {
                    switch (rng.below(8)) {
                        case 0: case 1: case 2: case 3: o.kind = INSERT_AT; o.pos = rng.below(n + 1); madd(o.pos, o.e); break;
                        case 4: o.kind = rng.chance(1, 2) ? PUSH_BACK : EMPLACE_BACK; m.push_back(o.e); break;
                        case 5: o.kind = PUSH_FRONT; madd(0, o.e); break;
                        default: o.kind = INSERT_REV; o.pos = rng.below(std::min<size_t>(n + 1, 8)); madd(o.pos == 0 ? n : n - o.pos, o.e); break;
                    }
                } else if (n) {
                    switch (rng.below(7)) {
                        case 0: case 1: o.kind = ERASE_AT; m.erase(m.begin() + static_cast<long>(o.pos)); break;
                        case 2: o.kind = rng.chance(1, 2) ? ASSIGN_AT : PROXY_AT; m[o.pos] = o.e; break;
                        case 3: o.kind = UPDATE_AT; m[o.pos].second = (m[o.pos].second * 3 + 1) % 51; break;
                        case 4: o.kind = ERASE_REV; o.pos %= 6; m.erase(m.end() - 1 - static_cast<long>(o.pos)); break;
                        default: if (rng.chance(1, 2)) { o.kind = POP_BACK; m.pop_back(); } else { o.kind = POP_FRONT; m.erase(m.begin()); }
                    }
                }
            }
            run(o);
#ifdef BPPTREE_SAFETY_CHECKS
            if (!(o.seed & 15)) { Op x = o; x.kind = MISUSE; x.pos = m.empty() ? 0 : x.pos % m.size(); run(x); }
#endif
            if (cap > 1000 && (o.seed & 63) == 1) { Op x = o; x.kind = OBSERVE; run(x); }
        }
        Op x;
        x.kind = OBSERVE;
        x.key_max = key_max;
        x.seed = rng.next();
        run(x);
        S().counters["max elements"] = std::max<uint64_t>(S().counters["max elements"], m.size());
    }
};

int main(int argc, char** argv) {
    mon::init(argc, argv);
    S().cur = C18;
    episodes(is_map ? "equiv-map" : "equiv-seq", S().episodes, [&](Rng& r) {
#if EQ >= 10
        if (S().episode % 8 == 0) limits();
#endif
        History h(r);
        bool big = r.chance(1, 8);
        size_t cap = big ? 3000 : r.chance(1, 2) ? 40 : 250;
        if (big) {
            // a bulk fill first
            for (int i = 0; i < 2600; ++i) {
                Op o;
                o.kind = is_map ? INSERT_V : PUSH_BACK;
                o.e = El(static_cast<int32_t>(is_map ? (i * 7919 % 2600) * 2 : r.range(0, 50)), static_cast<int32_t>(r.range(0, 50)));
                if (is_map) h.madd(h.lb(o.e.first), o.e); else h.m.push_back(o.e);
                h.run(o);
            }
        }
        h.play(big ? 300 : 400, cap, static_cast<int32_t>(big ? 5400 : cap * 3));
        S().counters["digest " + std::to_string(S().episode)] = h.digest % 1000000007u;
        sample(std::to_string(h.m.size()) + " elements at the end on " + std::to_string(entries.size()) + " variants");
    });
    return mon::finish();
}
