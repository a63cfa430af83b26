// Randomised history driver with reference-model monitors. See DESIGN.md.
#pragma once
#include <limits>
#include <algorithm>
#include <iterator>
#include <memory>
#include <optional>
#include <variant>
#include <vector>
#include <functional>
#include "bpptree/bpptree.hpp"
#include "bpptree/ordered.hpp"
#include "bpptree/indexed.hpp"
#include "bpptree/summed.hpp"
#include "bpptree/min.hpp"
#include "bpptree/max.hpp"
#include "mon.hpp"
#include "traits.hpp"
#include "tracked.hpp"

// families of API compiled in (a check compiles what its property needs)
#ifndef ENG_KEY
#define ENG_KEY 1
#endif
#ifndef ENG_IDX
#define ENG_IDX 1
#endif
#ifndef ENG_SUM
#define ENG_SUM 1
#endif
#ifndef ENG_MM
#define ENG_MM 1
#endif
#ifndef ENG_ITER
#define ENG_ITER 1
#endif
#ifndef ENG_FUNC
#define ENG_FUNC 1
#endif
#ifndef ENG_PROXY
#define ENG_PROXY 1
#endif
#ifndef ENG_POS
#define ENG_POS 1
#endif
#ifndef ENG_ALLKINDS
#define ENG_ALLKINDS 1
#endif

namespace eng {
using namespace mon;
using bpptree::BppTree;
using bpptree::OrderedBuilder;
using bpptree::IndexedBuilder;
using bpptree::SummedBuilder;
using bpptree::MinBuilder;
using bpptree::MaxBuilder;
using bpptree::PairExtractor;
using bpptree::TupleExtractor;
using bpptree::ValueExtractor;
using bpptree::detail::MinComparator;
using bpptree::detail::MaxComparator;

struct E {
    long k, m;
    friend bool operator==(E a, E b) { return a.k == b.k && a.m == b.m; }
    friend bool operator!=(E a, E b) { return !(a == b); }
};
using Model = std::vector<E>;

enum Sel { NONE_SEL, SEL_K, SEL_M, SEL_KM };

// defaults of a configuration
struct Base {
    static constexpr bool ordered = false, indexed = false, summed = false, hasmin = false, hasmax = false;
    static constexpr bool tracked = false;       // elements are tr::Tracked
    static constexpr bool key_bracket = true;    // Ordered is listed before Indexed
    static constexpr bool desc = false;          // Ordered comparator descending
    static constexpr bool nonneg = true;         // summands never negative
    static constexpr Sel sumsel = SEL_M, minsel = SEL_M, maxsel = SEL_M;
    static constexpr bool min_flip = false, max_flip = false;
    static constexpr bool piecewise = false;     // extractors accept piecewise arguments
    static constexpr long cap = 300;             // driver keeps trees below this size
    static constexpr long thin = 0;              // some episodes start from a tree that grew this large and then lost most elements
    static constexpr long mlim = 1000;           // mapped values in [0,mlim) (or (-mlim,mlim) if !nonneg)
    static constexpr long kmax = 1000000;        // largest key domain the key type can represent
};

struct Profile {
    int pos = 10, idx = 10, key = 10, proxy = 6;      // API families for edits
    int edit = 60, func = 10, snap = 8, totrans = 4, copy = 4, drop = 4, recheck = 8, chain = 6, bystander = 4;
    int derived = 40;        // percent of steps followed by derived-query checks
    int siblings = 50;       // percent of steps after which another tree is compared
    long steps = 220;
    int bulk = 3;
    bool biglists = false;
};
inline Profile& profile() { static Profile p; return p; }
// weights follow from the property being decided
inline void set_profile() {
    Profile& p = profile();
    if (on(C10)) return;
    if (on(C11)) { p.derived = 5; p.snap = 16; p.func = 18; p.copy = 10; p.drop = 12; p.bulk = 5; p.proxy = 10; p.siblings = 10; return; }
    if (on(C01)) { p.pos = 20; p.bulk = 5; p.derived = 0; }
    else if (on(C02)) { p.key = 40; p.derived = 80; }
    else if (on(C03)) { p.snap = 20; p.recheck = 16; p.func = 20; p.totrans = 8; p.siblings = 100; p.derived = 10; }
    else if (on(C04)) { p.func = 24; p.totrans = 12; p.copy = 20; p.siblings = 90; p.derived = 20; }
    else if (on(C05)) { p.idx = 25; p.derived = 80; }
    else if (on(C06) || on(C07)) { p.derived = 85; }
    else if (on(C08)) { p.derived = 90; p.edit = 50; }
    else if (on(C09)) { p.chain = 30; p.bystander = 24; p.pos = 20; p.derived = 0; }
    else if (on(C17)) { p.proxy = 60; p.snap = 14; p.derived = 90; }
}

template <class C>
struct Engine {
    using Tr = typename C::Tr;
    using V = typename Tr::V;
    using T = typename C::Tree::Transient;
    using P = typename C::Tree::Persistent;

    static constexpr bool use_key = C::ordered && ENG_KEY;
    static constexpr bool use_idx = C::indexed && ENG_IDX;
    // with both mixins operator[] belongs to the one listed first
    static constexpr bool bkey = C::ordered && (!C::indexed || C::key_bracket);
    static constexpr bool bidx = C::indexed && !bkey;

    template <class It, class Tree> static constexpr bool rev_in = std::is_same_v<It, typename Tree::reverse_iterator> || std::is_same_v<It, typename Tree::const_reverse_iterator>;
    template <class It, class Tree> static constexpr bool const_in = std::is_same_v<It, typename Tree::const_iterator> || std::is_same_v<It, typename Tree::const_reverse_iterator>;
    template <class It> static constexpr bool rev_v = rev_in<It, T> || rev_in<It, P>;
    template <class It> static constexpr bool const_v = const_in<It, T> || const_in<It, P>;

    Rng& rng;
    long dom = 100;
    bool hot_m = false;

    // extra kinds of steps added by special monitors
    void (*hook)(Engine&) = nullptr;
    int hook_weight = 0;

    explicit Engine(Rng& r) : rng(r) {}

    template <class Tree> void check_all_one(Tag tag, Tree& t, Model const& m, char const* what) {
        check_seq(tag, t, m, what, true);
        derived(t, m, tag);
    }
    // every tree still shows exactly what its model says
    void check_all(Tag tag, char const* what) {
        for (auto& s : ts) check_all_one(tag, *s->t, s->m, what);
        for (auto& s : ps) { check_all_one(tag, *s->p, *s->m, what); check_held(*s); }
    }
    long absent_key(Model const& m) {
        for (int i = 0; i < 30; ++i) {
            long k;
            switch (rng.below(4)) {
                case 0: k = m.empty() ? 3 : m.back().k + rng.range(-1, 2); break;
                case 1: k = m.empty() ? 4 : m.front().k + rng.range(-2, 1); break;
                case 2: k = m.empty() ? 5 : m[rng.below(m.size())].k + rng.range(-1, 1); break;
                default: k = rng.range(0, dom);
            }
            if (k < 0 || k > C::kmax) continue;
            long lb = lbpos(m, k);
            if (lb < static_cast<long>(m.size()) && m[static_cast<size_t>(lb)].k == k) continue;
            return k;
        }
        return -1;
    }

    // ------------------------------------------------------------------ model helpers
    static E ev_of(V const& v) { return E{Tr::kid(v), Tr::mid(v)}; }
    static V mkv(E e) { return Tr::mk(e.k, e.m); }
    static bool kless(long a, long b) { return C::desc ? b < a : a < b; }
    static long lbpos(Model const& m, long k) {
        return std::lower_bound(m.begin(), m.end(), k, [](E const& e, long x) { return kless(e.k, x); }) - m.begin();
    }
    static long ubpos(Model const& m, long k) {
        return std::upper_bound(m.begin(), m.end(), k, [](long x, E const& e) { return kless(x, e.k); }) - m.begin();
    }
    static long sel(E e, Sel s) { return s == SEL_K ? e.k : s == SEL_M ? e.m : e.k + e.m; }
    long newm() {
        long lim = hot_m ? 4 : C::mlim;
        return C::nonneg ? rng.range(0, lim - 1) : rng.range(-(lim - 1), lim - 1);
    }
    E newelem() {
        if constexpr (!Tr::has_mapped) {
            long k = C::nonneg ? rng.range(0, std::min<long>(dom, C::mlim) - 1) : rng.range(-(std::min<long>(dom, C::mlim) - 1), std::min<long>(dom, C::mlim) - 1);
            return E{k, k};
        } else {
            return E{rng.range(0, dom - 1), newm()};
        }
    }

    // gate an oracle: report under `over` if that property is being decided, otherwise under `t`
    static Tag tg(Tag t, Tag over) { return over != NONE && on(over) ? over : t; }
    static bool want(Tag t, Tag over) { return on(t) || (over != NONE && on(over)); }

    // ------------------------------------------------------------------ oracles
    // whole contents against the model; tag decides who is refuted
    template <class Tree>
    void check_seq(Tag tag, Tree& t, Model const& m, char const* what, bool thorough = false) {
        Tree const& ct = t;
        if (tag == C01 && on(C08)) tag = C08;     // a traversal is a walk of an iterator
        S().cur = tag;
        size_t n = 0;
        for (auto it = ct.cbegin(), e = ct.cend(); it != e; ++it, ++n) {
            if (n >= m.size()) failf(tag, "%s: traversal yields more than the expected %zu elements", what, m.size());
            E g = ev_of(*it);
            if (g != m[n]) failf(tag, "%s: element %zu of %zu is (%ld,%ld), expected (%ld,%ld)", what, n, m.size(), g.k, g.m, m[n].k, m[n].m);
        }
        ev(n + 1);
        if (n != m.size()) failf(tag, "%s: traversal yields %zu elements, expected %zu", what, n, m.size());
        MON_CHECK(tag, ct.size() == n, "%s: size() is %zu with %zu elements", what, ct.size(), n);
        MON_CHECK(tag, ct.empty() == (n == 0), "%s: empty() wrong at size %zu", what, n);
        if (n) {
            MON_CHECK(tag, ev_of(ct.front()) == m.front(), "%s: front() is not the first element", what);
            MON_CHECK(tag, ev_of(ct.back()) == m.back(), "%s: back() is not the last element", what);
        }
        if (thorough || rng.chance(1, 6)) {
            size_t i = n;
            for (auto it = ct.crbegin(), e = ct.crend(); it != e; ++it) {
                if (i == 0) failf(tag, "%s: reverse traversal yields more than %zu elements", what, n);
                --i;
                E g = ev_of(*it);
                if (g != m[i]) failf(tag, "%s: reverse traversal: element %zu of %zu is (%ld,%ld), expected (%ld,%ld)", what, i, n, g.k, g.m, m[i].k, m[i].m);
            }
            ev(n);
            if (i != 0) failf(tag, "%s: reverse traversal stops %zu elements early", what, i);
        }
        if (ENG_ALLKINDS && rng.chance(1, 12)) {
            size_t i = 0;
            for (auto it = t.begin(), e = t.end(); it != e; it++, ++i) {
                if (i >= n || ev_of(it.get()) != m[i]) failf(tag, "%s: non-const traversal differs at %zu", what, i);
            }
            if (i != n) failf(tag, "%s: non-const traversal yields %zu elements, expected %zu", what, i, n);
            i = n;
            for (auto it = t.rbegin(), e = t.rend(); it != e; ++it) {
                if (i == 0 || ev_of(it.get()) != m[i - 1]) failf(tag, "%s: non-const reverse traversal differs", what);
                --i;
            }
            if (i != 0) failf(tag, "%s: non-const reverse traversal too short", what);
            size_t c = 0;
            for (V const& v : ct) {
                if (c >= n || ev_of(v) != m[c]) failf(tag, "%s: range-for differs at %zu", what, c);
                ++c;
            }
            if (c != n) failf(tag, "%s: range-for yields %zu elements, expected %zu", what, c, n);
            ev(3 * n);
        }
    }

    // positions -> const_iterators, by single steps only
    template <class Tree>
    auto walk(Tree const& t, Model const& m) {
        std::vector<typename Tree::const_iterator> its;
        its.reserve(m.size() + 1);
        auto it = t.cbegin();
        for (size_t i = 0; i < m.size(); ++i, ++it) its.push_back(it);
        its.push_back(t.cend());
        return its;
    }
    template <class Tree>
    auto rwalk(Tree const& t, Model const& m) {
        // rits[i] is at forward position i-1; rits[0] is rend
        std::vector<typename Tree::const_reverse_iterator> its;
        its.reserve(m.size() + 1);
        auto it = t.crbegin();
        for (size_t i = 0; i < m.size(); ++i, ++it) its.push_back(it);
        its.push_back(t.crend());
        std::reverse(its.begin(), its.end());
        return its;
    }
    template <class Its, class It>
    long position(Its const& its, It const& it) {
        for (size_t i = 0; i < its.size(); ++i) if (its[i] == it) return static_cast<long>(i);
        return -1;
    }

    template <class Tree, class Its>
    void check_key(Tree& t, Model const& m, Its const& its, Tag over) {
        if constexpr (use_key) {
            if (!want(C02, over)) return;
            Tag tag = tg(C02, over);
            S().cur = tag;
            Tree const& ct = t;
            int probes = m.size() <= 24 ? 16 : 12;
            for (int i = 0; i < probes; ++i) {
                long k;
                int how = static_cast<int>(rng.below(8));
                if (how < 3 && !m.empty()) k = m[rng.below(m.size())].k;
                else if (how < 5 && !m.empty()) k = m[rng.below(m.size())].k + (rng.chance(1, 2) ? 1 : -1);
                else if (how == 5) k = m.empty() || rng.chance(1, 4) ? 0 : m.back().k + rng.range(-1, 1);
                else if (how == 6) k = m.empty() ? 5 : m.front().k + rng.range(-1, 1);
                else k = rng.range(0, dom);
                if (k < 0) k = 0;
                if (k > C::kmax) k = C::kmax;
                auto key = Tr::mkkey(k);
                long lb = lbpos(m, k), ub = ubpos(m, k);
                bool has = ub > lb;
                auto eqpos = [&](auto const& it, long p) { return its[static_cast<size_t>(p)] == it && it == its[static_cast<size_t>(p)]; };
                long n = static_cast<long>(m.size());
                MON_CHECK(tag, ct.contains(key) == has, "contains(%ld) is %d at size %ld", k, !has, n);
                switch (rng.below(4)) {
                    case 0: {
                        auto a = t.find(key); auto b = t.lower_bound(key); auto c = t.upper_bound(key);
                        MON_CHECK(tag, eqpos(a, has ? lb : n), "find(%ld) wrong position (present %d, expected %ld of %ld)", k, has, has ? lb : n, n);
                        MON_CHECK(tag, eqpos(b, lb), "lower_bound(%ld) wrong position (expected %ld of %ld)", k, lb, n);
                        MON_CHECK(tag, eqpos(c, ub), "upper_bound(%ld) wrong position (expected %ld of %ld)", k, ub, n);
                        if (has) MON_CHECK(tag, ev_of(a.get()) == m[static_cast<size_t>(lb)], "find(%ld) denotes another element", k);
                        if (lb < n) MON_CHECK(tag, ev_of(*b.operator->()) == m[static_cast<size_t>(lb)], "lower_bound(%ld) denotes another element", k);
                        if (ub < n) MON_CHECK(tag, ev_of(c.get()) == m[static_cast<size_t>(ub)], "upper_bound(%ld) denotes another element", k);
                        MON_CHECK(tag, a.valid() == has && b.valid() == (lb < n) && c.valid() == (ub < n), "valid() of a keyed lookup result is wrong");
                        break;
                    }
                    case 1: {
                        auto a = ct.find(key); auto b = ct.lower_bound(key); auto c = ct.upper_bound(key);
                        MON_CHECK(tag, eqpos(a, has ? lb : n), "const find(%ld) wrong position", k);
                        MON_CHECK(tag, eqpos(b, lb), "const lower_bound(%ld) wrong position", k);
                        MON_CHECK(tag, eqpos(c, ub), "const upper_bound(%ld) wrong position", k);
                        if (ub < n) MON_CHECK(tag, ev_of(*c) == m[static_cast<size_t>(ub)], "const upper_bound(%ld) denotes another element", k);
                        if (lb < n) MON_CHECK(tag, ev_of(*b) == m[static_cast<size_t>(lb)], "const lower_bound(%ld) denotes another element", k);
                        break;
                    }
                    case 2: {
                        auto a = t.find_const(key); auto b = t.lower_bound_const(key); auto c = t.upper_bound_const(key);
                        MON_CHECK(tag, eqpos(a, has ? lb : n), "find_const(%ld) wrong position", k);
                        MON_CHECK(tag, eqpos(b, lb), "lower_bound_const(%ld) wrong position", k);
                        MON_CHECK(tag, eqpos(c, ub), "upper_bound_const(%ld) wrong position", k);
                        // the result must work as an iterator: step to the neighbours
                        if (ub < n) { auto d = c; ++d; MON_CHECK(tag, eqpos(d, ub + 1), "++upper_bound_const(%ld)", k); }
                        if (lb > 0) { auto d = b; --d; MON_CHECK(tag, eqpos(d, lb - 1) && ev_of(*d) == m[static_cast<size_t>(lb - 1)], "--lower_bound_const(%ld)", k); }
                        break;
                    }
                    default:
                        if (has) {
                            E e = m[static_cast<size_t>(lb)];
                            MON_CHECK(tag, tr_mid(ct.at_key(key)) == e.m, "at_key(%ld) returns another value", k);
                            if constexpr (bkey) MON_CHECK(tag, tr_mid(ct[key]) == e.m, "const operator[](%ld) returns another value", k);
                            if constexpr (std::is_same_v<Tree, T> && ENG_PROXY) {
                                if constexpr (bkey) {
                                    MON_CHECK(tag, tr_mid(t[key].get()) == e.m, "operator[](%ld) reads another value", k);
                                }
                            }
                        }
                }
            }
        }
    }
    template <class X> static long tr_mid(X const& x) { return tr::Conv<X>::id(x); }

    template <class Tree, class Its>
    void check_index(Tree& t, Model const& m, Its const& its, Tag over) {
        if constexpr (use_idx) {
            if (!want(C05, over)) return;
            Tag tag = tg(C05, over);
            S().cur = tag;
            using Sz = std::decay_t<decltype(t.order(its[0]))>;
            Tree const& ct = t;
            size_t n = m.size();
            size_t probes = n <= 48 ? n : 32;
            for (size_t i = 0; i < probes; ++i) {
                size_t p = n <= 48 ? i : i == 0 ? 0 : i == 1 ? n - 1 : rng.below(n);
                Sz sp = static_cast<Sz>(p);
                MON_CHECK(tag, ev_of(ct.at_index(sp)) == m[p], "at_index(%zu) of %zu is another element", p, n);
                MON_CHECK(tag, static_cast<size_t>(ct.order(its[p])) == p, "order(iterator at %zu) of %zu is %ld", p, n, static_cast<long>(ct.order(its[p])));
                switch (rng.below(4)) {
                    case 0: { auto it = t.find_index(sp); MON_CHECK(tag, its[p] == it && ev_of(it.get()) == m[p], "find_index(%zu) of %zu wrong", p, n);
                              if (p + 1 < n) { ++it; MON_CHECK(tag, its[p + 1] == it && ev_of(it.get()) == m[p + 1], "++find_index(%zu) of %zu wrong", p, n); } break; }
                    case 1: { auto it = ct.find_index(sp); MON_CHECK(tag, its[p] == it && ev_of(*it) == m[p], "const find_index(%zu) of %zu wrong", p, n);
                              if (p > 0) { --it; MON_CHECK(tag, its[p - 1] == it && ev_of(*it) == m[p - 1], "--find_index(%zu) of %zu wrong", p, n); } break; }
                    case 2: { auto it = t.find_index_const(sp); MON_CHECK(tag, its[p] == it && ev_of(*it) == m[p], "find_index_const(%zu) of %zu wrong", p, n); break; }
                    default:
                        if constexpr (bidx) {
                            MON_CHECK(tag, ev_of(ct[sp]) == m[p], "const operator[](%zu) of %zu is another element", p, n);
                            if constexpr (std::is_same_v<Tree, T> && ENG_PROXY) MON_CHECK(tag, ev_of(t[sp].get()) == m[p], "operator[](%zu) of %zu is another element", p, n);
                        }
                }
            }
            MON_CHECK(tag, static_cast<size_t>(ct.order(ct.cend())) == n, "order(end()) is %ld at size %zu", static_cast<long>(ct.order(ct.cend())), n);
            for (int i = 0; i < 4; ++i) {
                size_t a = rng.below(n + 1), b = rng.below(n + 1);
                long d = static_cast<long>(its[a] - its[b]);
                MON_CHECK(tag, d == static_cast<long>(a) - static_cast<long>(b), "difference of iterators at %zu and %zu is %ld", a, b, d);
            }
            if (rng.chance(1, 3)) {
                auto rits = rwalk(ct, m);
                for (int i = 0; i < 4; ++i) {
                    size_t a = rng.below(n + 1), b = rng.below(n + 1);
                    long d = static_cast<long>(rits[a] - rits[b]);
                    MON_CHECK(tag, d == static_cast<long>(b) - static_cast<long>(a), "difference of reverse iterators at %zu and %zu (of %zu) is %ld", a, b, n, d);
                    if (a > 0) MON_CHECK(tag, static_cast<size_t>(ct.order(rits[a])) == a - 1, "order(reverse iterator at %zu) is %ld", a - 1, static_cast<long>(ct.order(rits[a])));
                }
                auto r = t.rbegin();
                if (n) MON_CHECK(tag, static_cast<size_t>(t.order(r)) == n - 1, "order(rbegin()) is not the last index");
            }
        }
    }

    template <class Tree, class Its>
    void check_sum(Tree& t, Model const& m, Its const& its, Tag over) {
        if constexpr (C::summed && ENG_SUM) {
            if (!want(C06, over)) return;
            Tag tag = tg(C06, over);
            S().cur = tag;
            Tree const& ct = t;
            using Sm = std::decay_t<decltype(ct.sum())>;
            size_t n = m.size();
            std::vector<long> pre(n + 1, 0);
            for (size_t i = 0; i < n; ++i) pre[i + 1] = pre[i] + sel(m[i], C::sumsel);
            auto same = [](Sm a, long b) { return a == static_cast<Sm>(b); };
            MON_CHECK(tag, same(ct.sum(), pre[n]), "sum() is %ld, expected %ld (size %zu)", static_cast<long>(ct.sum()), pre[n], n);
            size_t probes = n <= 40 ? n + 1 : 28;
            for (size_t i = 0; i < probes; ++i) {
                size_t p = n <= 40 ? i : i == 0 ? 0 : i == 1 ? n : i == 2 ? n - 1 : rng.below(n + 1);
                MON_CHECK(tag, same(ct.sum_exclusive(its[p]), pre[p]), "sum_exclusive at %zu of %zu is %ld, expected %ld", p, n, static_cast<long>(ct.sum_exclusive(its[p])), pre[p]);
                if (p < n) MON_CHECK(tag, same(ct.sum_inclusive(its[p]), pre[p + 1]), "sum_inclusive at %zu of %zu is %ld, expected %ld", p, n, static_cast<long>(ct.sum_inclusive(its[p])), pre[p + 1]);
            }
            if (n && rng.chance(1, 2)) {
                // non-const and reverse iterators
                auto it = t.begin();
                MON_CHECK(tag, same(t.sum_inclusive(it), pre[1]), "sum_inclusive(begin())");
                auto r = ct.crbegin();
                MON_CHECK(tag, same(ct.sum_inclusive(r), pre[n]) && same(ct.sum_exclusive(r), pre[n - 1]), "sums at rbegin()");
            }
            if constexpr (C::nonneg) {
                for (int i = 0; i < 8; ++i) {
                    long target;
                    switch (rng.below(6)) {
                        case 0: target = 0; break;
                        case 1: target = pre[n]; break;
                        case 2: target = pre[n] + 1; break;
                        case 3: target = pre[rng.below(n + 1)] + 1; break;
                        case 4: target = pre[rng.below(n + 1)]; break;
                        default: target = static_cast<long>(rng.below(static_cast<uint64_t>(pre[n]) + 2));
                    }
                    long exp = static_cast<long>(std::lower_bound(pre.begin() + 1, pre.end(), target) - (pre.begin() + 1));
                    Sm tt = static_cast<Sm>(target);
                    bool okp;
                    switch (rng.below(3)) {
                        case 0: { auto it = t.sum_lower_bound(tt); okp = its[static_cast<size_t>(exp)] == it && (exp == static_cast<long>(n) ? !it.valid() : ev_of(it.get()) == m[static_cast<size_t>(exp)]); break; }
                        case 1: { auto it = ct.sum_lower_bound(tt); okp = its[static_cast<size_t>(exp)] == it && (exp == static_cast<long>(n) ? !it.valid() : ev_of(*it) == m[static_cast<size_t>(exp)]); break; }
                        default: { auto it = t.sum_lower_bound_const(tt); okp = its[static_cast<size_t>(exp)] == it && (exp == static_cast<long>(n) ? !it.valid() : ev_of(*it) == m[static_cast<size_t>(exp)]);
                                   if (exp > 0) { --it; okp = okp && ev_of(*it) == m[static_cast<size_t>(exp - 1)]; } }
                    }
                    MON_CHECK(tag, okp, "sum_lower_bound(%ld) is not position %ld of %zu", target, exp, n);
                }
            }
        }
    }

    template <bool is_min, class Tree, class Its, class RIts>
    void check_mm(Tree& t, Model const& m, Its const& its, RIts const* rits, Tag tag) {
        if constexpr (ENG_MM && ((is_min && C::hasmin) || (!is_min && C::hasmax))) {
            Tree const& ct = t;
            size_t n = m.size();
            constexpr Sel s = is_min ? C::minsel : C::maxsel;
            constexpr bool least = is_min ? !C::min_flip : C::max_flip;
            char const* nm = is_min ? "min" : "max";
            auto scan = [&](size_t b, size_t e) {
                long r = sel(m[b], s);
                for (size_t i = b + 1; i < e; ++i) { long x = sel(m[i], s); r = least ? std::min(r, x) : std::max(r, x); }
                return r;
            };
            auto valid_el = [&](auto const& it, size_t b, size_t e, long exp) {
                for (size_t i = b; i < e; ++i) if (sel(m[i], s) == exp && its[i] == it) return ev_of(it.get()) == m[i];
                return false;
            };
            auto val0 = [&]() { if constexpr (is_min) return tr_mid(ct.min()); else return tr_mid(ct.max()); };
            auto valr = [&](auto const& b, auto const& e) { if constexpr (is_min) return tr_mid(ct.min(b, e)); else return tr_mid(ct.max(b, e)); };
            auto el0 = [&](auto& x) { if constexpr (is_min) return x.min_element(); else return x.max_element(); };
            auto el0c = [&](auto& x) { if constexpr (is_min) return x.min_element_const(); else return x.max_element_const(); };
            auto elr = [&](auto& x, auto const& b, auto const& e) { if constexpr (is_min) return x.min_element(b, e); else return x.max_element(b, e); };
            auto elrc = [&](auto& x, auto const& b, auto const& e) { if constexpr (is_min) return x.min_element_const(b, e); else return x.max_element_const(b, e); };
            long whole = scan(0, n);
            MON_CHECK(tag, val0() == whole, "%s() is %ld, expected %ld (size %zu)", nm, val0(), whole, n);
            bool okw;
            switch (rng.below(3)) {
                case 0: okw = valid_el(el0(t), 0, n, whole); break;
                case 1: okw = valid_el(el0(ct), 0, n, whole); break;
                default: okw = valid_el(el0c(t), 0, n, whole);
            }
            MON_CHECK(tag, okw, "%s_element() does not denote an element with key %ld (size %zu)", nm, whole, n);
            int probes = n <= 24 ? 10 : 8;
            for (int i = 0; i < probes; ++i) {
                size_t b = rng.below(n), e;
                switch (rng.below(5)) {
                    case 0: e = std::min<size_t>(n, b + 1 + rng.below(3)); break;
                    case 1: e = n; break;
                    case 2: b = 0; e = 1 + rng.below(n); break;
                    default: e = b + 1 + rng.below(n - b);
                }
                long exp = scan(b, e);
                if (rits && rng.chance(1, 2)) {
                    MON_CHECK(tag, valr((*rits)[e], (*rits)[b]) == exp, "%s over reverse range [%zu,%zu) of %zu: not %ld", nm, b, e, n, exp);
                    auto r = rng.chance(1, 2) ? elrc(t, (*rits)[e], (*rits)[b]) : elr(ct, (*rits)[e], (*rits)[b]);
                    MON_CHECK(tag, valid_el(r, b, e, exp), "%s_element over reverse range [%zu,%zu) of %zu wrong", nm, b, e, n);
                    continue;
                }
                MON_CHECK(tag, valr(its[b], its[e]) == exp, "%s over [%zu,%zu) of %zu is %ld, expected %ld", nm, b, e, n, valr(its[b], its[e]), exp);
                bool ok;
                switch (rng.below(3)) {
                    case 0: ok = valid_el(elr(t, its[b], its[e]), b, e, exp); break;
                    case 1: ok = valid_el(elr(ct, its[b], its[e]), b, e, exp); break;
                    default: ok = valid_el(elrc(t, its[b], its[e]), b, e, exp);
                }
                MON_CHECK(tag, ok, "%s_element over [%zu,%zu) of %zu does not denote an element with key %ld", nm, b, e, n, exp);
            }
        }
    }

    template <class Tree, class Its>
    void check_minmax(Tree& t, Model const& m, Its const& its, Tag over) {
        if constexpr ((C::hasmin || C::hasmax) && ENG_MM) {
            if (!want(C07, over) || m.empty()) return;
            Tag tag = tg(C07, over);
            S().cur = tag;
            if (rng.chance(1, 3)) {
                auto rits = rwalk(static_cast<Tree const&>(t), m);
                check_mm<true>(t, m, its, &rits, tag);
                check_mm<false>(t, m, its, &rits, tag);
            } else {
                using R = std::vector<typename Tree::const_reverse_iterator>;
                check_mm<true>(t, m, its, static_cast<R const*>(nullptr), tag);
                check_mm<false>(t, m, its, static_cast<R const*>(nullptr), tag);
            }
        }
    }

    // C08: one iterator kind, positions in its own traversal direction: 0 = first, n = end
    template <class It, class MkB, class MkE>
    void iter_walk(Model const& m, MkB mkb, MkE mke, Tag tag, char const* kind) {
        constexpr bool rev = rev_v<It>;
        long n = static_cast<long>(m.size());
        auto elem = [&](long p) { return m[static_cast<size_t>(rev ? n - 1 - p : p)]; };
        auto at = [&](long p) {
            It it = rng.chance(1, 2) ? mkb() : mke();
            long cur = 0;
            if (it == mke()) cur = n;
            it += p - cur;
            return it;
        };
        auto check = [&](It const& it, long p, char const* what) {
            if (p < n) {
                MON_CHECK(tag, it.valid(), "%s iterator invalid at %ld of %ld after %s", kind, p, n, what);
                E g = ev_of(it.get());
                MON_CHECK(tag, g == elem(p), "%s iterator at %ld of %ld after %s reads (%ld,%ld)", kind, p, n, what, g.k, g.m);
                MON_CHECK(tag, ev_of(*it.operator->()) == elem(p), "%s iterator -> at %ld", kind, p);
            } else {
                MON_CHECK(tag, !it.valid() && it == mke(), "%s iterator not at its end after %s (size %ld)", kind, what, n);
            }
        };
        long p = rng.range(0, n);
        It it = at(p);
        check(it, p, "positioning");
        for (int s = 0; s < 10; ++s) {
            long q = rng.chance(1, 4) ? (rng.chance(1, 2) ? n : 0) : rng.range(0, n);
            if (rng.chance(1, 2)) { q = p + rng.range(-4, 4); if (q < 0) q = 0; if (q > n) q = n; }
            char const* what = "?";
            switch (rng.below(8)) {
                case 0: if (p < n) { ++it; ++p; what = "++it"; } break;
                case 1: if (p > 0) { --it; --p; what = "--it"; } break;
                case 2: if (p < n) { It old = it++; check(old, p, "it++ (old)"); ++p; what = "it++"; } break;
                case 3: if (p > 0) { It old = it--; check(old, p, "it-- (old)"); --p; what = "it--"; } break;
                case 4: it += q - p; p = q; what = "+="; break;
                case 5: it -= p - q; p = q; what = "-="; break;
                case 6: { It x = it + (q - p); check(x, q, "+"); check(it, p, "+ (operand)"); it = x; p = q; what = "+"; break; }
                default: { It x = it - (p - q); check(x, q, "-"); it = x; p = q; what = "-"; }
            }
            check(it, p, what);
            if (n > 0 && p < n) {
                long d = rng.range(0, n - 1) - p;
                MON_CHECK(tag, ev_of(it[d]) == elem(p + d), "%s it[%ld] at %ld of %ld", kind, d, p, n);
            }
            long o = rng.chance(1, 3) ? p : rng.range(0, n);
            It other = at(o);
            bool ok = (it == other) == (p == o) && (it != other) == (p != o) && (it < other) == (p < o) && (it > other) == (p > o)
                      && (it <= other) == (p <= o) && (it >= other) == (p >= o) && !(it < it) && (it <= it) && (it >= it);
            MON_CHECK(tag, ok, "%s iterators at %ld and %ld of %ld compare wrongly", kind, p, o, n);
        }
        if (n > 0 && rng.chance(1, 3)) {
            It x = at(rng.range(0, n));
            long far = n + 1 + rng.range(0, 3 * n + 10);
            switch (rng.below(8)) {
                case 0: far = std::numeric_limits<long>::max() - rng.range(0, 3); break;
                case 1: far = (1L << rng.range(14, 62)) + n + rng.range(0, 3); break;
                case 2: case 3:   // little is left of it in a narrower type
                    far = (rng.range(1, 3) << rng.range(8, 60)) + rng.range(0, n / 2 + 2);
                    if (far <= n) far += n + 1;
                    break;
                default: break;
            }
            if (rng.chance(1, 3)) x -= -far; else if (rng.chance(1, 2)) x = x + far; else x += far;
            MON_CHECK(tag, x == mke() && !x.valid(), "%s iterator moved past the end does not equal it", kind);
            ++x;
            MON_CHECK(tag, x == mke(), "%s iterator incremented at its end leaves it", kind);
            if (n) { long b = rng.range(1, n); x -= b; check(x, n - b, "moving back from beyond the end"); }
        }
    }

    template <class Tree>
    void check_iters(Tree& t, Model const& m, Tag over) {
        if constexpr (ENG_ITER) {
            if (!want(C08, over)) return;
            Tag tag = tg(C08, over);
            S().cur = tag;
            Tree const& ct = t;
            switch (rng.below(4)) {
                case 0: iter_walk<typename Tree::iterator>(m, [&] { return t.begin(); }, [&] { return t.end(); }, tag, "forward"); break;
                case 1: iter_walk<typename Tree::const_iterator>(m, [&] { return ct.begin(); }, [&] { return t.cend(); }, tag, "const forward"); break;
                case 2: iter_walk<typename Tree::reverse_iterator>(m, [&] { return t.rbegin(); }, [&] { return t.rend(); }, tag, "reverse"); break;
                default: iter_walk<typename Tree::const_reverse_iterator>(m, [&] { return ct.rbegin(); }, [&] { return t.crend(); }, tag, "const reverse");
            }
            // mixed const/non-const comparisons
            auto a = t.begin(); auto b = ct.begin();
            MON_CHECK(tag, a == b && b == a && !(a < b) && !(b < a) && (a <= b), "begin() and const begin() differ");
            auto ra = t.rend(); auto rb = ct.rend();
            MON_CHECK(tag, ra == rb && rb == ra && !(ra < rb) && !(ra != rb), "rend() and const rend() differ");
            if (m.size() > 1) { ++b; MON_CHECK(tag, a < b && b > a && a != b && !(b <= a), "begin() not less than begin()+1"); }
        }
    }

    // derived queries of every mixin
    template <class Tree>
    void derived(Tree& t, Model const& m, Tag over = NONE) {
        bool need = (use_key && want(C02, over)) || (use_idx && want(C05, over)) || (C::summed && want(C06, over)) || ((C::hasmin || C::hasmax) && want(C07, over));
        if (need) {
            auto its = walk(static_cast<Tree const&>(t), m);
            check_key(t, m, its, over);
            check_index(t, m, its, over);
            check_sum(t, m, its, over);
            check_minmax(t, m, its, over);
        }
        check_iters(t, m, over);
    }

    template <class Tree>
    void full(Tag tag, Tree& t, Model const& m, char const* what) {
        check_seq(tag, t, m, what, true);
        derived(t, m, tag);
        MON_CHECK(tag, t.depth() >= 1 && t.depth() <= t.max_depth(), "%s: depth() %zu outside [1,max_depth()]", what, t.depth());
    }

    // ------------------------------------------------------------------ slots
    using AnyIt = std::variant<typename T::iterator, typename T::const_iterator, typename T::reverse_iterator, typename T::const_reverse_iterator>;
    struct By { AnyIt it; long pos; };   // pos: forward element position; n for end, -1 for rend
    struct TS {
        std::unique_ptr<T> t;
        Model m;
        std::vector<By> by;
        bool shared = false;
        int order = 0;
    };
    struct PS {
        std::unique_ptr<P> p;
        std::shared_ptr<Model const> m;
        std::vector<std::pair<typename P::const_iterator, long>> its;
        std::vector<std::pair<typename P::const_reverse_iterator, long>> rits;
        std::vector<std::pair<V const*, long>> refs;
    };
    std::vector<std::unique_ptr<TS>> ts;
    std::vector<std::unique_ptr<PS>> ps;

    void hold(PS& s) {
        long n = static_cast<long>(s.m->size());
        if (!on(C03) && !on(C10)) return;
        P const& p = *s.p;
        for (int i = 0; i < 3; ++i) {
            long pos = rng.range(0, n);
            auto it = p.cbegin();
            it += pos;
            s.its.emplace_back(it, pos);
            if (pos < n) s.refs.emplace_back(&*it, pos);
        }
        if (n) {
            auto r = p.crbegin();
            long d = rng.range(0, n - 1);
            r += d;
            s.rits.emplace_back(r, n - 1 - d);
            s.refs.emplace_back(&p.front(), 0);
            s.refs.emplace_back(&p.back(), n - 1);
        }
    }
    void check_held(PS& s) {
        if (!on(C03) && !on(C10)) return;
        long n = static_cast<long>(s.m->size());
        Model const& m = *s.m;
        S().cur = C03;
        for (auto& h : s.refs) MON_CHECK(C03, ev_of(*h.first) == m[static_cast<size_t>(h.second)], "reference into a Persistent changed (position %ld of %ld)", h.second, n);
        for (auto& h : s.its) {
            if (h.second == n) { MON_CHECK(C03, h.first == s.p->cend(), "held end() of a Persistent moved"); continue; }
            MON_CHECK(C03, ev_of(*h.first) == m[static_cast<size_t>(h.second)], "iterator into a Persistent reads another element (position %ld of %ld)", h.second, n);
            auto c = h.first;
            ++c;
            if (h.second + 1 < n) MON_CHECK(C03, ev_of(*c) == m[static_cast<size_t>(h.second + 1)], "step of an iterator into a Persistent reads another element");
            else MON_CHECK(C03, c == s.p->cend(), "step of a held iterator misses end()");
        }
        for (auto& h : s.rits) MON_CHECK(C03, ev_of(*h.first) == m[static_cast<size_t>(h.second)], "reverse iterator into a Persistent reads another element");
    }

    PS& add_p(P&& p, Model const& m) {
        auto s = std::make_unique<PS>();
        s->p = std::make_unique<P>(std::move(p));
        s->m = std::make_shared<Model const>(m);
        if (ps.size() >= 10) ps.erase(ps.begin() + static_cast<long>(rng.below(ps.size())));
        ps.push_back(std::move(s));
        hold(*ps.back());
        return *ps.back();
    }
    TS& add_t(T&& t, Model const& m, bool shared) {
        auto s = std::make_unique<TS>();
        s->t = std::make_unique<T>(std::move(t));
        s->m = m;
        s->shared = shared;
        if (ts.size() >= 4) ts.erase(ts.begin() + static_cast<long>(rng.below(ts.size())));
        ts.push_back(std::move(s));
        return *ts.back();
    }

    void ctx(char const* op, T const& t, size_t n, long pos, bool shared) {
        S().op_counts[op]++;
        uint64_t bucket = 0;
        for (size_t x = n; x; x >>= 1) ++bucket;
        uint64_t pc = pos < 0 ? 9 : pos == 0 ? 0 : static_cast<size_t>(pos) + 1 >= n ? 1 : 2;
        context(mix(hash_str(op), t.depth() * 1000 + bucket * 20 + pc * 2 + (shared ? 1 : 0)));
    }

    // ------------------------------------------------------------------ edits
    enum Kind { INS, ERA, SET };
    struct Edit { Kind kind; long pos; E e; };

    int posmode = 0;      // 0 random 1 front 2 back 3 cluster 4 ends
    long cluster = 0;

    long pickpos(long n_incl) {
        if (n_incl <= 0) return 0;
        switch (posmode) {
            case 1: return rng.chance(9, 10) ? 0 : rng.range(0, n_incl);
            case 2: return rng.chance(9, 10) ? n_incl : rng.range(0, n_incl);
            case 3: { cluster += rng.range(-2, 2); if (cluster < 0) cluster = 0; if (cluster > n_incl) cluster = n_incl; return cluster; }
            case 4: return rng.chance(1, 2) ? 0 : n_incl;
            default: return rng.range(0, n_incl);
        }
    }

    // chooses an edit that keeps an ordered tree ordered; false if there is none
    bool choose(Model const& m, Kind kind, Edit& out) {
        long n = static_cast<long>(m.size());
        out.kind = kind;
        if (kind == INS) {
            if constexpr (C::ordered) {
                for (int tries = 0; tries < 12; ++tries) {
                    long k;
                    long p = pickpos(n);
                    long lo = p > 0 ? m[static_cast<size_t>(p - 1)].k : (C::desc ? dom + 1 : -1);
                    long hi = p < n ? m[static_cast<size_t>(p)].k : (C::desc ? -1 : dom + 1);
                    if (C::desc) std::swap(lo, hi);
                    if (posmode != 0 && hi - lo >= 2) k = (posmode == 2 ? (C::desc ? hi - 1 - static_cast<long>(rng.below(2)) : lo + 1 + static_cast<long>(rng.below(2))) : rng.range(lo + 1, hi - 1));
                    else k = rng.range(0, dom);
                    if (k < 0) k = 0;
                    long lb = lbpos(m, k);
                    if (lb < n && m[static_cast<size_t>(lb)].k == k) continue;
                    out.pos = lb;
                    out.e = Tr::has_mapped ? E{k, newm()} : E{k, k};
                    return true;
                }
                return false;
            } else {
                out.pos = pickpos(n);
                out.e = newelem();
                return true;
            }
        }
        if (n == 0) return false;
        out.pos = pickpos(n - 1);
        if (kind == SET) {
            out.e = newelem();
            if constexpr (C::ordered) {
                out.e.k = m[static_cast<size_t>(out.pos)].k;
                if (!Tr::has_mapped) out.e.m = out.e.k;
            }
        } else {
            out.e = m[static_cast<size_t>(out.pos)];
        }
        return true;
    }
    static void apply(Model& m, Edit const& ed) {
        if (ed.kind == INS) m.insert(m.begin() + ed.pos, ed.e);
        else if (ed.kind == ERA) m.erase(m.begin() + ed.pos);
        else m[static_cast<size_t>(ed.pos)] = ed.e;
    }

    // an iterator of kind It at forward position p (n: end, -1: rend)
    template <class It, class Tree>
    It iter_at(Tree& t, Model const& m, long p) {
        long n = static_cast<long>(m.size());
        if constexpr (rev_v<It>) {
            auto b = [&] { if constexpr (const_v<It>) return t.crbegin(); else return t.rbegin(); };
            auto e = [&] { if constexpr (const_v<It>) return t.crend(); else return t.rend(); };
            if (p < 0) return e();
            if (rng.chance(1, 2)) { It it = b(); it += n - 1 - p; return it; }
            It it = e();
            it -= p + 1;
            return it;
        } else {
            auto b = [&] { if constexpr (const_v<It>) return t.cbegin(); else return t.begin(); };
            auto e = [&] { if constexpr (const_v<It>) return t.cend(); else return t.end(); };
            if (p == n) return e();
            int how = static_cast<int>(rng.below(4));
            if (how == 0 && p < 40) { It it = b(); for (long i = 0; i < p; ++i) ++it; return it; }
            if (how == 1) { It it = e(); it -= n - p; return it; }
            if constexpr (use_idx) {
                if (how == 2) {
                    using Sz = std::decay_t<decltype(t.order(t.cend()))>;
                    if constexpr (std::is_same_v<It, decltype(t.find_index(Sz{}))>) return t.find_index(static_cast<Sz>(p));
                    else return t.find_index_const(static_cast<Sz>(p));
                }
            }
            if constexpr (use_key) {
                if (how == 3) {
                    auto key = Tr::mkkey(m[static_cast<size_t>(p)].k);
                    if constexpr (std::is_same_v<It, decltype(t.find(key))>) return t.find(key);
                    else return t.lower_bound_const(key);
                }
            }
            It it = b();
            it += p;
            return it;
        }
    }

    // where an iterator must be after the edit it was used for
    template <class It>
    void check_pos(T& t, Model const& m, It const& it, long p, char const* what) {
        if (!on(C09)) return;
        S().cur = C09;
        long n = static_cast<long>(m.size());
        T const& ct = t;
        if constexpr (rev_v<It>) {
            if (p < 0) {
                MON_CHECK(C09, it == t.rend() && !it.valid(), "%s: reverse iterator is not at rend() (size %ld)", what, n);
                if (n) { It c = it; --c; MON_CHECK(C09, ev_of(c.get()) == m[0], "%s: --rend() reads another element", what); }
                return;
            }
            MON_CHECK(C09, it.valid(), "%s: reverse iterator invalid, expected position %ld of %ld", what, p, n);
            E g = ev_of(it.get());
            MON_CHECK(C09, g == m[static_cast<size_t>(p)], "%s: reverse iterator reads (%ld,%ld), expected position %ld of %ld", what, g.k, g.m, p, n);
            auto ref = ct.crbegin();
            for (long i = n - 1; i > p; --i) ++ref;
            MON_CHECK(C09, it == ref, "%s: reverse iterator is not at position %ld of %ld", what, p, n);
            It c = it;
            ++c;
            if (p > 0) MON_CHECK(C09, ev_of(c.get()) == m[static_cast<size_t>(p - 1)], "%s: next in reverse reads another element", what);
            else MON_CHECK(C09, c == t.rend(), "%s: next in reverse is not rend()", what);
        } else {
            auto ref = ct.cbegin();
            for (long i = 0; i < p; ++i) ++ref;
            if (p == n) {
                MON_CHECK(C09, it == t.end() && !it.valid(), "%s: iterator is not at end() (size %ld)", what, n);
                if (n) { It c = it; --c; MON_CHECK(C09, ev_of(c.get()) == m[static_cast<size_t>(n - 1)], "%s: --end() reads another element", what); }
                return;
            }
            MON_CHECK(C09, it.valid(), "%s: iterator invalid, expected position %ld of %ld", what, p, n);
            E g = ev_of(it.get());
            MON_CHECK(C09, g == m[static_cast<size_t>(p)], "%s: iterator reads (%ld,%ld), expected position %ld of %ld", what, g.k, g.m, p, n);
            MON_CHECK(C09, it == ref, "%s: iterator is not at position %ld of %ld", what, p, n);
            It c = it;
            ++c;
            if (p + 1 < n) MON_CHECK(C09, ev_of(c.get()) == m[static_cast<size_t>(p + 1)], "%s: next element wrong", what);
            else MON_CHECK(C09, c == t.end(), "%s: next is not end()", what);
            if (p > 0) { It d = it; --d; MON_CHECK(C09, ev_of(d.get()) == m[static_cast<size_t>(p - 1)], "%s: previous element wrong", what); }
        }
    }

    template <class Tree> static constexpr bool is_t = std::is_same_v<std::remove_const_t<Tree>, T>;

    // calls f(args...) with the element in one of the argument forms the tree accepts
    template <class F>
    decltype(auto) with_args(E e, F&& f) {
        int form = static_cast<int>(rng.below(Tr::has_mapped ? (C::piecewise && Tr::is_pair ? 4 : 3) : 2));
        if constexpr (Tr::has_mapped) {
            if (form == 2) return Tr::call2(f, e.k, e.m);
            if constexpr (Tr::is_pair && C::piecewise) {
                if (form == 3) {
                    auto a = Tr::first(e.k, e.m);
                    auto b = Tr::second(e.k, e.m);
                    return f(std::piecewise_construct, std::forward_as_tuple(a), std::forward_as_tuple(b));
                }
            }
        }
        if (form == 0) { V v = mkv(e); return f(v); }
        return f(mkv(e));
    }

    template <class It>
    void pos_edit_t(TS& s, Edit const& ed, char const*& op) {
        T& t = *s.t;
        constexpr bool rev = rev_v<It>;
        if (ed.kind == INS) {
            It it = iter_at<It>(t, s.m, rev ? ed.pos - 1 : ed.pos);
            if (rng.chance(1, 5)) {
                op = "insert(rvalue it)";
                log_op(op, ed.pos, ed.e.k, rev);
                with_args(ed.e, [&](auto&&... a) { t.insert(It(it), std::forward<decltype(a)>(a)...); });
                apply(s.m, ed);
            } else {
                op = rev ? "insert(reverse it)" : "insert(it)";
                log_op(op, ed.pos, ed.e.k, ed.e.m);
                with_args(ed.e, [&](auto&&... a) { t.insert(it, std::forward<decltype(a)>(a)...); });
                apply(s.m, ed);
                check_pos(t, s.m, it, ed.pos, op);
            }
        } else if (ed.kind == ERA) {
            It it = iter_at<It>(t, s.m, ed.pos);
            if (rng.chance(1, 5)) {
                op = "erase(rvalue it)";
                log_op(op, ed.pos, 0, rev);
                t.erase(It(it));
                apply(s.m, ed);
            } else {
                op = rev ? "erase(reverse it)" : "erase(it)";
                log_op(op, ed.pos);
                t.erase(it);
                apply(s.m, ed);
                check_pos(t, s.m, it, rev ? ed.pos - 1 : ed.pos, op);
            }
        } else {
            It it = iter_at<It>(t, s.m, ed.pos);
            if (rng.chance(1, 2)) {
                op = "assign(it)";
                log_op(op, ed.pos, ed.e.k, ed.e.m);
                with_args(ed.e, [&](auto&&... a) { t.assign(it, std::forward<decltype(a)>(a)...); });
            } else {
                op = "update(it)";
                log_op(op, ed.pos, ed.e.k, ed.e.m);
                E old = s.m[static_cast<size_t>(ed.pos)];
                E seen{-1, -1};
                int calls = 0;
                t.update(it, [&](V const& v) {
                    seen = ev_of(v);
                    ++calls;
                    if (peek(s) && on(C09)) MON_CHECK(C09, it.valid() && ev_of(it.get()) == old, "the iterator given to update reads another element within the updater");
                    return mkv(ed.e);
                });
                MON_CHECK(C01, calls == 1 && seen == old, "update(it): updater called %d times with (%ld,%ld)", calls, seen.k, seen.m);
            }
            apply(s.m, ed);
            check_pos(t, s.m, it, ed.pos, op);
        }
    }

    // in-place edit through one of the API families; returns the tag of the family
    Tag edit_t(TS& s, Edit const& ed) {
        T& t = *s.t;
        Profile const& pf = profile();
        long n = static_cast<long>(s.m.size());
        int wpos = ENG_POS ? pf.pos : 0, widx = use_idx ? pf.idx : 0, wkey = use_key ? pf.key : 0;
        int wprox = ENG_PROXY && ed.kind == SET ? pf.proxy : 0;
        if (use_key && ENG_PROXY && ed.kind == INS) wprox = pf.proxy / 2;
        if (wpos + widx + wkey + wprox == 0) wpos = 1;
        long r = rng.range(0, wpos + widx + wkey + wprox - 1);
        char const* op = "?";
        bool shared = s.shared;
        long pos = ed.pos;
        Tag tag = C01;
        if (r < wpos) {
            S().cur = C01;
            bool atf = ed.pos == 0, atb = ed.kind == INS ? ed.pos == n : ed.pos == n - 1;
            if (ed.kind == INS && (atf || atb) && rng.chance(1, 2)) {
                bool front = atf && (!atb || rng.chance(1, 2));
                bool emp = rng.chance(1, 2);
                op = front ? (emp ? "emplace_front" : "push_front") : (emp ? "emplace_back" : "push_back");
                log_op(op, ed.e.k, ed.e.m);
                with_args(ed.e, [&](auto&&... a) {
                    if (front) { if (emp) t.emplace_front(std::forward<decltype(a)>(a)...); else t.push_front(std::forward<decltype(a)>(a)...); }
                    else { if (emp) t.emplace_back(std::forward<decltype(a)>(a)...); else t.push_back(std::forward<decltype(a)>(a)...); }
                });
                apply(s.m, ed);
            } else if (ed.kind == ERA && (atf || atb) && rng.chance(1, 2)) {
                bool front = atf && (!atb || rng.chance(1, 2));
                op = front ? "pop_front" : "pop_back";
                log_op(op);
                E got = ev_of(front ? t.pop_front() : t.pop_back());
                MON_CHECK(C01, got == ed.e, "%s returned (%ld,%ld), expected (%ld,%ld)", op, got.k, got.m, ed.e.k, ed.e.m);
                apply(s.m, ed);
            } else {
                switch (ENG_ALLKINDS ? rng.below(6) : rng.below(3)) {
                    case 0: case 1: pos_edit_t<typename T::iterator>(s, ed, op); break;
                    case 2: pos_edit_t<typename T::const_iterator>(s, ed, op); break;
#if ENG_ALLKINDS
                    case 3: pos_edit_t<typename T::const_reverse_iterator>(s, ed, op); break;
                    default: pos_edit_t<typename T::reverse_iterator>(s, ed, op); break;
#endif
                }
            }
        } else if (r < wpos + widx) {
            tag = C05;
            S().cur = C05;
            if constexpr (use_idx) {
                using Sz = std::decay_t<decltype(t.order(t.cend()))>;
                Sz i = static_cast<Sz>(ed.pos);
                if (ed.kind == INS) {
                    op = "insert_index";
                    log_op(op, ed.pos, ed.e.k, ed.e.m);
                    with_args(ed.e, [&](auto&&... a) { t.insert_index(i, std::forward<decltype(a)>(a)...); });
                } else if (ed.kind == ERA) {
                    op = "erase_index";
                    log_op(op, ed.pos);
                    t.erase_index(i);
                } else if (rng.chance(1, 2)) {
                    op = "assign_index";
                    log_op(op, ed.pos, ed.e.k, ed.e.m);
                    with_args(ed.e, [&](auto&&... a) { t.assign_index(i, std::forward<decltype(a)>(a)...); });
                } else {
                    op = "update_index";
                    log_op(op, ed.pos, ed.e.k, ed.e.m);
                    E seen{-1, -1};
                    t.update_index(i, [&](V const& v) { seen = ev_of(v); peek(s); return mkv(ed.e); });
                    MON_CHECK(C05, seen == s.m[static_cast<size_t>(ed.pos)], "update_index(%ld) passes another element to the updater", ed.pos);
                }
                apply(s.m, ed);
            }
        } else if (r < wpos + widx + wkey) {
            tag = C02;
            S().cur = C02;
            if constexpr (use_key) key_edit_t(s, ed, op);
        } else {
            tag = C17;
            S().cur = C17;
#if ENG_PROXY
            proxy_edit(s, ed, op);
#endif
        }
        ctx(op, t, s.m.size(), pos, shared);
        return tag;
    }

    void key_edit_t(TS& s, Edit const& ed, char const*& op) {
        if constexpr (use_key) {
            T& t = *s.t;
            auto key = Tr::mkkey(ed.e.k);
            if (ed.kind == INS) {
                if (rng.chance(1, 2)) {
                    op = "insert_v";
                    log_op(op, ed.e.k, ed.e.m);
                    with_args(ed.e, [&](auto&&... a) { t.insert_v(std::forward<decltype(a)>(a)...); });
                } else {
                    op = "insert_or_assign(new)";
                    log_op(op, ed.e.k, ed.e.m);
                    with_args(ed.e, [&](auto&&... a) { t.insert_or_assign(std::forward<decltype(a)>(a)...); });
                }
                apply(s.m, ed);
            } else if (ed.kind == ERA) {
                op = "erase_key";
                log_op(op, ed.e.k);
                t.erase_key(key);
                apply(s.m, ed);
            } else {
                switch (rng.below(4)) {
                    case 0:
                        op = "assign_v";
                        log_op(op, ed.e.k, ed.e.m);
                        with_args(ed.e, [&](auto&&... a) { t.assign_v(std::forward<decltype(a)>(a)...); });
                        apply(s.m, ed);
                        break;
                    case 1:
                        op = "insert_or_assign(present)";
                        log_op(op, ed.e.k, ed.e.m);
                        with_args(ed.e, [&](auto&&... a) { t.insert_or_assign(std::forward<decltype(a)>(a)...); });
                        apply(s.m, ed);
                        break;
                    case 2: {
                        op = "update_key";
                        log_op(op, ed.e.k, ed.e.m);
                        long seen = -1;
                        t.update_key(key, [&](auto const& v) { seen = tr_mid(v); peek(s); return Tr::mkm(ed.e.m); });
                        MON_CHECK(C02, seen == s.m[static_cast<size_t>(ed.pos)].m, "update_key(%ld) passes another value to the updater", ed.e.k);
                        apply(s.m, ed);
                        break;
                    }
                    default:
                        op = "insert_v(present)";
                        log_op(op, ed.e.k, ed.e.m);
                        with_args(ed.e, [&](auto&&... a) { t.insert_v(std::forward<decltype(a)>(a)...); });
                        // ignored
                }
            }
        }
    }

#if ENG_PROXY
    // writes through *it, tree[i], tree[k]
    void proxy_edit(TS& s, Edit const& ed, char const*& op) {
        T& t = *s.t;
        if (ed.kind == INS) {
            if constexpr (use_key && bkey) {
                op = "tree[key]= (new)";
                log_op(op, ed.e.k, ed.e.m);
                auto key = Tr::mkkey(ed.e.k);
                if constexpr (Tr::has_mapped) {
                    if (rng.chance(1, 2)) t[key] = Tr::mkm(ed.e.m);
                    else t[key] = mkv(ed.e);
                } else {
                    t[key] = mkv(ed.e);
                }
                apply(s.m, ed);
                return;
            }
            op = "push via it";
            auto it = iter_at<typename T::iterator>(t, s.m, ed.pos);
            t.insert(it, mkv(ed.e));
            apply(s.m, ed);
            return;
        }
        int which = static_cast<int>(rng.below(3));
        if constexpr (use_key && bkey) {
            if (which == 1) {
                auto key = Tr::mkkey(ed.e.k);
                op = "tree[key]=";
                log_op(op, ed.e.k, ed.e.m);
                if constexpr (Tr::has_mapped) {
                    switch (rng.below(4)) {
                        case 0: t[key] = Tr::mkm(ed.e.m); break;
                        case 1: { V v = mkv(ed.e); t[key] = v; break; }
                        case 2: { V const v = mkv(ed.e); t[key] = v; break; }
                        default: t[key] = mkv(ed.e);
                    }
                } else {
                    t[key] = mkv(ed.e);
                }
                apply(s.m, ed);
                return;
            }
        }
        if constexpr (use_idx && bidx) {
            if (which == 2) {
                using Sz = std::decay_t<decltype(t.order(t.cend()))>;
                Sz i = static_cast<Sz>(ed.pos);
                op = "tree[index]=";
                log_op(op, ed.pos, ed.e.k, ed.e.m);
                t[i] = mkv(ed.e);
                apply(s.m, ed);
                return;
            }
        }
        op = "*it=";
        log_op(op, ed.pos, ed.e.k, ed.e.m);
        if (ENG_ALLKINDS && rng.chance(1, 3)) {
            auto it = iter_at<typename T::reverse_iterator>(t, s.m, ed.pos);
            *it = mkv(ed.e);
            apply(s.m, ed);
            check_pos(t, s.m, it, ed.pos, op);
        } else {
            auto it = iter_at<typename T::iterator>(t, s.m, ed.pos);
            if (rng.chance(1, 2)) { V v = mkv(ed.e); *it = v; } else *it = mkv(ed.e);
            apply(s.m, ed);
            check_pos(t, s.m, it, ed.pos, op);
        }
    }
#endif

    // functional edit of a Persistent
    template <class It>
    P pos_edit_p(P& p, Model const& m, Edit const& ed, char const*& op) {
        constexpr bool rev = rev_v<It>;
        if (ed.kind == INS) {
            It it = iter_at<It>(p, m, rev ? ed.pos - 1 : ed.pos);
            op = rev ? "P.insert(reverse it)" : "P.insert(it)";
            log_op(op, ed.pos, ed.e.k, ed.e.m);
            return with_args(ed.e, [&](auto&&... a) { return p.insert(it, std::forward<decltype(a)>(a)...); });
        }
        It it = iter_at<It>(p, m, ed.pos);
        if (ed.kind == ERA) { op = "P.erase(it)"; log_op(op, ed.pos, rev); return p.erase(it); }
        if (rng.chance(1, 2)) {
            op = "P.assign(it)";
            log_op(op, ed.pos, ed.e.k, ed.e.m);
            return with_args(ed.e, [&](auto&&... a) { return p.assign(it, std::forward<decltype(a)>(a)...); });
        }
        op = "P.update(it)";
        log_op(op, ed.pos, ed.e.k, ed.e.m);
        return p.update(it, [&](V const&) { return mkv(ed.e); });
    }

    P edit_p(P& p, Model const& m, Edit& ed, Tag& tag, char const*& op) {
        Profile const& pf = profile();
        long n = static_cast<long>(m.size());
        int wpos = ENG_POS ? pf.pos : 0, widx = use_idx ? pf.idx : 0, wkey = use_key ? pf.key : 0;
        if (wpos + widx + wkey == 0) wpos = 1;
        long r = rng.range(0, wpos + widx + wkey - 1);
        P const& cp = p;
        if (r < wpos) {
            tag = C01;
            S().cur = C01;
            bool atf = ed.pos == 0, atb = ed.kind == INS ? ed.pos == n : ed.pos == n - 1;
            if (ed.kind == INS && (atf || atb) && rng.chance(1, 2)) {
                bool front = atf && (!atb || rng.chance(1, 2));
                bool emp = rng.chance(1, 2);
                op = front ? (emp ? "P.emplace_front" : "P.push_front") : (emp ? "P.emplace_back" : "P.push_back");
                log_op(op, ed.e.k, ed.e.m);
                return with_args(ed.e, [&](auto&&... a) {
                    if (front) return emp ? cp.emplace_front(std::forward<decltype(a)>(a)...) : cp.push_front(std::forward<decltype(a)>(a)...);
                    return emp ? cp.emplace_back(std::forward<decltype(a)>(a)...) : cp.push_back(std::forward<decltype(a)>(a)...);
                });
            }
            if (ed.kind == ERA && (atf || atb) && rng.chance(1, 2)) {
                bool front = atf && (!atb || rng.chance(1, 2));
                op = front ? "P.pop_front" : "P.pop_back";
                log_op(op);
                return front ? cp.pop_front() : cp.pop_back();
            }
            switch (ENG_ALLKINDS ? rng.below(5) : rng.below(2)) {
                case 0: return pos_edit_p<typename P::iterator>(p, m, ed, op);
                case 1: return pos_edit_p<typename P::const_iterator>(p, m, ed, op);
#if ENG_ALLKINDS
                case 2: return pos_edit_p<typename P::const_reverse_iterator>(p, m, ed, op);
                case 3: return pos_edit_p<typename P::reverse_iterator>(p, m, ed, op);
#endif
                default: return pos_edit_p<typename P::const_iterator>(p, m, ed, op);
            }
        }
        if (r < wpos + widx) {
            tag = C05;
            S().cur = C05;
            if constexpr (use_idx) {
                using Sz = std::decay_t<decltype(p.order(p.cend()))>;
                Sz i = static_cast<Sz>(ed.pos);
                if (ed.kind == INS) { op = "P.insert_index"; log_op(op, ed.pos, ed.e.k); return with_args(ed.e, [&](auto&&... a) { return cp.insert_index(i, std::forward<decltype(a)>(a)...); }); }
                if (ed.kind == ERA) { op = "P.erase_index"; log_op(op, ed.pos); return cp.erase_index(i); }
                if (rng.chance(1, 2)) { op = "P.assign_index"; log_op(op, ed.pos, ed.e.k); return with_args(ed.e, [&](auto&&... a) { return cp.assign_index(i, std::forward<decltype(a)>(a)...); }); }
                op = "P.update_index";
                log_op(op, ed.pos, ed.e.k);
                return cp.update_index(i, [&](V const&) { return mkv(ed.e); });
            }
        }
        tag = C02;
        S().cur = C02;
        if constexpr (use_key) {
            auto key = Tr::mkkey(ed.e.k);
            if (ed.kind == INS) {
                if (rng.chance(1, 2)) { op = "P.insert_v"; log_op(op, ed.e.k); return with_args(ed.e, [&](auto&&... a) { return cp.insert_v(std::forward<decltype(a)>(a)...); }); }
                op = "P.insert_or_assign(new)";
                log_op(op, ed.e.k);
                return with_args(ed.e, [&](auto&&... a) { return cp.insert_or_assign(std::forward<decltype(a)>(a)...); });
            }
            if (ed.kind == ERA) { op = "P.erase_key"; log_op(op, ed.e.k); return cp.erase_key(key); }
            switch (rng.below(4)) {
                case 0: op = "P.assign_v"; log_op(op, ed.e.k, ed.e.m); return with_args(ed.e, [&](auto&&... a) { return cp.assign_v(std::forward<decltype(a)>(a)...); });
                case 1: op = "P.insert_or_assign(present)"; log_op(op, ed.e.k, ed.e.m); return with_args(ed.e, [&](auto&&... a) { return cp.insert_or_assign(std::forward<decltype(a)>(a)...); });
                case 2: op = "P.update_key"; log_op(op, ed.e.k, ed.e.m); return cp.update_key(key, [&](auto const&) { return Tr::mkm(ed.e.m); });
                default: {
                    op = "P.insert_v(present)";
                    log_op(op, ed.e.k, ed.e.m);
                    E e = ed.e;
                    ed.e = m[static_cast<size_t>(ed.pos)];
                    return with_args(e, [&](auto&&... a) { return cp.insert_v(std::forward<decltype(a)>(a)...); });
                }
            }
        }
        return p;
    }

    // C09: several edits through the same iterator
    template <class It>
    void chain(TS& s) {
        T& t = *s.t;
        constexpr bool rev = rev_v<It>;
        long n = static_cast<long>(s.m.size());
        long p = rev ? rng.range(-1, n - 1) : rng.range(0, n);
        It it = iter_at<It>(t, s.m, p);
        int k = static_cast<int>(rng.range(2, 14));
        int bias = static_cast<int>(rng.below(3));
        for (int i = 0; i < k; ++i) {
            n = static_cast<long>(s.m.size());
            bool on_el = p >= 0 && p < n;
            int what = static_cast<int>(rng.below(10));
            bool ins = bias == 0 ? what < 7 : bias == 1 ? what < 2 : what < 4;
            bool era = !ins && (bias == 0 ? what < 8 : bias == 1 ? what < 9 : what < 8);
            if (ins && (t.depth() >= t.max_depth() || n >= C::cap)) { ins = false; era = true; }
            if (ins) {
                long at = rev ? p + 1 : p;      // forward insertion position
                E e = newelem();
                if constexpr (C::ordered) {
                    long lo = at > 0 ? s.m[static_cast<size_t>(at - 1)].k : (C::desc ? dom + 1 : -1);
                    long hi = at < n ? s.m[static_cast<size_t>(at)].k : (C::desc ? -1 : dom + 1);
                    if (C::desc) std::swap(lo, hi);
                    if (hi - lo < 2) continue;
                    e.k = rng.range(lo + 1, hi - 1);
                    if (!Tr::has_mapped) e.m = e.k;
                }
                log_op(rev ? "chain.insert(reverse)" : "chain.insert", at, e.k, e.m);
                with_args(e, [&](auto&&... a) { t.insert(it, std::forward<decltype(a)>(a)...); });
                s.m.insert(s.m.begin() + at, e);
                p = at;
                ctx(rev ? "chain.insert(reverse)" : "chain.insert", t, s.m.size(), at, s.shared);
            } else if (era && on_el) {
                log_op(rev ? "chain.erase(reverse)" : "chain.erase", p);
                t.erase(it);
                s.m.erase(s.m.begin() + p);
                ctx(rev ? "chain.erase(reverse)" : "chain.erase", t, s.m.size() + 1, p, s.shared);
                if (rev) --p;
            } else if (rev ? p > -1 : p < n) {
                log_op("chain.step", p);
                ++it;
                p += rev ? -1 : 1;
            }
            check_pos(t, s.m, it, p, "chained edit");
            if (rng.chance(1, 4)) { take_snapshot(s); }
            S().steps++;
        }
        s.by.clear();
        check_seq(tg(C01, C09), t, s.m, "after chained edits through one iterator");
    }

    void take_snapshot(TS& s) {
        log_op("persistent()", static_cast<long>(s.m.size()));
        S().cur = C04;
        PS& p = add_p(static_cast<T const&>(*s.t).persistent(), s.m);
        s.shared = true;
        ctx("persistent()", *s.t, s.m.size(), 0, true);
        if (rng.chance(1, 3)) {
            check_seq(C04, *p.p, *p.m, "fresh snapshot");
        }
    }

    void check_bystanders(TS& s, char const* what) {
        for (auto& b : s.by) {
            std::visit([&](auto const& it) { check_pos(*s.t, s.m, it, b.pos, what); }, b.it);
        }
    }

    // an updater may read the tree and its iterators: nothing has changed yet
    bool peek(TS& s) {
        if (!rng.chance(1, 3)) return false;
        log_op("read within an updater");
        check_bystanders(s, "iterator read within an updater");
        T const& ct = *s.t;
        size_t n = s.m.size();
        MON_CHECK(S().cur, ct.size() == n && ev_of(ct.front()) == s.m.front() && ev_of(ct.back()) == s.m.back(), "size(), front() or back() is wrong within an updater");
        if (rng.chance(1, 4)) check_seq(C01, *s.t, s.m, "within an updater");
        return true;
    }

    void add_bystander(TS& s) {
        if (!on(C09) && !on(C10)) return;
        long n = static_cast<long>(s.m.size());
        if (s.by.size() >= 6) s.by.erase(s.by.begin());
        log_op("keep iterator");
        switch (rng.below(4)) {
            case 0: { long p = rng.range(0, n); s.by.push_back(By{iter_at<typename T::iterator>(*s.t, s.m, p), p}); break; }
            case 1: { long p = rng.range(0, n); s.by.push_back(By{iter_at<typename T::const_iterator>(*s.t, s.m, p), p}); break; }
            case 2: { long p = rng.range(-1, n - 1); s.by.push_back(By{iter_at<typename T::reverse_iterator>(*s.t, s.m, p), p}); break; }
            default: { long p = rng.range(-1, n - 1); s.by.push_back(By{iter_at<typename T::const_reverse_iterator>(*s.t, s.m, p), p}); }
        }
    }

    Kind pick_kind(long n, T const& t, int bias, long cap) {
        bool full = t.depth() >= t.max_depth() || n >= cap;
        long r = rng.range(0, 99);
        if (r < 20 && n > 0) return SET;
        bool ins = rng.range(0, 99) < bias;
        if (ins && !full) return INS;
        if (n == 0) return full ? SET : INS;
        return ERA;
    }

    void siblings(TS* skip) {
        // somebody else must be unaffected
        if (!ps.empty() && rng.chance(1, 2)) {
            PS& s = *ps[rng.below(ps.size())];
            S().cur = C03;
            check_seq(on(C03) ? C03 : C04, *s.p, *s.m, "Persistent after edits of other trees");
            check_held(s);
        } else if (ts.size() > 1) {
            TS& s = *ts[rng.below(ts.size())];
            if (&s == skip) return;
            check_seq(C04, *s.t, s.m, "Transient after edits of other trees");
        }
    }

    void bulk(TS& s) {
        T& t = *s.t;
        long n = static_cast<long>(s.m.size());
        s.by.clear();
        int what = static_cast<int>(rng.below(7));
        Tag tag = C01;
        S().cur = C01;
        if (what <= 2 && n < C::cap) {
            // grow at one end or in random places
            long add = rng.range(4, C::cap - n < 8 ? 8 : (C::cap - n));
            log_op(what == 0 ? "bulk append" : what == 1 ? "bulk prepend" : "bulk random insert", add);
            int save = posmode;
            posmode = what == 0 ? 2 : what == 1 ? 1 : 0;
            for (long i = 0; i < add && t.depth() < t.max_depth(); ++i) {
                Edit ed;
                if (!choose(s.m, INS, ed)) break;
                if (use_key && profile().key > 0 && what == 2) {
                    if constexpr (use_key) { t.insert_v(mkv(ed.e)); tag = C02; S().cur = C02; }
                }
                else if (ed.pos == 0 && what == 1) t.push_front(mkv(ed.e));
                else if (ed.pos == static_cast<long>(s.m.size())) t.push_back(mkv(ed.e));
                else { auto it = iter_at<typename T::iterator>(t, s.m, ed.pos); t.insert(it, mkv(ed.e)); }
                apply(s.m, ed);
                S().steps++;
            }
            posmode = save;
        } else if (what == 3) {
            log_op("clear", n);
            t.clear();
            s.m.clear();
            MON_CHECK(tg(C01, C21), t.depth() == 1 && t.empty(), "clear() leaves depth %zu", t.depth());
        } else if (n > 0) {
            long del = rng.chance(1, 3) ? n : rng.range(1, n);
            log_op(what == 4 ? "bulk pop_front" : what == 5 ? "bulk pop_back" : "bulk random erase", del);
            for (long i = 0; i < del; ++i) {
                if (what == 4) { E g = ev_of(t.pop_front()); MON_CHECK(C01, g == s.m.front(), "pop_front returned another element"); s.m.erase(s.m.begin()); }
                else if (what == 5) { E g = ev_of(t.pop_back()); MON_CHECK(C01, g == s.m.back(), "pop_back returned another element"); s.m.pop_back(); }
                else {
                    long p = rng.range(0, static_cast<long>(s.m.size()) - 1);
                    auto it = iter_at<typename T::iterator>(t, s.m, p);
                    t.erase(it);
                    s.m.erase(s.m.begin() + p);
                }
                S().steps++;
            }
        }
        ctx("bulk", t, s.m.size(), what, s.shared);
        check_seq(tag, t, s.m, "after a bulk operation");
        derived(t, s.m);
    }

    void copy_move() {
        // copies, moves and assignments of both kinds
        S().cur = C04;
        int what = static_cast<int>(rng.below(12));
        if (what <= 4 && !ts.empty()) {
            size_t i = rng.below(ts.size());
            TS& a = *ts[i];
            Model m = a.m;
            switch (what) {
                case 0: {
                    log_op("T copy", static_cast<long>(m.size()));
                    T const& ca = *a.t;
                    T c(ca);
                    a.shared = true;
                    TS& b = add_t(std::move(c), m, true);
                    full_c04(*b.t, b.m, "copy of a Transient");
                    break;
                }
                case 1: {
                    log_op("T copy (non-const source)", static_cast<long>(m.size()));
                    T c(*a.t);
                    a.shared = true;
                    TS& b = add_t(std::move(c), m, true);
                    full_c04(*b.t, b.m, "copy of a Transient");
                    break;
                }
                case 2: {
                    TS& b = *ts[rng.below(ts.size())];
                    log_op("T = T", static_cast<long>(m.size()), static_cast<long>(b.m.size()));
                    b.by.clear();
                    T const& ca = *a.t;
                    *b.t = ca;
                    b.m = m;
                    a.shared = b.shared = true;
                    full_c04(*b.t, b.m, "assigned Transient");
                    break;
                }
                case 3: {
                    log_op("T move construct", static_cast<long>(m.size()));
                    a.by.clear();
                    a.t = std::make_unique<T>(std::move(*a.t));
                    full_c04(*a.t, a.m, "moved Transient");
                    break;
                }
                default: {
                    if (ts.size() < 2) return;
                    size_t j = (i + 1) % ts.size();
                    TS& b = *ts[j];
                    log_op("T = move(T)", static_cast<long>(m.size()));
                    b.by.clear();
                    *b.t = std::move(*a.t);
                    b.m = m;
                    b.shared = a.shared;
                    ts.erase(ts.begin() + static_cast<long>(i));
                    for (auto& s : ts) if (s->m.size() == m.size()) full_c04(*s->t, s->m, "move-assigned Transient");
                }
            }
            S().op_counts["copy/move Transient"]++;
        } else if (what <= 9 && !ps.empty()) {
            size_t i = rng.below(ps.size());
            PS& a = *ps[i];
            switch (what) {
                case 5: { log_op("P copy"); P const& ca = *a.p; P c(ca); Model m = *a.m; PS& b = add_p(std::move(c), m); full_c04(*b.p, *b.m, "copy of a Persistent"); break; }
                case 6: { log_op("P copy (non-const source)"); P c(*a.p); Model m = *a.m; PS& b = add_p(std::move(c), m); full_c04(*b.p, *b.m, "copy of a Persistent"); break; }
                case 7: {
                    PS& b = *ps[rng.below(ps.size())];
                    log_op("P = P");
                    b.its.clear(); b.refs.clear(); b.rits.clear();
                    P const& ca = *a.p;
                    *b.p = ca;
                    b.m = a.m;
                    hold(b);
                    full_c04(*b.p, *b.m, "assigned Persistent");
                    break;
                }
                case 8: {
                    log_op("P move construct");
                    a.its.clear(); a.refs.clear(); a.rits.clear();
                    a.p = std::make_unique<P>(std::move(*a.p));
                    hold(a);
                    full_c04(*a.p, *a.m, "moved Persistent");
                    break;
                }
                default: {
                    if (ps.size() < 2) return;
                    PS& b = *ps[(i + 1) % ps.size()];
                    log_op("P = move(P)");
                    b.its.clear(); b.refs.clear(); b.rits.clear();
                    *b.p = std::move(*a.p);
                    b.m = a.m;
                    hold(b);
                    full_c04(*b.p, *b.m, "move-assigned Persistent");
                    ps.erase(ps.begin() + static_cast<long>(i));
                }
            }
            S().op_counts["copy/move Persistent"]++;
        } else if (what == 10 && !ts.empty()) {
            size_t i = rng.below(ts.size());
            Model m = ts[i]->m;
            log_op("move(T).persistent()", static_cast<long>(m.size()));
            ts[i]->by.clear();
            PS& p = add_p(std::move(*ts[i]->t).persistent(), m);
            ts.erase(ts.begin() + static_cast<long>(i));
            full_c04(*p.p, *p.m, "persistent() of an rvalue");
            S().op_counts["rvalue persistent()"]++;
        } else if (!ps.empty()) {
            size_t i = rng.below(ps.size());
            Model m = *ps[i]->m;
            log_op("move(P).transient()", static_cast<long>(m.size()));
            ps[i]->its.clear(); ps[i]->refs.clear(); ps[i]->rits.clear();
            TS& t = add_t(std::move(*ps[i]->p).transient(), m, true);
            ps.erase(ps.begin() + static_cast<long>(i));
            full_c04(*t.t, t.m, "transient() of an rvalue");
            S().op_counts["rvalue transient()"]++;
        }
    }
    template <class Tree> void full_c04(Tree& t, Model const& m, char const* what) {
        if (on(C04)) full(C04, t, m, what);
        else check_seq(C04, t, m, what);
    }

    // C11: the live elements are exactly those reachable from the trees
    void quiesce() {
        if constexpr (C::tracked) {
            if (!on(C11)) return;
            S().cur = C11;
            std::unordered_set<void const*> seen;
            auto add = [&](V const& v) {
                if constexpr (Tr::has_mapped) { C::tracked_of(v).alive("reachable"); seen.insert(&C::tracked_of(v)); }
                else { v.alive("reachable"); seen.insert(&v); }
            };
            size_t trees = 0, n = 0;
            for (auto& s : ts) { T const& t = *s->t; for (V const& v : t) add(v); ++trees; n = t.size(); }
            for (auto& s : ps) { P const& t = *s->p; for (V const& v : t) add(v); ++trees; n = t.size(); }
            if (trees == 1) MON_CHECK(C11, seen.size() == n, "a lone tree of %zu elements reaches %zu objects", n, seen.size());
            long live = C::live();
            MON_CHECK(C11, static_cast<long>(seen.size()) == live, "%ld elements are alive but %zu are reachable from the %zu trees", live, seen.size(), trees);
            S().counters["max live elements"] = std::max<uint64_t>(S().counters["max live elements"], static_cast<uint64_t>(live));
            S().counters["quiescent points checked"]++;
        }
    }

    // as deep as it gets, but with few elements left
    void thin_start(TS& s, long keep) {
        T& t = *s.t;
        // inserting in the middle makes the tree deepest
        size_t depth = t.max_depth() - (rng.chance(1, 2) ? 1 : 0);
        log_op("deep start", static_cast<long>(depth), keep);
        S().cur = C01;
        while (t.depth() < depth && static_cast<long>(s.m.size()) < C::thin) {
            long sz = static_cast<long>(s.m.size());
            Edit ed{INS, rng.chance(1, 50) ? rng.range(0, sz) : sz / 2, newelem()};
            auto it = t.begin();
            it += ed.pos;
            t.insert(it, mkv(ed.e));
            apply(s.m, ed);
        }
        long n = static_cast<long>(s.m.size());
        S().counters["largest tree before thinning"] = std::max<uint64_t>(S().counters["largest tree before thinning"], static_cast<uint64_t>(n));
        auto it = t.begin();
        Model left;
        for (long i = 0; i < n; ++i) {
            if (rng.range(0, n - 1) < keep) { left.push_back(s.m[static_cast<size_t>(i)]); ++it; }
            else t.erase(it);
        }
        s.m = left;
        S().steps += static_cast<uint64_t>(n);
        S().counters["deepest thin tree"] = std::max<uint64_t>(S().counters["deepest thin tree"], t.depth());
        check_seq(C01, t, s.m, "after thinning a deep tree", true);
        derived(t, s.m);
        for (int i = 0; i < 4; ++i) check_iters(t, s.m, NONE);
    }

    // ------------------------------------------------------------------ episode
    void run() {
        Profile const& pf = profile();
        static long const doms[] = {12, 40, 150, 700, 6000};
        dom = std::min<long>(doms[rng.below(5)], C::kmax - 2);
        hot_m = rng.chance(1, 3);
        long cap = rng.chance(1, 4) ? 12 : rng.chance(1, 3) ? 60 : C::cap;
        if (rng.chance(1, 4)) {
            P p{};
            ps.clear();
            add_p(std::move(p), Model{});
            add_t(static_cast<P const&>(*ps[0]->p).transient(), Model{}, true);
        } else {
            add_t(T{}, Model{}, false);
        }
        if (C::thin > 0 && rng.chance(1, 3)) {
            thin_start(*ts[0], rng.range(3, 400));
        } else if (rng.chance(2, 3)) {
            // a head start, so that deep trees are edited too
            TS& s = *ts[0];
            long want_n = rng.range(0, cap);
            posmode = static_cast<int>(rng.below(3));
            log_op("head start", want_n, posmode);
            for (long i = 0; i < want_n && s.t->depth() < s.t->max_depth(); ++i) {
                Edit ed;
                if (!choose(s.m, INS, ed)) break;
                auto it = iter_at<typename T::iterator>(*s.t, s.m, ed.pos);
                S().cur = C01;
                s.t->insert(it, mkv(ed.e));
                apply(s.m, ed);
                S().steps++;
            }
            check_seq(C01, *s.t, s.m, "after building by insert(it)");
            derived(*s.t, s.m);
        }
        long steps = pf.steps * S().scale / 100;
        if (steps < 20) steps = 20;
        int bias = 60;
        long phase_left = 0;
        for (long st = 0; st < steps; ++st) {
            S().step = st;
            S().steps++;
            quiesce();
            if (phase_left-- <= 0) {
                static int const biases[] = {95, 75, 60, 40, 15, 5};
                bias = biases[rng.below(6)];
                posmode = static_cast<int>(rng.below(5));
                phase_left = rng.range(10, 60);
                if (rng.chance(static_cast<unsigned>(pf.bulk), 6) && !ts.empty()) bulk(*ts[rng.below(ts.size())]);
            }
            if (ts.empty()) {
                if (!ps.empty() && rng.chance(3, 4)) {
                    PS& p = *ps[rng.below(ps.size())];
                    log_op("transient()");
                    Model m = *p.m;
                    TS& t = add_t(static_cast<P const&>(*p.p).transient(), m, true);
                    full_c04(*t.t, t.m, "transient()");
                } else {
                    add_t(T{}, Model{}, false);
                }
            }
            int total = hook_weight + pf.edit + (ENG_FUNC ? pf.func : 0) + pf.snap + pf.totrans + pf.copy + pf.drop + pf.recheck + pf.chain + pf.bystander;
            long r = rng.range(0, total - 1);
            if ((r -= hook_weight) < 0) {
                hook(*this);
            } else if ((r -= pf.edit) < 0) {
                TS& s = *ts[rng.below(ts.size())];
                Edit ed;
                Kind kd = pick_kind(static_cast<long>(s.m.size()), *s.t, bias, cap);
                if (!choose(s.m, kd, ed)) continue;
                Tag tag = edit_t(s, ed);
                if (kd != SET) s.by.clear();
                check_seq(tag, *s.t, s.m, "after an edit");
                if (kd == SET && !s.by.empty()) check_bystanders(s, "bystander iterator after assign/update");
                if (rng.range(0, 99) < pf.derived) derived(*s.t, s.m, tag == C17 ? C17 : NONE);
                if (rng.range(0, 99) < pf.siblings) siblings(&s);
            } else if (ENG_FUNC && (r -= pf.func) < 0) {
#if ENG_FUNC
                if (ps.empty()) { take_snapshot(*ts[rng.below(ts.size())]); continue; }
                PS& s = *ps[rng.below(ps.size())];
                std::shared_ptr<Model const> before = s.m;
                Edit ed;
                bool full_tree = s.p->depth() >= s.p->max_depth() || static_cast<long>(s.m->size()) >= cap;
                Kind kd = rng.chance(1, 4) && !s.m->empty() ? SET : (rng.range(0, 99) < bias && !full_tree) ? INS : s.m->empty() ? INS : ERA;
                if (kd == INS && full_tree) continue;
                if (!choose(*s.m, kd, ed)) continue;
                Tag tag = C01;
                char const* op = "?";
                P* src = s.p.get();
                P np = edit_p(*s.p, *s.m, ed, tag, op);
                S().op_counts[op]++;
                context(mix(hash_str(op), np.depth() * 100 + (ed.pos == 0 ? 1 : 0) + (static_cast<size_t>(ed.pos) + 1 >= before->size() ? 2 : 0)));
                Model m2 = *before;
                apply(m2, ed);
                Tag ft = on(tag) ? tag : C04;
                check_seq(ft, np, m2, "result of a functional edit");
                if (rng.range(0, 99) < pf.derived) derived(np, m2, C04);
                check_seq(on(C03) ? C03 : C04, *src, *before, "source of a functional edit");
                check_held(s);
                if (on(C04) && rng.chance(1, 2)) {
                    // the transient form of the same edit
                    log_op("transient form");
                    TS tmp;
                    tmp.t = std::make_unique<T>(static_cast<P const&>(*src).transient());
                    tmp.m = *before;
                    tmp.shared = true;
                    Edit e2 = ed;
                    if (!(e2.kind == SET && e2.e == (*before)[static_cast<size_t>(e2.pos)])) {
                        edit_t(tmp, e2);
                        P q = static_cast<T const&>(*tmp.t).persistent();
                        check_seq(C04, q, tmp.m, "snapshot of the edited transient() copy");
                        check_seq(C04, *src, *before, "source after editing its transient() copy");
                    }
                }
                add_p(std::move(np), m2);
                if (rng.range(0, 99) < pf.siblings) siblings(nullptr);
#endif
            } else if ((r -= pf.snap) < 0) {
                TS& s = *ts[rng.below(ts.size())];
                take_snapshot(s);
                check_bystanders(s, "bystander iterator after persistent()");
                if (rng.chance(1, 4)) full_c04(*ps.back()->p, *ps.back()->m, "snapshot");
                check_seq(C04, *s.t, s.m, "Transient after persistent()");
            } else if ((r -= pf.totrans) < 0) {
                if (ps.empty()) continue;
                PS& p = *ps[rng.below(ps.size())];
                log_op("transient()", static_cast<long>(p.m->size()));
                Model m = *p.m;
                S().cur = C04;
                TS& t = add_t(static_cast<P const&>(*p.p).transient(), m, true);
                full_c04(*t.t, t.m, "transient()");
                S().op_counts["transient()"]++;
            } else if ((r -= pf.copy) < 0) {
                copy_move();
            } else if ((r -= pf.drop) < 0) {
                if (rng.chance(1, 3) && ts.size() > 1) { log_op("drop T"); ts.erase(ts.begin() + static_cast<long>(rng.below(ts.size()))); }
                else if (!ps.empty()) { log_op("drop P"); ps.erase(ps.begin() + static_cast<long>(rng.below(ps.size()))); }
                siblings(nullptr);
            } else if ((r -= pf.recheck) < 0) {
                if (ps.empty()) continue;
                PS& s = *ps[rng.below(ps.size())];
                log_op("recheck P", static_cast<long>(s.m->size()));
                Tag t = on(C03) ? C03 : C04;
                check_seq(t, *s.p, *s.m, "Persistent re-examined", true);
                derived(*s.p, *s.m, on(C03) ? C03 : NONE);
                check_held(s);
            } else if ((r -= pf.chain) < 0) {
                TS& s = *ts[rng.below(ts.size())];
                s.by.clear();
                switch (ENG_ALLKINDS ? rng.below(4) : rng.below(2)) {
                    case 0: chain<typename T::iterator>(s); break;
                    case 1: chain<typename T::const_iterator>(s); break;
#if ENG_ALLKINDS
                    case 2: chain<typename T::reverse_iterator>(s); break;
                    default: chain<typename T::const_reverse_iterator>(s); break;
#endif
                }
                if (rng.range(0, 99) < pf.derived) derived(*s.t, s.m);
                siblings(&s);
            } else {
                add_bystander(*ts[rng.below(ts.size())]);
            }
        }
        // everything still as it should be, then release in random order
        for (auto& s : ps) {
            Tag t = on(C03) ? C03 : C04;
            check_seq(t, *s->p, *s->m, "Persistent at the end of the history", true);
            derived(*s->p, *s->m, on(C03) ? C03 : NONE);
            check_held(*s);
        }
        for (auto& s : ts) {
            check_seq(C01, *s->t, s->m, "Transient at the end of the history", true);
            derived(*s->t, s->m);
        }
        if (S().samples.size() < 3) {
            std::string text = std::string(S().cfg) + " episode " + std::to_string(S().episode) + ": ..." + ring_text(12);
            sample(text.substr(0, 700));
        }
        while (!ts.empty() || !ps.empty()) {
            if (!ts.empty() && (ps.empty() || rng.chance(1, 2))) ts.erase(ts.begin() + static_cast<long>(rng.below(ts.size())));
            else ps.erase(ps.begin() + static_cast<long>(rng.below(ps.size())));
            quiesce();
        }
        if constexpr (C::tracked) {
            if (on(C11)) {
                MON_CHECK(C11, tr::Registry::get().live.empty(), "%zu elements or key copies survive the last tree", tr::Registry::get().live.size());
                S().counters["elements constructed"] = tr::Registry::get().constructed;
                S().counters["elements copied"] = tr::Registry::get().copied;
                S().counters["elements moved"] = tr::Registry::get().moved;
                S().counters["elements assigned"] = tr::Registry::get().assigned;
                S().counters["elements destroyed"] = tr::Registry::get().destroyed;
            }
        }
    }
};

template <class C>
void run_config(char const* name, void (*hook)(Engine<C>&) = nullptr, int weight = 0) {
    episodes(name, S().episodes, [hook, weight](Rng& rng) {
        Engine<C> e(rng);
        e.hook = hook;
        e.hook_weight = weight;
        e.run();
    });
}
}
