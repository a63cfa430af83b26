// C19: standard algorithms over tree iterators against the same algorithms over std::vector.
#include <fcntl.h>
#include <sys/wait.h>
#include <algorithm>
#include <functional>
#include <iterator>
#include <list>
#include <memory>
#include <numeric>
#include <random>
#include <set>
#include <string>
#include <vector>
#include "bpptree/bpptree.hpp"
#include "bpptree/indexed.hpp"
#include "bpptree/max.hpp"
#include "bpptree/min.hpp"
#include "bpptree/ordered.hpp"
#include "bpptree/summed.hpp"
#include "mon.hpp"
#include "traits.hpp"
using namespace mon;
using namespace bpptree;

constexpr int inb(int n, int per) { return NODE_HDR + 8 + n * per; }

namespace cfg {
using PR = std::pair<int32_t, int32_t>;
struct Base { static constexpr bool indexed = false, summed = false, minmax = false, ordered = false, arith = false; };
struct AlVec : Base {
    using V = int32_t;
    using Tree = BppTreeVector<int32_t, uint32_t>::leaf_node_bytes<NODE_HDR + 3 * 4>::internal_node_bytes<inb(4, 8 + 4 + 4 + 4 + 4)>::depth_limit<6>::mixins<SummedBuilder<>, MinBuilder<>, MaxBuilder<>>;
    static constexpr bool indexed = true, summed = true, minmax = true, arith = true;
};
struct AlSeq : Base {
    using V = int32_t;
    using Tree = BppTree<int32_t, NODE_HDR + 2 * 4, inb(4, 8 + 4 + 4 + 4), 7>::mixins<SummedBuilder<>, MinBuilder<>, MaxBuilder<>>;
    static constexpr bool summed = true, minmax = true, arith = true;
};
struct AlStr : Base {
    using V = std::string;
    using Tree = BppTree<std::string, NODE_HDR + 2 * 32, inb(4, 8 + 8 + 32 + 32), 6>::mixins<MinBuilder<>, IndexedBuilder<>, MaxBuilder<>>;
    static constexpr bool indexed = true, minmax = true;
};
struct AlPair : Base {
    using V = PR;
    using Tree = BppTree<PR, NODE_HDR + 4 * 8, inb(5, 8 + 4 + 8), 6>::mixins<SummedBuilder<PairExtractor<1>>, IndexedBuilder<int32_t>>;
    static constexpr bool indexed = true, summed = true;
};
struct AlPlain : Base {
    using V = int64_t;
    using Tree = BppTree<int64_t, NODE_HDR + 3 * 8, inb(4, 8), 6>::mixins<>;
    static constexpr bool arith = true;
};
struct AlMap : Base {
    using V = PR;
    using Tree = BppTree<PR, NODE_HDR + 3 * 8, inb(4, 8 + 4 + 4 + 4), 6>::mixins<OrderedBuilder<>, IndexedBuilder<uint32_t>, SummedBuilder<PairExtractor<1>>>;
    static constexpr bool indexed = true, summed = true, ordered = true;
};
struct AlSet : Base {
    using V = std::string;
    using Tree = BppTreeSet<std::string>::leaf_node_bytes<NODE_HDR + 3 * 32>::internal_node_bytes<inb(4, 8 + 32)>::depth_limit<6>::mixins<>;
    static constexpr bool ordered = true;
};
}

template <class C>
struct Run {
    using V = typename C::V;
    using T = typename C::Tree::Transient;
    using P = typename C::Tree::Persistent;
    using M = std::vector<V>;
    Rng& rng;
    T t{};
    M m;
    struct Snap { P p; M m; };
    std::vector<Snap> snaps;
    explicit Run(Rng& r) : rng(r) {}

    static V mk(long i) {
        if constexpr (std::is_same_v<V, cfg::PR>) return V(static_cast<int32_t>(i), static_cast<int32_t>((i * 7) % 101));
        else if constexpr (std::is_same_v<V, std::string>) return tr::Conv<V>::mk(i);
        else return static_cast<V>(i);
    }
    static long num(V const& v) {
        if constexpr (std::is_same_v<V, cfg::PR>) return v.second;
        else if constexpr (std::is_same_v<V, std::string>) return tr::Conv<V>::id(v);
        else return static_cast<long>(v);
    }
    V val() { return mk(rng.range(0, 40)); }

    void did(char const* op, long a = 0, long b = 0, long c = 0) {
        log_op(op, a, b, c);
        S().op_counts[op]++;
        S().steps++;
        context(mix(hash_str(op), mix(static_cast<uint64_t>(t.depth()), mix(static_cast<uint64_t>(std::log2(1.0 + static_cast<double>(m.size()))), mix(snaps.size(), a == 0 ? 1 : b == static_cast<long>(m.size()) ? 2 : 3)))));
    }

    template <class X>
    void check(X const& x, M const& w, char const* what) {
        MON_CHECK(C19, x.size() == w.size(), "%s: size %zu, expected %zu", what, static_cast<size_t>(x.size()), w.size());
        size_t i = 0;
        for (auto const& v : x) {
            MON_CHECK(C19, i < w.size() && v == w[i], "%s: element %zu differs from the vector's", what, i);
            ++i;
        }
        MON_CHECK(C19, i == w.size(), "%s: range-for visited %zu of %zu", what, i, w.size());
        for (auto it = x.crbegin(); it != x.crend(); ++it) {
            --i;
            MON_CHECK(C19, i < w.size() && *it == w[i], "%s: element %zu differs in reverse", what, i);
        }
        if constexpr (C::summed) {
            long s = 0;
            for (auto const& v : w) s += num(v);
            MON_CHECK(C19, static_cast<long>(x.sum()) == s, "%s: sum() is stale", what);
            auto it = x.cbegin();
            long pre = 0;
            long stop = static_cast<long>(w.size()) ? rng.range(0, static_cast<long>(w.size()) - 1) : 0;
            for (long k = 0; k < stop; ++k) { pre += num(w[static_cast<size_t>(k)]); ++it; }
            MON_CHECK(C19, static_cast<long>(x.sum_exclusive(it)) == pre, "%s: prefix sum is stale", what);
        }
        if constexpr (C::minmax) {
            if (!w.empty()) {
                MON_CHECK(C19, x.min() == *std::min_element(w.begin(), w.end()), "%s: min() is stale", what);
                MON_CHECK(C19, x.max() == *std::max_element(w.begin(), w.end()), "%s: max() is stale", what);
                size_t a = rng.below(w.size()), b = a + 1 + rng.below(w.size() - a);
                auto ia = std::next(x.cbegin(), static_cast<long>(a)), ib = std::next(x.cbegin(), static_cast<long>(b));
                MON_CHECK(C19, x.min(ia, ib) == *std::min_element(w.begin() + static_cast<long>(a), w.begin() + static_cast<long>(b)), "%s: min over a range is stale", what);
                MON_CHECK(C19, x.max(ia, ib) == *std::max_element(w.begin() + static_cast<long>(a), w.begin() + static_cast<long>(b)), "%s: max over a range is stale", what);
            }
        }
        if constexpr (C::indexed) {
            if (!w.empty()) {
                using Sz = std::decay_t<decltype(x.order(x.cend()))>;
                size_t a = rng.below(w.size());
                MON_CHECK(C19, x.at_index(static_cast<Sz>(a)) == w[a], "%s: at_index differs", what);
            }
        }
    }
    void after(char const* what) {
        check(std::as_const(t), m, what);
        for (auto& s : snaps) check(s.p, s.m, "a snapshot after an algorithm");
    }

    template <class It>
    static void category(char const* what) {
        using Tr = std::iterator_traits<It>;
        constexpr bool ra = std::is_same_v<typename Tr::iterator_category, std::random_access_iterator_tag>;
        constexpr bool bi = std::is_same_v<typename Tr::iterator_category, std::bidirectional_iterator_tag>;
        MON_CHECK(C19, C::indexed ? ra : bi, "%s advertises another iterator category", what);
        MON_CHECK(C19, (std::is_same_v<typename Tr::value_type, V>), "%s advertises another value type", what);
        MON_CHECK(C19, (std::is_signed_v<typename Tr::difference_type> && sizeof(typename Tr::difference_type) == sizeof(std::ptrdiff_t)), "%s advertises another difference type", what);
        MON_CHECK(C19, (std::is_convertible_v<typename Tr::reference, V const&>), "reference of %s does not convert", what);
    }
    static void categories() {
        category<typename T::iterator>("Transient::iterator");
        category<typename T::const_iterator>("Transient::const_iterator");
        category<typename T::reverse_iterator>("Transient::reverse_iterator");
        category<typename T::const_reverse_iterator>("Transient::const_reverse_iterator");
        category<typename P::iterator>("Persistent::iterator");
        category<typename P::const_iterator>("Persistent::const_iterator");
        category<typename P::reverse_iterator>("Persistent::reverse_iterator");
        category<typename P::const_reverse_iterator>("Persistent::const_reverse_iterator");
        category<decltype(std::declval<T&>().begin())>("Transient begin()");
        category<decltype(std::declval<T const&>().begin())>("const Transient begin()");
        category<decltype(std::declval<P const&>().rbegin())>("const Persistent rbegin()");
    }

#define SAME(cond, name) MON_CHECK(C19, cond, "%s gives another result on [%ld, %ld) of %zu", name, a, b, m.size())

    // read-only algorithms on [f, l) and the vector range [vf, vl)
    template <class It, class VI>
    void read(It f, It l, VI vf, VI vl, long a, long b) {
        constexpr bool ra = std::is_same_v<typename std::iterator_traits<It>::iterator_category, std::random_access_iterator_tag>;
        V x = val();
        long n = b - a;
        auto pos = [&](It it) { return static_cast<long>(std::distance(f, it)); };
        auto vpos = [&](VI it) { return static_cast<long>(std::distance(vf, it)); };
        switch (rng.below(24)) {
            case 0: did("accumulate", a, b); SAME(std::accumulate(f, l, 0UL, [](unsigned long s, V const& v) { return s * 3 + static_cast<unsigned long>(num(v)); }) == std::accumulate(vf, vl, 0UL, [](unsigned long s, V const& v) { return s * 3 + static_cast<unsigned long>(num(v)); }), "accumulate"); break;
            case 1: did("find", a, b); SAME(pos(std::find(f, l, x)) == vpos(std::find(vf, vl, x)), "find"); break;
            case 2: did("count_if", a, b); SAME(std::count_if(f, l, [](V const& v) { return num(v) % 2 == 0; }) == std::count_if(vf, vl, [](V const& v) { return num(v) % 2 == 0; }), "count_if"); break;
            case 3: did("adjacent_find", a, b); SAME(pos(std::adjacent_find(f, l)) == vpos(std::adjacent_find(vf, vl)), "adjacent_find"); break;
            case 4: did("equal", a, b); SAME(std::equal(f, l, vf, vl), "equal"); SAME(std::equal(vf, vl, f, l), "equal"); break;
            case 5: did("min_element", a, b); SAME(pos(std::min_element(f, l)) == vpos(std::min_element(vf, vl)), "min_element"); SAME(pos(std::max_element(f, l)) == vpos(std::max_element(vf, vl)), "max_element"); break;
            case 6: did("is_sorted_until", a, b); SAME(pos(std::is_sorted_until(f, l)) == vpos(std::is_sorted_until(vf, vl)), "is_sorted_until"); break;
            case 7: {
                did("copy out", a, b);
                M o;
                std::copy(f, l, std::back_inserter(o));
                SAME(o == M(vf, vl), "copy");
                M o2(f, l);
                SAME(o2 == o, "vector from a range");
                break;
            }
            case 8: {
                did("copy_backward out", a, b);
                M o(static_cast<size_t>(n), x);
                std::copy_backward(f, l, o.end());
                SAME(o == M(vf, vl), "copy_backward");
                std::reverse_copy(f, l, o.begin());
                SAME(o == M(std::make_reverse_iterator(vl), std::make_reverse_iterator(vf)), "reverse_copy");
                break;
            }
            case 9: {
                did("advance/next/prev", a, b);
                long d = n ? rng.range(0, n) : 0;
                It it = f;
                std::advance(it, d);
                SAME(pos(it) == d && std::distance(it, l) == n - d, "advance and distance");
                SAME(std::prev(it, d) == f && std::next(f, d) == it && std::prev(l, n - d) == it, "next and prev");
                if (d < n) SAME(static_cast<V const&>(*it) == *std::next(vf, d), "dereference after advance");
                break;
            }
            case 10: {
                did("search", a, b);
                M needle;
                if (n) { long i = rng.range(0, n - 1), c = rng.range(1, std::min<long>(3, n - i)); needle.assign(std::next(vf, i), std::next(vf, i + c)); }
                SAME(pos(std::search(f, l, needle.begin(), needle.end())) == vpos(std::search(vf, vl, needle.begin(), needle.end())), "search");
                // find_end goes through std::reverse_iterator, see probe() for mutable iterators
                if constexpr (!std::is_class_v<typename std::iterator_traits<It>::reference>) SAME(pos(std::find_end(f, l, needle.begin(), needle.end())) == vpos(std::find_end(vf, vl, needle.begin(), needle.end())), "find_end");
                break;
            }
            case 11: {
                did("inner_product", a, b);
                SAME(std::inner_product(f, l, f, 0L, std::plus<long>(), [](V const& p, V const& q) { return num(p) * num(q); }) == std::inner_product(vf, vl, vf, 0L, std::plus<long>(), [](V const& p, V const& q) { return num(p) * num(q); }), "inner_product");
                break;
            }
            case 12: {
                did("mismatch", a, b);
                M o(vf, vl);
                if (!o.empty()) o[rng.below(o.size())] = mk(77);
                SAME(pos(std::mismatch(f, l, o.begin()).first) == vpos(std::mismatch(vf, vl, o.begin()).first), "mismatch");
                SAME(std::lexicographical_compare(f, l, o.begin(), o.end()) == std::lexicographical_compare(vf, vl, o.begin(), o.end()), "lexicographical_compare");
                break;
            }
            case 13: did("all_of/any_of/none_of", a, b); {
                auto big = [](V const& v) { return num(v) > 35; };
                SAME(std::all_of(f, l, big) == std::all_of(vf, vl, big) && std::any_of(f, l, big) == std::any_of(vf, vl, big) && std::none_of(f, l, big) == std::none_of(vf, vl, big), "all_of/any_of/none_of");
                break;
            }
            case 14: did("unique_copy", a, b); { M o, w; std::unique_copy(f, l, std::back_inserter(o)); std::unique_copy(vf, vl, std::back_inserter(w)); SAME(o == w, "unique_copy"); break; }
            case 15: did("partial_sort_copy", a, b); { M o(static_cast<size_t>(n / 2), x), w(static_cast<size_t>(n / 2), x); std::partial_sort_copy(f, l, o.begin(), o.end()); std::partial_sort_copy(vf, vl, w.begin(), w.end()); SAME(o == w, "partial_sort_copy"); break; }
            case 16: {
                did("for_each", a, b);
                unsigned long s = 0, w = 0;
                std::for_each(f, l, [&](V const& v) { s = s * 5 + static_cast<unsigned long>(num(v)); });
                std::for_each(vf, vl, [&](V const& v) { w = w * 5 + static_cast<unsigned long>(num(v)); });
                SAME(s == w, "for_each");
                break;
            }
            case 17: {
                did("post-increment loop", a, b);
                M o;
                for (It it = f; it != l;) { V const& v = *it++; o.push_back(v); }
                SAME(o == M(vf, vl), "*it++");
                M r;
                for (It it = l; it != f;) { it--; r.push_back(*it); }
                std::reverse(r.begin(), r.end());
                SAME(o == r, "it--");
                break;
            }
            case 18: did("std::multiset from a range", a, b); { std::multiset<V> s1(f, l), s2(vf, vl); SAME(s1 == s2, "multiset from a range"); std::list<V> l1(f, l); SAME(std::equal(l1.begin(), l1.end(), vf, vl), "list from a range"); break; }
            case 19: did("is_partitioned/partition_point", a, b); {
                long lim = rng.range(0, 40);
                auto pr = [lim](V const& v) { return num(v) < lim; };
                bool p1 = std::is_partitioned(f, l, pr), p2 = std::is_partitioned(vf, vl, pr);
                SAME(p1 == p2, "is_partitioned");
                if (p2) SAME(pos(std::partition_point(f, l, pr)) == vpos(std::partition_point(vf, vl, pr)), "partition_point");
                break;
            }
            case 20: did("transform out", a, b); { std::vector<long> o, w; std::transform(f, l, std::back_inserter(o), [](V const& v) { return num(v) * 2; }); std::transform(vf, vl, std::back_inserter(w), [](V const& v) { return num(v) * 2; }); SAME(o == w, "transform"); break; }
            case 21: did("merge out", a, b); {
                if (std::is_sorted(vf, vl)) {
                    M o, w;
                    std::merge(f, l, vf, vl, std::back_inserter(o));
                    std::merge(vf, vl, vf, vl, std::back_inserter(w));
                    SAME(o == w, "merge");
                    SAME(std::includes(f, l, vf, vl), "includes");
                }
                break;
            }
            case 22: did("binary search", a, b); {
                if (std::is_sorted(vf, vl)) {
                    SAME(pos(std::lower_bound(f, l, x)) == vpos(std::lower_bound(vf, vl, x)), "lower_bound");
                    SAME(pos(std::upper_bound(f, l, x)) == vpos(std::upper_bound(vf, vl, x)), "upper_bound");
                    auto e1 = std::equal_range(f, l, x);
                    auto e2 = std::equal_range(vf, vl, x);
                    SAME(pos(e1.first) == vpos(e2.first) && pos(e1.second) == vpos(e2.second), "equal_range");
                    SAME(std::binary_search(f, l, x) == std::binary_search(vf, vl, x), "binary_search");
                }
                break;
            }
            default:
                did("random access", a, b);
                if constexpr (ra) {
                    SAME(l - f == n && f - l == -n, "iterator difference");
                    if (n) {
                        long i = rng.range(0, n - 1), j = rng.range(0, n - 1);
                        It p = f + i, q = f + j;
                        SAME(p - q == i - j && (p < q) == (i < j) && (p <= q) == (i <= j) && (p > q) == (i > j) && (p >= q) == (i >= j) && (p == q) == (i == j), "iterator order");
                        SAME(static_cast<V const&>(p[j - i]) == *std::next(vf, j), "it[n]");
                        SAME((q += i - j) == p && (q -= i) == f, "+= and -=");
                    }
                }
        }
    }

    // writing algorithms on a tree range [f, l); apply the same to the vector range
    template <class It, class VI>
    void write(It f, It l, VI vf, VI vl, long a, long b) {
        constexpr bool ra = std::is_same_v<typename std::iterator_traits<It>::iterator_category, std::random_access_iterator_tag>;
        long n = b - a;
        auto at = [&](long i) { return std::next(f, i); };
        auto vat = [&](long i) { return std::next(vf, i); };
        V x = val(), y = val();
        bool sortable = true;
        auto cmp = [](V const& p, V const& q) { return num(p) > num(q); };
        switch (rng.below(ra ? 27 : 17)) {
            case 0: did("reverse", a, b); std::reverse(f, l); std::reverse(vf, vl); break;
            case 1: { long k = rng.range(0, n); did("rotate", a, b, k); std::rotate(f, at(k), l); std::rotate(vf, vat(k), vl); break; }
            case 2: { long k = n / 2, k2 = rng.range(0, k); did("swap_ranges", a, b, k2); std::swap_ranges(f, at(k2), at(n - k)); std::swap_ranges(vf, vat(k2), vat(n - k)); break; }
            case 3: did("fill", a, b); std::fill(f, l, x); std::fill(vf, vl, x); break;
            case 4: did("transform in place", a, b); std::transform(f, l, f, [](V const& v) { return mk(num(v) / 2 + 3); }); std::transform(vf, vl, vf, [](V const& v) { return mk(num(v) / 2 + 3); }); break;
            case 5: { long k = rng.range(0, n); did("copy forward", a, b, k); std::copy(at(k), l, f); std::copy(vat(k), vl, vf); break; }
            case 6: { long k = rng.range(0, n); did("copy_backward", a, b, k); std::copy_backward(f, at(k), l); std::copy_backward(vf, vat(k), vl); break; }
            case 7: {
                M src;
                for (long i = 0; i < n; ++i) src.push_back(val());
                did("copy in", a, b);
                std::copy(src.begin(), src.end(), f);
                std::copy(src.begin(), src.end(), vf);
                break;
            }
            case 8: did("replace", a, b); std::replace(f, l, x, y); std::replace(vf, vl, x, y); break;
            case 9: did("replace_if", a, b); std::replace_if(f, l, [](V const& v) { return num(v) % 3 == 0; }, y); std::replace_if(vf, vl, [](V const& v) { return num(v) % 3 == 0; }, y); break;
            case 10: { long c = 0, d = 0; did("generate", a, b); std::generate(f, l, [&] { return mk(c++ % 41); }); std::generate(vf, vl, [&] { return mk(d++ % 41); }); break; }
            case 11: {
                if (n < 2) break;
                long i = rng.range(0, n - 1), j = rng.range(0, n - 1);
                did("iter_swap", a + i, a + j);
                auto p = at(i), q = at(j);
                std::iter_swap(p, q);
                std::iter_swap(vat(i), vat(j));
                SAME(p.get() == *vat(i) && q.get() == *vat(j), "iter_swap");
                break;
            }
            case 12: {
                did("partition", a, b);
                long lim = rng.range(0, 40);
                auto pr = [lim](V const& v) { return num(v) < lim; };
                auto p1 = std::partition(f, l, pr);
                M after_(f, l);
                SAME(std::distance(f, p1) == std::count_if(vf, vl, pr) && std::is_partitioned(after_.begin(), after_.end(), pr), "partition");
                SAME(std::is_permutation(after_.begin(), after_.end(), vf), "partition keeps the elements");
                std::copy(after_.begin(), after_.end(), vf);
                break;
            }
            case 13: { did("write in a range loop", a, b); long k = 0; for (It it = f; it != l; ++it, ++k) if (k % 3 == 0) *it = x; k = 0; for (VI it = vf; it != vl; ++it, ++k) if (k % 3 == 0) *it = x; break; }
            case 14: did("copy between directions", a, b); { M cp(vf, vl); std::copy(cp.rbegin(), cp.rend(), f); std::copy(cp.rbegin(), cp.rend(), vf); break; }
            case 15: did("remove", a, b); {
                // the elements past the new end are unspecified
                auto e1 = std::remove(f, l, x);
                auto e2 = std::remove(vf, vl, x);
                SAME(std::distance(f, e1) == std::distance(vf, e2), "remove");
                SAME(std::equal(f, e1, vf, e2), "remove");
                std::fill(e1, l, y);
                std::fill(e2, vl, y);
                break;
            }
            case 16: did("unique", a, b); {
                auto e1 = std::unique(f, l);
                auto e2 = std::unique(vf, vl);
                SAME(std::distance(f, e1) == std::distance(vf, e2) && std::equal(f, e1, vf, e2), "unique");
                std::fill(e1, l, y);
                std::fill(e2, vl, y);
                break;
            }
            case 17: case 18: did("sort", a, b); if constexpr (ra) { std::sort(f, l); std::sort(vf, vl); } break;
            case 19: did("sort by a comparator", a, b); if constexpr (ra) {
                std::sort(f, l, cmp);
                M w(f, l);
                SAME(std::is_sorted(w.begin(), w.end(), cmp) && std::is_permutation(w.begin(), w.end(), vf), "sort by a comparator");
                std::copy(w.begin(), w.end(), vf);
            } break;
            case 20: did("partial_sort", a, b); if constexpr (ra) {
                long k = rng.range(0, n);
                std::partial_sort(f, at(k), l);
                M w(f, l), s(vf, vl);
                std::sort(s.begin(), s.end());
                SAME(std::equal(w.begin(), w.begin() + k, s.begin()) && std::is_permutation(w.begin(), w.end(), vf), "partial_sort");
                std::copy(w.begin(), w.end(), vf);
            } break;
            case 21: did("nth_element", a, b); if constexpr (ra) {
                if (n) {
                    long k = rng.range(0, n - 1);
                    std::nth_element(f, at(k), l);
                    M w(f, l), s(vf, vl);
                    std::sort(s.begin(), s.end());
                    SAME(w[static_cast<size_t>(k)] == s[static_cast<size_t>(k)] && std::is_permutation(w.begin(), w.end(), vf), "nth_element");
                    std::copy(w.begin(), w.end(), vf);
                }
            } break;
            case 22: did("heap", a, b); if constexpr (ra) {
                std::make_heap(f, l);
                SAME(std::is_heap(f, l), "make_heap");
                if (n > 1) { std::pop_heap(f, l); std::push_heap(f, l); }
                std::sort_heap(f, l);
                std::sort(vf, vl);
            } break;
            case 23: did("shuffle", a, b); if constexpr (ra) { std::mt19937 g1(static_cast<unsigned>(rng.next())), g2 = g1; std::shuffle(f, l, g1); std::shuffle(vf, vl, g2); } break;
            case 24: did("stable_sort", a, b); if constexpr (ra) { std::stable_sort(f, l, cmp); std::stable_sort(vf, vl, cmp); } break;
            case 25: did("inplace_merge", a, b); if constexpr (ra) {
                long k = rng.range(0, n);
                std::sort(f, at(k)); std::sort(at(k), l);
                std::inplace_merge(f, at(k), l);
                std::sort(vf, vl);
            } break;
            default: did("write through it[n]/it+n", a, b); if constexpr (ra) {
                for (long i = 0; i < n; i += 4) { auto p = f + i; *p = x; *vat(i) = x; }
            }
        }
        (void) sortable;
        after(S().cur_op);
    }

    void range(long& a, long& b) {
        long n = static_cast<long>(m.size());
        a = rng.chance(1, 3) ? 0 : rng.range(0, n);
        b = rng.chance(1, 3) ? n : rng.range(a, n);
    }

    template <class X>
    void read_any(X& x, M const& w) {
        long a, b;
        range(a, b);
        bool whole = rng.chance(1, 3);
        if (whole) { a = 0; b = static_cast<long>(w.size()); }
        auto go = [&](auto begin, auto end, auto vb, auto ve) {
            auto f = whole ? begin : std::next(begin, a);
            auto l = whole ? end : std::next(begin, b);
            (void) ve;
            read(f, l, std::next(vb, a), std::next(vb, b), a, b);
        };
        switch (rng.below(4)) {
            case 0: go(x.begin(), x.end(), w.begin(), w.end()); break;
            case 1: go(x.cbegin(), x.cend(), w.begin(), w.end()); break;
            case 2: go(x.rbegin(), x.rend(), w.rbegin(), w.rend()); break;
            default: go(x.crbegin(), x.crend(), w.rbegin(), w.rend());
        }
    }

    void fill_tree(long n) {
        for (long i = 0; i < n; ++i) {
            if constexpr (C::ordered) {
                long k = rng.range(0, 400);
                V v = mk(k);
                t.insert_or_assign(v);
                auto p = std::lower_bound(m.begin(), m.end(), v, [](V const& q, V const& r) { if constexpr (std::is_same_v<V, cfg::PR>) return q.first < r.first; else return q < r; });
                if (p != m.end() && !(v < *p)) *p = v;
                else m.insert(p, v);
            } else {
                V v = val();
                if (rng.chance(1, 2)) { t.push_back(v); m.push_back(v); }
                else {
                    long p = rng.range(0, static_cast<long>(m.size()));
                    auto it = std::next(t.begin(), p);
                    if (m.empty()) it = t.begin();
                    t.insert(it, v);
                    m.insert(m.begin() + p, v);
                }
            }
        }
    }

    void run() {
        categories();
        static constexpr long ns[] = {0, 1, 2, 3, 7, 20, 60, 150, 250};
        fill_tree(ns[rng.below(9)]);
        after("building");
        long steps = rng.range(20, 60) * S().scale / 100;
        for (long i = 0; i < steps; ++i) {
            S().step = i;
            unsigned r = static_cast<unsigned>(rng.below(100));
            if (r < 8) {
                did("persistent()");
                if (snaps.size() > 2) snaps.erase(snaps.begin());
                snaps.push_back(Snap{t.persistent(), m});
            } else if (r < 14) { did("grow"); fill_tree(rng.range(1, 20)); }
            else if (r < 18 && m.size() > 3) {
                did("shrink");
                for (int k = 0; k < 3; ++k) { t.pop_back(); m.pop_back(); }
            } else if (r < 60 || C::ordered) {
                if (!snaps.empty() && rng.chance(1, 3)) { Snap& s = snaps[rng.below(snaps.size())]; M keep = m; m = s.m; read_any(s.p, s.m); m = keep; }
                else if (rng.chance(1, 3)) read_any(std::as_const(t), m);
                else read_any(t, m);
            } else if constexpr (!C::ordered) {
                long a, b;
                range(a, b);
                if (m.empty()) { write(t.begin(), t.end(), m.begin(), m.end(), 0, 0); continue; }
                if (rng.chance(1, 4)) write(std::next(t.rbegin(), a), std::next(t.rbegin(), b), m.rbegin() + a, m.rbegin() + b, a, b);
                else if (rng.chance(1, 5)) write(t.begin(), t.end(), m.begin(), m.end(), 0, static_cast<long>(m.size()));
                else write(std::next(t.begin(), a), std::next(t.begin(), b), m.begin() + a, m.begin() + b, a, b);
            }
            if (rng.chance(1, 10)) after("later");
        }
        after("the end");
        sample("size " + std::to_string(m.size()) + ": " + ring_text(8));
    }
};

// A dereferenced mutable iterator gives a proxy that refers to that iterator object. std::reverse_iterator, and the
// algorithms that use it, dereference a temporary copy. Runs in a process of its own because it reads a dead object.
template <class C>
int probe() {
    using R = Run<C>;
    typename C::Tree::Transient t{};
    std::vector<typename C::V> m;
    for (long i = 0; i < 30; ++i) { t.push_back(R::mk(i % 7)); m.push_back(R::mk(i % 7)); }
    std::vector<typename C::V> needle{R::mk(2), R::mk(3)};
    auto a = std::distance(t.begin(), std::find_end(t.begin(), t.end(), needle.begin(), needle.end()));
    auto b = std::distance(m.begin(), std::find_end(m.begin(), m.end(), needle.begin(), needle.end()));
    long s = 0, w = 0;
    for (auto it = std::make_reverse_iterator(t.end()); it != std::make_reverse_iterator(t.begin()); ++it) s = (s * 31 + R::num(*it)) % 1000003;
    for (auto it = m.rbegin(); it != m.rend(); ++it) w = (w * 31 + R::num(*it)) % 1000003;
    return a == b && s == w ? 0 : 1;
}
template <class C>
void run_probe() {
    if constexpr (!C::ordered) {
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
            int null = open("/dev/null", O_WRONLY);
            dup2(null, 1);
            dup2(null, 2);
            setenv("ASAN_OPTIONS", "detect_stack_use_after_return=1:detect_leaks=0:exitcode=12", 1);
            execl("/proc/self/exe", "algo", "probe", static_cast<char*>(nullptr));
            _exit(99);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        S().counters["probes of std::reverse_iterator over mutable iterators"]++;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return;
        S().known.push_back("C19|std-reverse-iterator-of-mutable-iterator|std::reverse_iterator over mutable tree iterators reads through a proxy of a dead iterator");
    }
}

#define STR2(x) #x
#define STR(x) STR2(x)
int main(int argc, char** argv) {
    if (argc == 2 && !strcmp(argv[1], "probe")) {
        if constexpr (!cfg::CFG::ordered) return probe<cfg::CFG>();
        return 0;
    }
    mon::init(argc, argv);
    S().cur = C19;
    run_probe<cfg::CFG>();
    episodes(STR(CFG), S().episodes, [](Rng& r) { Run<cfg::CFG>(r).run(); });
    return mon::finish();
}
