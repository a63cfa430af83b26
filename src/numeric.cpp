// C06, C07, C10 (and contents: C01, C02, C05): elements of every arithmetic type, with values at the ends of their range, and
// arguments of other arithmetic types that are converted when they are stored.
// Legal histories only: in the model, the sum of the positive and that of the negative elements are both representable, so
// that every sum over any set of elements is; differences between two such sums need not be.
#include "mon.hpp"
#include "bpptree/bpptree.hpp"
#include "bpptree/ordered.hpp"
#include "bpptree/indexed.hpp"
#include "bpptree/summed.hpp"
#include "bpptree/min.hpp"
#include "bpptree/max.hpp"
#include <limits>
#include <cmath>
#include <memory>
#include <algorithm>
using namespace mon;
using namespace bpptree;

using I128 = __int128;
template <class T> struct Num { using type = T; };
template <class T, class S = T> struct Seq {
    using V = T;
    using Sum = S;
    static constexpr bool map = false;
};
template <class T, class S, int leaf, int internal, int depth> struct SeqCfg : Seq<T, S> {
    using Ex = std::conditional_t<std::is_same_v<T, S>, ValueExtractor, detail::CastingExtractor<S>>;
    using Tree = typename BppTree<T, leaf, internal, depth>::template mixins<IndexedBuilder<>, SummedBuilder<Ex>, MinBuilder<>, MaxBuilder<>>;
};
template <class K, class T, class S, int leaf, int internal, int depth> struct MapCfg : Seq<T, S> {
    using Key = K;
    static constexpr bool map = true;
    using Ex = std::conditional_t<std::is_same_v<T, S>, PairExtractor<1>, detail::WrappedCastingExtractor<PairExtractor<1>, S>>;
    using Tree = typename BppTree<std::pair<K, T>, leaf, internal, depth>::template mixins<OrderedBuilder<>, SummedBuilder<Ex>, MinBuilder<PairExtractor<1>>, MaxBuilder<PairExtractor<1>>>;
};
namespace cfg {
struct NumI32 : SeqCfg<int32_t, int32_t, NODE_HDR + 3 * 4, NODE_HDR + 8 + 4 * 28, 7> {};
struct NumI64 : SeqCfg<int64_t, int64_t, NODE_HDR + 2 * 8, NODE_HDR + 8 + 4 * 48, 8> {};
struct NumU8 : SeqCfg<uint8_t, uint8_t, NODE_HDR + 4, NODE_HDR + 8 + 4 * 20, 7> {};
struct NumI8 : SeqCfg<int8_t, int8_t, NODE_HDR + 3, NODE_HDR + 8 + 4 * 24, 8> {};
struct NumU16 : SeqCfg<uint16_t, uint16_t, NODE_HDR + 3 * 2, NODE_HDR + 8 + 4 * 24, 7> {};
struct NumI16 : SeqCfg<int16_t, int64_t, NODE_HDR + 3 * 2, NODE_HDR + 8 + 4 * 32, 7> {};
struct NumU32 : SeqCfg<uint32_t, uint32_t, NODE_HDR + 2 * 4, NODE_HDR + 8 + 4 * 28, 7> {};
struct NumU64 : SeqCfg<uint64_t, uint64_t, NODE_HDR + 2 * 8, NODE_HDR + 8 + 4 * 40, 7> {};
struct NumI32W : SeqCfg<int32_t, int64_t, 512, 512, 5> {};
struct NumF32 : SeqCfg<float, float, NODE_HDR + 3 * 4, NODE_HDR + 8 + 4 * 28, 7> {};
struct NumDblI : SeqCfg<double, int32_t, NODE_HDR + 3 * 8, NODE_HDR + 8 + 4 * 36, 7> {};
struct NumMapI : MapCfg<int32_t, int32_t, int32_t, NODE_HDR + 2 * 8, NODE_HDR + 8 + 4 * 28, 7> {};
struct NumMapU : MapCfg<uint16_t, uint8_t, uint32_t, NODE_HDR + 3 * 4, NODE_HDR + 8 + 4 * 20, 7> {};
struct NumMapL : MapCfg<int64_t, int64_t, int64_t, NODE_HDR + 2 * 16, NODE_HDR + 8 + 4 * 48, 8> {};
struct NumMapC : MapCfg<int8_t, uint64_t, uint64_t, NODE_HDR + 2 * 16, NODE_HDR + 8 + 4 * 48, 7> {};
}

template <class C>
struct Run {
    using V = typename C::V;
    using Sum = typename C::Sum;
    using Tree = typename C::Tree;
    using T = typename Tree::Transient;
    using P = typename Tree::Persistent;
    static constexpr bool fl = std::is_floating_point_v<V>;
    static constexpr long small = 1L << 20;       // floating values are integers below this, so that sums are exact

    struct Key0 {};
    template <class X, bool> struct KeyOf { using type = int; };
    template <class X> struct KeyOf<X, true> { using type = typename X::Key; };
    using K = typename KeyOf<C, C::map>::type;
    struct El { K k; V v; };
    using Model = std::vector<El>;

    Rng& rng;
    T t;
    Model m;
    struct Snap { std::unique_ptr<P> p; Model m; };
    std::vector<Snap> ps;
    explicit Run(Rng& r) : rng(r) {}

    // stored values are copies, not merely equal: a zero keeps its sign
    static bool same(V a, V b) {
        if constexpr (fl) { if (std::signbit(a) != std::signbit(b)) return false; }
        return a == b;
    }
    static long double shown(V v) { return static_cast<long double>(v); }

    // the summand of a value
    static Sum summand(V v) { return static_cast<Sum>(v); }

    static bool legal(Model const& m) {
        if constexpr (std::is_unsigned_v<Sum>) {
            return true;
        } else {
            long double pos = 0, neg = 0;
            for (El const& e : m) {
                long double s = static_cast<long double>(summand(e.v));
                (s < 0 ? neg : pos) += s;
            }
            if constexpr (std::is_floating_point_v<Sum>) return pos < (1 << 24) && -neg < (1 << 24);
            else return pos <= static_cast<long double>(std::numeric_limits<Sum>::max()) && neg >= static_cast<long double>(std::numeric_limits<Sum>::min());
        }
    }

    // does storing this value at pos (or one more element, at -1) keep the history legal
    bool allowed(long pos, V v) {
        if constexpr (fl) { if (!(shown(v) > -small && shown(v) < small)) return false; }
        Model c = m;
        if (pos < 0) c.push_back(El{K{}, v}); else c[static_cast<size_t>(pos)].v = v;
        return legal(c);
    }

    template <class U>
    U pick() {
        using L = std::numeric_limits<U>;
        if constexpr (std::is_same_v<U, bool>) {
            return rng.chance(1, 2);
        } else if constexpr (std::is_floating_point_v<U>) {
            // inside the range of V, fractions included, exact in float
            long lim = std::is_same_v<U, float> || fl ? (1L << 10) : (1L << 30);
            if constexpr (!fl) { long vm = sizeof(V) >= 4 ? lim : static_cast<long>(std::numeric_limits<V>::max()); if (vm < lim) lim = vm; }
            long lo = std::is_unsigned_v<V> ? 0 : -lim + 1;
            U u = static_cast<U>(rng.chance(1, 2) ? rng.range(lo < -9 ? -9 : lo, 9) : rng.range(lo, lim - 1));
            if (!fl && rng.chance(1, 2)) u += static_cast<U>(rng.below(4)) * static_cast<U>(0.25);
            if (!fl && !(static_cast<long double>(u) < static_cast<long double>(lim))) u = 0;
            return u;
        } else {
            if (fl) return static_cast<U>(rng.range(L::is_signed ? -100 : 0, 100));
            switch (rng.below(10)) {
                case 0: return L::max();
                case 1: return L::min();
                case 2: return static_cast<U>(L::max() - static_cast<U>(rng.below(100)));
                case 3: return static_cast<U>(L::min() + static_cast<U>(rng.below(100)));
                case 4: { V x = pickv(); return static_cast<U>(x); }
                case 5: return static_cast<U>(rng.next());
                case 6: return static_cast<U>(std::numeric_limits<V>::max() / (1 + static_cast<int>(rng.below(4))));
                default: return static_cast<U>(rng.range(-9, 9));
            }
        }
    }
    V pickv() {
        if constexpr (fl) {
            if (rng.chance(1, 5)) return rng.chance(1, 2) ? static_cast<V>(-0.0) : V{};
            return static_cast<V>(rng.range(-small / 64, small / 64));
        } else {
            using L = std::numeric_limits<V>;
            switch (rng.below(8)) {
                case 0: return L::max();
                case 1: return L::min();
                case 2: return static_cast<V>(L::max() - static_cast<V>(rng.below(60)));
                case 3: return static_cast<V>(rng.next());
                case 4: return static_cast<V>(L::max() / 2 + static_cast<V>(rng.below(3)));
                default: return static_cast<V>(rng.range(L::is_signed ? -9 : 0, 9));
            }
        }
    }
    // an argument of random type, with the value that is stored for it
    template <class F>
    void with_arg(F&& f) {
        auto go = [&](auto tag) {
            using U = typename decltype(tag)::type;
            U u = pick<U>();
            if constexpr (fl && !std::is_floating_point_v<U>) { if (static_cast<long double>(u) >= small || static_cast<long double>(u) <= -small) u = static_cast<U>(1); }
            f(u, static_cast<V>(u));
        };
        switch (rng.below(12)) {
            case 0: go(Num<int>{}); break;
            case 1: go(Num<unsigned>{}); break;
            case 2: go(Num<long>{}); break;
            case 3: go(Num<size_t>{}); break;
            case 4: go(Num<signed char>{}); break;
            case 5: go(Num<uint16_t>{}); break;
            case 6: go(Num<double>{}); break;
            case 7: go(Num<float>{}); break;
            case 8: go(Num<bool>{}); break;
            default: { V v = pickv(); f(v, v); }
        }
    }

    static Sum total(Model const& m, size_t n) {
        // wraps for unsigned types, exact otherwise
        if constexpr (std::is_integral_v<Sum>) {
            uint64_t s = 0;
            for (size_t i = 0; i < n; ++i) s += static_cast<uint64_t>(summand(m[i].v));
            return static_cast<Sum>(s);
        } else {
            Sum s{};
            for (size_t i = 0; i < n; ++i) s += summand(m[i].v);
            return s;
        }
    }
    static void at(Tag t) { S().cur = t; }
    static V val(typename std::conditional_t<C::map, std::pair<K, V>, V> const& e) {
        if constexpr (C::map) return e.second; else return e;
    }

    template <class Tr>
    void verify(Tr const& tr, Model const& m, char const* what) {
        size_t n = m.size();
        at(C01);
        MON_CHECK(C01, tr.size() == n, "%s: size %zu, expected %zu", what, tr.size(), n);
        size_t i = 0;
        for (auto const& e : tr) {
            MON_CHECK(C01, i < n && same(val(e), m[i].v), "%s: element %zu is %Lg, expected %Lg", what, i, shown(val(e)), i < n ? shown(m[i].v) : -1.0L);
            if constexpr (C::map) MON_CHECK(C02, e.first == m[i].k, "%s: key %zu is %ld, expected %ld", what, i, static_cast<long>(e.first), static_cast<long>(m[i].k));
            ++i;
        }
        MON_CHECK(C01, i == n, "%s: traversal yields %zu elements, expected %zu", what, i, n);
        at(C06);
        MON_CHECK(C06, tr.sum() == total(m, n), "%s: sum is %Lg, expected %Lg", what, static_cast<long double>(tr.sum()), static_cast<long double>(total(m, n)));
        if (n == 0) return;
        for (int q = 0; q < 3; ++q) {
            size_t p = rng.below(n);
            auto it = tr.cbegin();
            it += static_cast<long>(p);
            MON_CHECK(C06, tr.sum_inclusive(it) == total(m, p + 1), "%s: inclusive sum at %zu is %Lg, expected %Lg", what, p, static_cast<long double>(tr.sum_inclusive(it)), static_cast<long double>(total(m, p + 1)));
            MON_CHECK(C06, tr.sum_exclusive(it) == total(m, p), "%s: exclusive sum at %zu is wrong", what, p);
        }
        bool mono = true;
        long double run = 0;
        for (El const& e : m) { if (e.v < 0) mono = false; run += static_cast<long double>(summand(e.v)); }
        if constexpr (std::is_integral_v<Sum>) { if (run > static_cast<long double>(std::numeric_limits<Sum>::max())) mono = false; }
        if (mono) {
            for (int q = 0; q < 2; ++q) {
                Sum target = static_cast<Sum>(static_cast<long double>(total(m, n)) * static_cast<long double>(rng.below(1000)) / 1000.0L);
                if (q == 1) target = total(m, 1 + rng.below(n));
                size_t e = 0;
                while (e < n && total(m, e + 1) < target) ++e;
                auto it = tr.sum_lower_bound_const(target);
                auto ex = tr.cbegin();
                ex += static_cast<long>(e);
                MON_CHECK(C06, it == ex, "%s: sum_lower_bound does not find position %zu", what, e);
            }
        }
        at(C07);
        auto less = [](El const& a, El const& b) { return a.v < b.v; };
        V lo = std::min_element(m.begin(), m.end(), less)->v, hi = std::max_element(m.begin(), m.end(), less)->v;
        MON_CHECK(C07, tr.min() == lo, "%s: min is %Lg, expected %Lg", what, shown(tr.min()), shown(lo));
        MON_CHECK(C07, tr.max() == hi, "%s: max is %Lg, expected %Lg", what, shown(tr.max()), shown(hi));
        MON_CHECK(C07, val(*tr.min_element_const()) == lo && val(*tr.max_element_const()) == hi, "%s: min_element or max_element", what);
        size_t a = rng.below(n), b = rng.below(n);
        if (a > b) std::swap(a, b);
        ++b;
        auto ia = tr.cbegin(), ib = tr.cbegin();
        ia += static_cast<long>(a);
        ib += static_cast<long>(b);
        auto mb = m.begin();
        lo = std::min_element(mb + static_cast<long>(a), mb + static_cast<long>(b), less)->v;
        hi = std::max_element(mb + static_cast<long>(a), mb + static_cast<long>(b), less)->v;
        MON_CHECK(C07, tr.min(ia, ib) == lo && tr.max(ia, ib) == hi, "%s: min or max of [%zu,%zu) is %Lg or %Lg, expected %Lg and %Lg", what, a, b, shown(tr.min(ia, ib)), shown(tr.max(ia, ib)), shown(lo), shown(hi));
        if constexpr (!C::map) {
            at(C05);
            size_t p = rng.below(n);
            MON_CHECK(C05, same(tr.at_index(p), m[p].v), "%s: at_index(%zu)", what, p);
        }
    }

    void did(char const* op, long a, V v, Tag tag = C06) {
        log_op(op, a, static_cast<long>(v), static_cast<long>(m.size()));
        S().op_counts[op]++;
        S().steps++;
        at(tag);
        int mag = 0;
        for (long double x = shown(v) < 0 ? -shown(v) : shown(v); x >= 1; x /= 16) ++mag;
        context(mix(hash_str(op), static_cast<uint64_t>(mag + 20 * (shown(v) < 0) + 64 * static_cast<long>(t.depth()) + 1024 * !ps.empty())));
    }

    void snapshot() {
        if (ps.size() >= 3) ps.erase(ps.begin() + static_cast<long>(rng.below(ps.size())));
        ps.push_back(Snap{std::make_unique<P>(t.persistent()), m});
    }

    // what op= does to a plain value, if that is defined and legal
    template <class U>
    static bool apply(int how, V& x, U const& a) {
        if constexpr (std::is_floating_point_v<U> || fl) {
            long double r = how == 0 ? static_cast<long double>(x) + static_cast<long double>(a) : how == 1 ? static_cast<long double>(x) - static_cast<long double>(a) : static_cast<long double>(x) * static_cast<long double>(a);
            if constexpr (fl) { if (r != static_cast<long double>(static_cast<long>(r)) || !(r > -small && r < small)) return false; }
            else {
                // conversions to float and back must stay inside the range
                if (!(static_cast<long double>(x) < (1L << 52) && static_cast<long double>(x) > -(1L << 52))) return false;
                if (!(r < 0.9L * static_cast<long double>(std::numeric_limits<V>::max()) && r > 0.9L * static_cast<long double>(std::numeric_limits<V>::min()))) return false;
                if (std::is_unsigned_v<V> && r < 0) return false;
            }
        } else {
            using R = std::common_type_t<decltype(+x), decltype(+a)>;
            if constexpr (std::is_signed_v<R>) {
                I128 p = static_cast<R>(x), q = static_cast<R>(a), r = how == 0 ? p + q : how == 1 ? p - q : p * q;
                if (r > std::numeric_limits<R>::max() || r < std::numeric_limits<R>::min()) return false;
            }
        }
        if (how == 0) x += a; else if (how == 1) x -= a; else x *= a;
        return true;
    }

    void step_seq() {
        long n = static_cast<long>(m.size());
        int how = static_cast<int>(rng.below(24));
        bool room = t.depth() < t.max_depth() && n < 200;
        if (how < 8 || n == 0) {
            if (!room) { erase_some(); return; }
            with_arg([&](auto u, V v) {
                if (!allowed(-1, v)) return;
                long p = rng.range(0, n);
                switch (how) {
                    case 0: did("push_back", n, v); t.push_back(u); p = n; break;
                    case 1: did("push_front", 0, v); t.push_front(u); p = 0; break;
                    case 2: did("emplace_back", n, v); t.emplace_back(u); p = n; break;
                    case 3: did("emplace_front", 0, v); t.emplace_front(u); p = 0; break;
                    case 4: { did("insert(it)", p, v); auto it = t.begin(); it += p; t.insert(it, u); MON_CHECK(C01, same(it.get(), v), "the iterator does not denote the inserted element"); break; }
                    case 5: { did("functional insert_index", p, v); auto q = t.persistent().insert_index(static_cast<size_t>(p), u); t = q.transient(); break; }
                    case 6: { did("functional push_back", n, v); auto q = t.persistent().push_back(u); t = q.transient(); p = n; break; }
                    default: did("insert_index", p, v); t.insert_index(static_cast<size_t>(p), u);
                }
                m.insert(m.begin() + p, El{K{}, v});
            });
            return;
        }
        if (how == 23) { erase_some(); return; }
        if (how < 12 && n > 0 && !room) { erase_some(); return; }
        long p = rng.range(0, n - 1);
        El& e = m[static_cast<size_t>(p)];
        auto it = t.begin();
        it += p;
        size_t i = static_cast<size_t>(p);
        if (how < 17) {
            with_arg([&](auto u, V v) {
                if (!allowed(p, v)) return;
                switch (how) {
                    case 8: did("assign(it)", p, v); t.assign(it, u); break;
                    case 9: did("assign_index", p, v); t.assign_index(i, u); break;
                    case 10: did("update(it)", p, v); t.update(it, [&](V const& old) { MON_CHECK(C01, same(old, e.v), "the updater is given another value"); return u; }); break;
                    case 11: did("update_index", p, v); t.update_index(i, [&](V const&) { return u; }); break;
                    case 12: did("tree[i] =", p, v); t[i] = u; break;
                    case 13: did("*it =", p, v); *it = u; break;
                    case 14: { did("functional assign_index", p, v); auto q = t.persistent().assign_index(i, u); t = q.transient(); break; }
                    case 15: { did("functional update_index", p, v); auto q = t.persistent().update_index(i, [&](V const&) { return u; }); t = q.transient(); break; }
                    default: { did("functional assign", p, v); auto s = t.persistent(); auto c = s.cbegin(); c += p; auto q = s.assign(c, u); t = q.transient(); }
                }
                Tag tag = how == 12 || how == 13 ? C17 : how == 9 || how == 11 || how >= 14 ? C05 : C01;
                MON_CHECK(tag, same(t.at_index(i), v), "the stored value is %Lg, expected %Lg", shown(t.at_index(i)), shown(v));
                e.v = v;
            });
        } else if (how < 21) {
            with_arg([&](auto u, V) {
                using U = decltype(u);
                if constexpr (!std::is_same_v<U, bool>) {
                    V x = e.v;
                    int k = static_cast<int>(rng.below(3));
                    if (!apply(k, x, u) || !allowed(p, x)) return;
                    bool px = rng.chance(1, 2);
                    static char const* const names[2][3] = {{"tree[i] +=", "tree[i] -=", "tree[i] *="}, {"*it +=", "*it -=", "*it *="}};
                    did(names[px][k], p, x, C17);
                    if (px) { if (k == 0) *it += u; else if (k == 1) *it -= u; else *it *= u; }
                    else { if (k == 0) t[i] += u; else if (k == 1) t[i] -= u; else t[i] *= u; }
                    MON_CHECK(C17, same(t.at_index(i), x), "a compound assignment stored %Lg, expected %Lg", shown(t.at_index(i)), shown(x));
                    e.v = x;
                }
            });
        } else {
            V x = e.v;
            bool inc = rng.chance(1, 2);
            if (!apply(inc ? 0 : 1, x, 1) || !allowed(p, x)) return;
            did(inc ? "++" : "--", p, x, C17);
            V got;
            switch (rng.below(4)) {
                case 0: got = inc ? ++t[i] : --t[i]; break;
                case 1: got = inc ? ++*it : --*it; break;
                case 2: got = inc ? t[i]++ : t[i]--; MON_CHECK(C17, same(got, e.v), "a post-increment returned another value"); got = x; break;
                default: got = inc ? (*it)++ : (*it)--; MON_CHECK(C17, same(got, e.v), "a post-increment returned another value"); got = x;
            }
            MON_CHECK(C17, same(got, x) && same(t.at_index(i), x), "++ or -- gave %Lg, expected %Lg", shown(got), shown(x));
            e.v = x;
        }
    }

    void erase_some() {
        if (m.empty()) return;
        long k = rng.chance(1, 6) ? static_cast<long>(m.size()) : rng.range(1, 6);
        for (; k > 0 && !m.empty(); --k) {
            long n = static_cast<long>(m.size()), p = rng.range(0, n - 1);
            V v = m[static_cast<size_t>(p)].v;
            if constexpr (!C::map) {
                switch (rng.below(4)) {
                    case 0: p = 0; v = m[0].v; did("pop_front", p, v); MON_CHECK(C01, same(t.pop_front(), v), "pop_front"); break;
                    case 1: p = n - 1; v = m[static_cast<size_t>(p)].v; did("pop_back", p, v); MON_CHECK(C01, same(t.pop_back(), v), "pop_back"); break;
                    case 2: { did("erase(it)", p, v); auto it = t.begin(); it += p; t.erase(it); break; }
                    default: did("erase_index", p, v); t.erase_index(static_cast<size_t>(p));
                }
            } else {
                did("erase_key", p, v);
                t.erase_key(m[static_cast<size_t>(p)].k);
            }
            m.erase(m.begin() + p);
        }
    }

    void step_map() {
        if constexpr (C::map) {
            long n = static_cast<long>(m.size());
            if (rng.chance(1, 12) || n > 150 || t.depth() >= t.max_depth()) { erase_some(); return; }
            auto pos = [&](K k) { return std::lower_bound(m.begin(), m.end(), k, [](El const& a, K b) { return a.k < b; }) - m.begin(); };
            with_arg([&](auto u, V v) {
                // keys of another type, too: they are converted to the tree's
                long kk = n > 0 && rng.chance(1, 2) ? static_cast<long>(m[rng.below(static_cast<uint64_t>(n))].k) : rng.chance(1, 8) ? static_cast<long>(rng.chance(1, 2) ? std::numeric_limits<K>::max() : std::numeric_limits<K>::min()) : rng.range(std::is_signed_v<K> ? -100 : 0, 120);
                K k = static_cast<K>(kk);
                long p = pos(k);
                bool has = p < n && m[static_cast<size_t>(p)].k == k;
                int how = static_cast<int>(rng.below(10));
                bool replaces = has && how != 0 && how != 5;
                if (how == 0 && has) { did("insert_v of a present key", p, v); t.insert_v(kk, u); return; }
                if (!has && how >= 6 && how != 9) how = 1;
                if (how == 5 && has) how = 1, replaces = true;
                if (!allowed(replaces ? p : -1, v)) return;
                V old = has ? m[static_cast<size_t>(p)].v : V{};
                bool stored = true;
                switch (how) {
                    case 0: did("insert_v", p, v); t.insert_v(kk, u); break;
                    case 1: did("insert_or_assign", p, v); t.insert_or_assign(k, u); break;
                    case 2: did("insert_or_assign(other key type)", p, v); t.insert_or_assign(kk, u); break;
                    case 3: did("insert_or_assign(pair)", p, v); t.insert_or_assign(std::make_pair(kk, u)); break;
                    case 4: did("insert_or_assign(piecewise)", p, v); t.insert_or_assign(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(u)); break;
                    case 5: { did("functional insert_or_assign", p, v); auto q = t.persistent().insert_or_assign(k, u); t = q.transient(); break; }
                    case 6: did("assign_v", p, v); t.assign_v(k, u); break;
                    case 7: did("update_key", p, v); t.update_key(k, [&](V const& o) { MON_CHECK(C02, o == old, "the updater is given another value"); return u; }); break;
                    case 8: {
                        V x = old;
                        if constexpr (!std::is_same_v<decltype(u), bool>) {
                            int c = static_cast<int>(rng.below(3));
                            if (!apply(c, x, u) || !allowed(p, x)) { stored = false; break; }
                            did("tree[key] op=", p, x, C17);
                            if (c == 0) t[k] += u; else if (c == 1) t[k] -= u; else t[k] *= u;
                            v = x;
                        } else stored = false;
                        break;
                    }
                    default: did("tree[key] =", p, v); t[k] = u;
                }
                if (!stored) return;
                if (has) m[static_cast<size_t>(p)].v = v;
                else m.insert(m.begin() + p, El{k, v});
                V got = t.at_key(k);
                MON_CHECK(how >= 8 ? C17 : C02, same(got, v), "at_key gives %Lg, expected %Lg", shown(got), shown(v));
            });
        }
    }

    void episode() {
        // a base of small values, so that one extreme value dominates
        long base = rng.range(0, 60);
        if constexpr (!C::map) for (long i = 0; i < base; ++i) { V v = static_cast<V>(rng.below(2)); if (allowed(-1, v)) { t.push_back(v); m.push_back(El{K{}, v}); } }
        int steps = static_cast<int>(rng.range(10, 120));
        int verify_every = static_cast<int>(rng.range(1, 8));
        for (int i = 0; i < steps; ++i) {
            S().step = i;
            if (rng.chance(1, 10)) snapshot();
            if constexpr (C::map) step_map(); else step_seq();
            if (i % verify_every == 0) verify(t, m, "the tree");
            if (!ps.empty() && rng.chance(1, 10)) { auto& s = ps[rng.below(ps.size())]; verify(*s.p, s.m, "a snapshot"); }
        }
        verify(t, m, "the tree at the end");
        for (auto& s : ps) verify(*s.p, s.m, "a snapshot at the end");
    }
};

#define STR2(x) #x
#define STR(x) STR2(x)
int main(int argc, char** argv) {
    mon::init(argc, argv);
    mon::episodes(STR(CFG), S().episodes, [](Rng& rng) { Run<cfg::CFG> r(rng); r.episode(); });
    return mon::finish();
}
