// C17: every operator of the proxy references, against the same operator on the plain value.
#include "configs.hpp"
using namespace eng;

namespace cfg {
// mapped values and elements of several arithmetic types
struct PxSeq : Base {
    using Tr = tr::ScalarT<int64_t>;
    using Tree = BppTree<int64_t, NODE_HDR + 3 * 8, inb(4, 8 + 8 + 8 + 8 + 8), 6>::mixins<IndexedBuilder<int32_t>, SummedBuilder<>, MinBuilder<>, MaxBuilder<>>;
    static constexpr bool indexed = true, summed = true, hasmin = true, hasmax = true, nonneg = false;
};
struct PxUns : Base {
    using Tr = tr::ScalarT<uint32_t>;
    using Tree = BppTree<uint32_t, NODE_HDR + 2 * 4, inb(4, 8 + 8 + 4), 6>::mixins<IndexedBuilder<>, SummedBuilder<>>;
    static constexpr bool indexed = true, summed = true;
};
struct PxMap : Base {
    using Tr = tr::PairT<int32_t, int64_t, 0>;
    using Tree = BppTree<PR<int32_t, int64_t>, NODE_HDR + 2 * 16, inb(4, 8 + 4 + 8 + 8 + 8 + 8), 6>::mixins<OrderedBuilder<>, IndexedBuilder<>, SummedBuilder<PairExtractor<1>>, MinBuilder<PairExtractor<1>>, MaxBuilder<PairExtractor<1>>>;
    static constexpr bool ordered = true, indexed = true, summed = true, hasmin = true, hasmax = true, piecewise = true, nonneg = false;
};
struct PxTup : Base {
    using Tr = tr::TupT<uint32_t, std::string, 1>;
    using Tree = BppTree<std::tuple<uint32_t, std::string>, NODE_HDR + 3 * 40, inb(4, 8 + 32 + 4), 6>::mixins<OrderedBuilder<TupleExtractor<1>>::binary_search<true>, SummedBuilder<TupleExtractor<0>>>;
    static constexpr bool ordered = true, summed = true;
};
// strings: concatenation and comparison
struct PxStr : Base {
    using Tr = tr::ScalarT<std::string>;
    using Tree = BppTree<std::string, NODE_HDR + 2 * 32, inb(4, 8 + 8 + 32), 6>::mixins<IndexedBuilder<>, MinBuilder<>>;
    static constexpr bool indexed = true, hasmin = true;
};
// pairs: no arithmetic, but swap and comparison
struct PxPair : Base {
    using Tr = tr::PairT<int32_t, int32_t, 0>;
    using Tree = BppTree<PR<int32_t, int32_t>, NODE_HDR + 3 * 8, inb(4, 8 + 4), 6>::mixins<SummedBuilder<PairExtractor<1>>>;
    static constexpr bool summed = true;
};
}

template <class C>
struct Ops {
    using En = Engine<C>;
    using Tr = typename C::Tr;
    using V = typename Tr::V;
    using T = typename En::T;
    using P = typename En::P;
    static constexpr bool bkey = En::bkey, bidx = En::bidx;

    static void did(char const* op, char const* via, long a, long b) {
        static std::map<std::pair<char const*, char const*>, std::string> names;
        std::string& nm = names[{op, via}];
        if (nm.empty()) nm = std::string(op) + " on " + via;
        log_op(nm.c_str(), a, b);
        S().op_counts[nm.c_str()]++;
        S().steps++;
        S().cur = C17;
    }

    // one operator on a proxy of integral value x; px() makes the proxy, nx receives the expected new value.
    // other() gives a value of the same tree through another proxy of the same kind with value y.
    template <class I, class Px, class Other>
    static void integral(En& e, char const* via, I x, Px&& px, I y, Other&& other, I& nx, long pos, bool same) {
        Rng& rng = e.rng;
        long lim = std::min<long>(C::mlim, std::is_same_v<V, I> ? std::min<long>(e.dom, C::mlim) : C::mlim);
        auto fits = [&](long v) { return C::nonneg ? v >= 0 && v < lim : v > -lim && v < lim; };
        I u = static_cast<I>(rng.range(C::nonneg ? 0 : -20, 20));
        long r = 0;
        bool had = true;
        int how = static_cast<int>(rng.below(26));
        nx = x;
        auto checked = [&](char const* op, bool ok, I got) {
            MON_CHECK(C17, ok, "%s on %s at %ld with value %ld and operand %ld gives %ld", op, via, pos, static_cast<long>(x), static_cast<long>(u), static_cast<long>(got));
        };
        // expected values computed on long; operations that would leave the model's domain are skipped
#define COMPOUND(op, sym) { r = static_cast<long>(static_cast<I>(x sym u)); if (!fits(r)) { had = false; break; } did(op, via, pos, static_cast<long>(u)); I got = (px() sym##= u).get(); nx = static_cast<I>(r); checked(op, got == nx, got); break; }
        switch (how) {
            case 0: COMPOUND("+=", +)
            case 1: COMPOUND("-=", -)
            case 2: COMPOUND("*=", *)
            case 3: if (u == 0) { had = false; break; } COMPOUND("/=", /)
            case 4: if (u == 0) { had = false; break; } COMPOUND("%=", %)
            case 5: COMPOUND("^=", ^)
            case 6: COMPOUND("&=", &)
            case 7: COMPOUND("|=", |)
            case 8: { if (x < 0) { had = false; break; } u = static_cast<I>(rng.range(0, 3)); COMPOUND("<<=", <<) }
            case 9: { if (x < 0) { had = false; break; } u = static_cast<I>(rng.range(0, 5)); COMPOUND(">>=", >>) }
            case 10: { if (!fits(static_cast<long>(x) + 1)) { had = false; break; } did("++pre", via, pos, 0); I got = (++px()).get(); nx = static_cast<I>(x + 1); checked("++pre", got == nx, got); break; }
            case 11: { if (!fits(static_cast<long>(x) - 1)) { had = false; break; } did("--pre", via, pos, 0); I got = (--px()).get(); nx = static_cast<I>(x - 1); checked("--pre", got == nx, got); break; }
            case 12: { if (!fits(static_cast<long>(x) + 1)) { had = false; break; } did("post++", via, pos, 0); I got = px()++; nx = static_cast<I>(x + 1); checked("post++", got == x, got); break; }
            case 13: { if (!fits(static_cast<long>(x) - 1)) { had = false; break; } did("post--", via, pos, 0); I got = px()--; nx = static_cast<I>(x - 1); checked("post--", got == x, got); break; }
            case 14: {
                did("binary operators with a value", via, pos, static_cast<long>(u));
                auto a = px();
                bool ok = (a + u) == x + u && (u + a) == u + x && (a - u) == x - u && (u - a) == u - x && (a * u) == x * u && (u * a) == u * x
                          && (a ^ u) == (x ^ u) && (u ^ a) == (u ^ x) && (a & u) == (x & u) && (u & a) == (u & x) && (a | u) == (x | u) && (u | a) == (u | x);
                checked("binary operator", ok, x);
                break;
            }
            case 15: {
                if (u == 0 || x == 0) { had = false; break; }
                did("/ and % with a value", via, pos, static_cast<long>(u));
                auto a = px();
                checked("/ or %", (a / u) == x / u && (a % u) == x % u && (u / a) == u / x && (u % a) == u % x, x);
                break;
            }
            case 16: {
                if (x < 0 || x > 20) { had = false; break; }
                I s = static_cast<I>(rng.range(0, 6));
                did("<< and >> with a value", via, pos, static_cast<long>(s));
                auto a = px();
                checked("<< or >>", (a << s) == (x << s) && (a >> s) == (x >> s) && (s << a) == (s << x) && (s >> a) == (s >> x), x);
                break;
            }
            case 17: case 18: {
                if (rng.chance(1, 3)) u = x;
                did("comparison with a value", via, pos, static_cast<long>(u));
                auto a = px();
                bool ok = (a == u) == (x == u) && (u == a) == (u == x) && (a < u) == (x < u) && (u < a) == (u < x) && (a > u) == (x > u) && (u > a) == (u > x)
                          && (a <= u) == (x <= u) && (u <= a) == (u <= x) && (a >= u) == (x >= u) && (u >= a) == (u >= x);
                checked("comparison", ok, x);
                break;
            }
            case 19: {
                did("comparison of two proxies", via, pos, static_cast<long>(y));
                auto a = px();
                auto b = other();
                bool ok = (a == b) == (x == y) && (a < b) == (x < y) && (a > b) == (x > y) && (a <= b) == (x <= y) && (a >= b) == (x >= y);
                checked("comparison of proxies", ok, y);
                break;
            }
            case 20: {
                did("arithmetic on two proxies", via, pos, static_cast<long>(y));
                auto a = px();
                auto b = other();
                bool ok = (a + b) == x + y && (a - b) == x - y && (a * b) == x * y && (a ^ b) == (x ^ y) && (a & b) == (x & y) && (a | b) == (x | y);
                if (y != 0) ok = ok && (a / b) == x / y && (a % b) == x % y;
                checked("arithmetic on proxies", ok, y);
                break;
            }
            case 21: {
                did("chained compound assignment", via, pos, static_cast<long>(u));
                long one = static_cast<long>(x) + static_cast<long>(u), two = one * 2;
                if (!fits(one) || !fits(two)) { had = false; break; }
                auto a = px();
                a += u;
                a *= static_cast<I>(2);
                nx = static_cast<I>(two);
                I got = a.get();
                checked("+= then *=", got == nx, got);
                break;
            }
            case 22: {
                // the value of another element as operand
                long s = static_cast<long>(x) + static_cast<long>(y);
                if (!fits(s)) { had = false; break; }
                bool whole = rng.chance(1, 2);
                did(whole ? "+= other" : "+= other.get()", via, pos, static_cast<long>(y));
                // the second proxy is read while the first is written
                if (whole) px() += other();
                else px() += other().get();
                nx = static_cast<I>(s);
                I got = px().get();
                checked("+= other", got == nx, got);
                I read = other().get();
                checked("the right operand of += other", read == (same ? nx : y), read);
                break;
            }
            case 23: {
                long nv = C::nonneg ? rng.range(0, lim - 1) : rng.range(-(lim - 1), lim - 1);
                did("= value", via, pos, nv);
                I v = static_cast<I>(nv);
                px() = v;
                nx = v;
                I got = px().get();
                checked("=", got == nx, got);
                break;
            }
            case 24: {
                did("read", via, pos, 0);
                I got = px();
                I got2 = px().get();
                checked("implicit conversion", got == x && got2 == x, got);
                break;
            }
            default: {
                did("= other.get()", via, pos, static_cast<long>(y));
                px() = other().get();
                nx = y;
                I got = px().get();
                checked("= other.get()", got == nx, got);
            }
        }
#undef COMPOUND
        if (had) context(mix(hash_str(via), static_cast<uint64_t>(how) * 64 + static_cast<uint64_t>(e.ps.size())));
    }

    static void step(En& e) {
        Rng& rng = e.rng;
        if (e.ts.empty()) return;
        auto& s = *e.ts[rng.below(e.ts.size())];
        T& t = *s.t;
        Model& m = s.m;
        if (m.empty()) return;
        long n = static_cast<long>(m.size());
        int rounds = static_cast<int>(rng.range(1, 6));
        if (rng.chance(1, 3)) e.take_snapshot(s);
        for (int rd = 0; rd < rounds; ++rd) {
            long pos = rng.range(0, n - 1), o = rng.range(0, n - 1);
            E& me = m[static_cast<size_t>(pos)];
            E ot = m[static_cast<size_t>(o)];
            int via = static_cast<int>(rng.below(4));
            if constexpr (!Tr::has_mapped && std::is_integral_v<V>) {
                V nx{};
                if (via == 0 && bidx) {
                    if constexpr (bidx) {
                        using Sz = std::decay_t<decltype(t.order(t.cend()))>;
                        Sz i = static_cast<Sz>(pos), j = static_cast<Sz>(o);
                        integral<V>(e, "tree[index]", static_cast<V>(me.k), [&]() -> decltype(auto) { return t[i]; }, static_cast<V>(ot.k), [&]() -> decltype(auto) { return t[j]; }, nx, pos, pos == o);
                    }
                } else if (via == 1) {
                    auto it = e.template iter_at<typename T::reverse_iterator>(t, m, pos);
                    auto jt = e.template iter_at<typename T::reverse_iterator>(t, m, o);
                    integral<V>(e, "*reverse it", static_cast<V>(me.k), [&]() -> decltype(auto) { return *it; }, static_cast<V>(ot.k), [&]() -> decltype(auto) { return *jt; }, nx, pos, pos == o);
                } else {
                    auto it = e.template iter_at<typename T::iterator>(t, m, pos);
                    auto jt = e.template iter_at<typename T::iterator>(t, m, o);
                    integral<V>(e, "*it", static_cast<V>(me.k), [&]() -> decltype(auto) { return *it; }, static_cast<V>(ot.k), [&]() -> decltype(auto) { return *jt; }, nx, pos, pos == o);
                    MON_CHECK(C17, it.get() == nx, "the iterator a proxy was made from reads another value");
                }
                me.k = me.m = static_cast<long>(nx);
            }
            if constexpr (C::ordered && bkey && Tr::has_mapped && std::is_integral_v<typename Tr::M>) {
                using M = typename Tr::M;
                auto k1 = Tr::mkkey(me.k), k2 = Tr::mkkey(ot.k);
                M nx{};
                integral<M>(e, "tree[key]", static_cast<M>(me.m), [&]() -> decltype(auto) { return t[k1]; }, static_cast<M>(ot.m), [&]() -> decltype(auto) { return t[k2]; }, nx, pos, pos == o);
                me.m = static_cast<long>(nx);
            }
            if constexpr (!C::ordered) {
                if (via == 2 && e.ts.size() > 1) {
                    // between two trees, often at the same position
                    auto& s2 = *e.ts[rng.below(e.ts.size())];
                    if (&s2 != &s && !s2.m.empty()) {
                        long q = rng.chance(1, 2) && pos < static_cast<long>(s2.m.size()) ? pos : rng.range(0, static_cast<long>(s2.m.size()) - 1);
                        did("swap between trees", "*it", pos, q);
                        E& mq = s2.m[static_cast<size_t>(q)];
                        if (rng.chance(1, 3)) {
                            auto a = e.template iter_at<typename T::reverse_iterator>(t, m, pos);
                            auto b = e.template iter_at<typename T::reverse_iterator>(*s2.t, s2.m, q);
                            swap(*a, *b);
                            MON_CHECK(C17, En::ev_of(a.get()) == mq && En::ev_of(b.get()) == me, "swap(*it, *other) of two trees leaves other values");
                        } else {
                            auto a = e.template iter_at<typename T::iterator>(t, m, pos);
                            auto b = e.template iter_at<typename T::iterator>(*s2.t, s2.m, q);
                            swap(*a, *b);
                            MON_CHECK(C17, En::ev_of(a.get()) == mq && En::ev_of(b.get()) == me, "swap(*it, *other) of two trees leaves other values");
                        }
                        std::swap(me, mq);
                        e.check_seq(C17, *s2.t, s2.m, "after a swap between trees");
                        context(mix(hash_str("swap between trees"), static_cast<uint64_t>(e.ps.size())));
                    }
                }
                if (via == 3) {
                    did("swap", "*it", pos, o);
                    if (rng.chance(1, 3)) {
                        auto a = e.template iter_at<typename T::reverse_iterator>(t, m, pos);
                        auto b = e.template iter_at<typename T::reverse_iterator>(t, m, o);
                        swap(*a, *b);
                    } else {
                        auto a = e.template iter_at<typename T::iterator>(t, m, pos);
                        auto b = e.template iter_at<typename T::iterator>(t, m, o);
                        swap(*a, *b);
                        if (rng.chance(1, 4)) { std::iter_swap(a, b); std::swap(m[static_cast<size_t>(pos)], m[static_cast<size_t>(o)]); }
                        std::swap(m[static_cast<size_t>(pos)], m[static_cast<size_t>(o)]);
                        MON_CHECK(C17, En::ev_of(a.get()) == m[static_cast<size_t>(pos)] && En::ev_of(b.get()) == m[static_cast<size_t>(o)], "swap(*it, *other) leaves other values");
                        std::swap(m[static_cast<size_t>(pos)], m[static_cast<size_t>(o)]);
                    }
                    std::swap(m[static_cast<size_t>(pos)], m[static_cast<size_t>(o)]);
                    context(mix(hash_str("swap"), static_cast<uint64_t>(e.ps.size())));
                }
            }
            if constexpr (std::is_same_v<V, std::string>) {
                ot = m[static_cast<size_t>(o)];  // a swap may have come before
                auto it = e.template iter_at<typename T::iterator>(t, m, pos);
                auto jt = e.template iter_at<typename T::iterator>(t, m, o);
                std::string x = Tr::mk(me.k, me.k), y = Tr::mk(ot.k, ot.k);
                using Sz = std::decay_t<decltype(t.order(t.cend()))>;
                Sz i = static_cast<Sz>(pos), j = static_cast<Sz>(o);
                did("string operators", "*it and tree[index]", pos, o);
                bool ok = (*it + y) == x + y && (y + *it) == y + x && (*it == y) == (x == y) && (*it < y) == (x < y) && (y <= *it) == (y <= x) && (*it > *jt) == (x > y)
                          && (t[i] + y) == x + y && (t[i] >= t[j]) == (x >= y) && (t[i] == t[j]) == (x == y) && (*it + *jt) == x + y;
                MON_CHECK(C17, ok, "operators on proxies of strings give another result at %ld, %ld", pos, o);
                std::string got;
                switch (rng.below(3)) {
                    case 0: *it += y; got = *it; MON_CHECK(C17, got == x + y, "+= on a proxy of a string"); *it = x; break;
                    case 1: t[i] += y; got = t[i].get(); MON_CHECK(C17, got == x + y, "+= on tree[index] of a string"); t[i] = x; break;
                    default: *it = *jt; me = m[static_cast<size_t>(o)];
                }
                context(mix(hash_str("string"), static_cast<uint64_t>(e.ps.size())));
            }
        }
        e.check_seq(C17, t, m, "after writes through proxies");
        e.derived(t, m, C17);
        if (rng.chance(1, 3)) e.check_all(C17, "after writes through proxies");
    }
};

#define STR2(x) #x
#define STR(x) STR2(x)
int main(int argc, char** argv) {
    mon::init(argc, argv);
    eng::set_profile();
    profile().steps = 160;
    profile().derived = 20;
    run_config<cfg::CFG>(STR(CFG), &Ops<cfg::CFG>::step, 100);
    return mon::finish();
}
