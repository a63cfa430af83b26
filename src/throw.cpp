// C14: updaters and comparators that throw in the middle of an operation.
#include "configs.hpp"
using namespace eng;

struct Boom {};
struct Fuse {
    static inline long left = -1;      // comparisons until the next throw; -1: never
    static inline uint64_t thrown = 0;
    static void tick() {
        if (left >= 0 && left-- == 0) { left = -1; ++thrown; throw Boom{}; }
    }
};
template <bool desc>
struct ThrowLess {
    template <class A, class B> bool operator()(A const& a, B const& b) const {
        Fuse::tick();
        if constexpr (desc) return b < a;
        else return a < b;
    }
};

namespace cfg {
struct ThMap : Base {
    using Tr = tr::PairT<int32_t, int32_t, 0>;
    using Tree = BppTree<PR<int32_t, int32_t>, NODE_HDR + 2 * 8, inb(4, 8 + 4 + 8 + 4 + 4 + 4), 6, false>::mixins<OrderedBuilder<PairExtractor<0>, ThrowLess<false>>, IndexedBuilder<>, SummedBuilder<PairExtractor<1>>, MinBuilder<PairExtractor<1>>, MaxBuilder<PairExtractor<1>>>;
    static constexpr bool ordered = true, indexed = true, summed = true, hasmin = true, hasmax = true, piecewise = true;
};
struct ThStr : Base {
    using Tr = tr::PairT<std::string, std::string, 0>;
    using Tree = BppTree<PR<std::string, std::string>, NODE_HDR + 3 * 64, inb(4, 8 + 32 + 32), 6, false>::mixins<MinBuilder<PairExtractor<1>>, OrderedBuilder<PairExtractor<0>, ThrowLess<false>, std::true_type>>;
    static constexpr bool ordered = true, hasmin = true, piecewise = true;
};
struct ThSet : Base {
    using Tr = tr::ScalarT<uint32_t>;
    using Tree = BppTree<uint32_t, NODE_HDR + 1 * 4, inb(4, 8 + 4 + 8 + 4), 7, false>::mixins<IndexedBuilder<int32_t>, OrderedBuilder<ValueExtractor, ThrowLess<true>>, SummedBuilder<>>;
    static constexpr bool ordered = true, indexed = true, summed = true, desc = true, key_bracket = false;
    static constexpr Sel sumsel = SEL_K;
};
struct ThTrk : Base {
    using Tr = tr::PairT<int32_t, tr::Val, 0>;
    using Tree = BppTree<PR<int32_t, tr::Val>, NODE_HDR + 4 * 24, inb(5, 8 + 4 + 8), 5, false>::mixins<OrderedBuilder<PairExtractor<0>, ThrowLess<false>, std::true_type>, IndexedBuilder<>>;
    static constexpr bool ordered = true, indexed = true, tracked = true, piecewise = true;
    static tr::Val const& tracked_of(PR<int32_t, tr::Val> const& v) { return v.second; }
    static long live() { return tr::Val::live_count; }
};
struct ThSeq : Base {
    using Tr = tr::ScalarT<int64_t>;
    using Tree = BppTree<int64_t, NODE_HDR + 3 * 8, inb(4, 8 + 8 + 8 + 8 + 8), 6, false>::mixins<IndexedBuilder<>, SummedBuilder<>, MinBuilder<>, MaxBuilder<>>;
    static constexpr bool indexed = true, summed = true, hasmin = true, hasmax = true;
};
struct ThOwn : Base {
    using Tr = tr::ScalarT<tr::NoDefault>;
    using Tree = BppTree<tr::NoDefault, NODE_HDR + 2 * 8, inb(4, 8), 6, false>::mixins<>;
};
}

template <class C>
struct Thrower {
    using En = Engine<C>;
    using Tr = typename C::Tr;
    using V = typename Tr::V;
    using T = typename En::T;
    using P = typename En::P;
    static constexpr bool bkey = En::bkey;

    static void arm(En& e, size_t n) {
        long deep = 4;
        for (size_t x = n; x; x >>= 1) deep += 4;
        Fuse::left = e.rng.chance(1, 8) ? 0 : e.rng.range(0, deep);
    }
    // runs f; true if it threw Boom. Anything else that escapes is reported by the episode driver.
    template <class F>
    static bool blows(En& e, char const* what, long a, long b, F&& f) {
        log_op(what, a, b);
        S().cur = C14;
        S().op_counts[what]++;
        S().steps++;
        bool threw = false;
        uint64_t before = Fuse::thrown;
        try {
            f();
        } catch (Boom const&) {
            threw = true;
        }
        Fuse::left = -1;
        MON_CHECK(C14, threw == (Fuse::thrown != before), "%s swallows the exception of the user's function", what);
        if (threw) S().counters["exceptions delivered"]++;
        context(mix(hash_str(what), static_cast<uint64_t>(a * 64 + (threw ? 1 : 0) + 2 * static_cast<long>(e.ts.size()))));
        return threw;
    }

    static void comparator_t(En& e) {
        if constexpr (C::ordered) {
            Rng& rng = e.rng;
            if (e.ts.empty()) return;
            auto& s = *e.ts[rng.below(e.ts.size())];
            T& t = *s.t;
            T const& ct = t;
            size_t n = s.m.size();
            typename En::Edit ed;
            int how = static_cast<int>(rng.below(9));
            bool full = t.depth() >= t.max_depth() || static_cast<long>(n) >= C::cap;
            if (how < 3 && !full) {
                long k = e.absent_key(s.m);
                if (k < 0) return;
                ed.kind = En::INS;
                ed.e = Tr::has_mapped ? E{k, e.newm()} : E{k, k};
                ed.pos = En::lbpos(s.m, k);
                arm(e, n);
                bool th;
                if (how == 0) th = blows(e, "insert_v with a throwing comparator", k, static_cast<long>(n), [&] { e.with_args(ed.e, [&](auto&&... a) { t.insert_v(std::forward<decltype(a)>(a)...); }); });
                else if (how == 1) th = blows(e, "insert_or_assign with a throwing comparator", k, static_cast<long>(n), [&] { e.with_args(ed.e, [&](auto&&... a) { t.insert_or_assign(std::forward<decltype(a)>(a)...); }); });
                else if constexpr (bkey) {
                    auto key = Tr::mkkey(k);
                    th = blows(e, "tree[key]= with a throwing comparator", k, static_cast<long>(n), [&] { t[key] = Tr::mkm(ed.e.m); });
                } else { Fuse::left = -1; return; }
                if (!th) { En::apply(s.m, ed); s.by.clear(); }
            } else if (how < 6 && n) {
                ed.pos = rng.range(0, static_cast<long>(n) - 1);
                ed.kind = how == 3 ? En::ERA : En::SET;
                ed.e = s.m[static_cast<size_t>(ed.pos)];
                if (how != 3 && Tr::has_mapped) ed.e.m = e.newm();
                auto key = Tr::mkkey(ed.e.k);
                arm(e, n);
                bool th;
                if (how == 3) th = blows(e, "erase_key with a throwing comparator", ed.e.k, static_cast<long>(n), [&] { t.erase_key(key); });
                else if (how == 4) th = blows(e, "assign_v with a throwing comparator", ed.e.k, static_cast<long>(n), [&] { e.with_args(ed.e, [&](auto&&... a) { t.assign_v(std::forward<decltype(a)>(a)...); }); });
                else if (rng.chance(1, 2)) th = blows(e, "update_key with a throwing comparator", ed.e.k, static_cast<long>(n), [&] { t.update_key(key, [&](auto const&) { return Tr::mkm(ed.e.m); }); });
                else th = blows(e, "insert_or_assign(present) with a throwing comparator", ed.e.k, static_cast<long>(n), [&] { e.with_args(ed.e, [&](auto&&... a) { t.insert_or_assign(std::forward<decltype(a)>(a)...); }); });
                if (!th) { En::apply(s.m, ed); if (ed.kind == En::ERA) s.by.clear(); }
            } else {
                long k = n && rng.chance(1, 2) ? s.m[rng.below(n)].k : e.absent_key(s.m);
                if (k < 0) return;
                auto key = Tr::mkkey(k);
                long lb = En::lbpos(s.m, k);
                bool has = lb < static_cast<long>(n) && s.m[static_cast<size_t>(lb)].k == k;
                arm(e, n);
                blows(e, "keyed lookup with a throwing comparator", k, static_cast<long>(n), [&] {
                    switch (rng.below(6)) {
                        case 0: (void) t.find(key); break;
                        case 1: (void) ct.lower_bound(key); break;
                        case 2: (void) t.upper_bound(key); break;
                        case 3: (void) ct.contains(key); break;
                        case 4: (void) ct.find_const(key); break;
                        default: if (has) (void) ct.at_key(key);
                    }
                });
            }
        }
    }

    static void comparator_p(En& e) {
        if constexpr (C::ordered) {
            Rng& rng = e.rng;
            if (e.ps.empty()) return;
            auto& s = *e.ps[rng.below(e.ps.size())];
            P& p = *s.p;
            Model m2 = *s.m;
            size_t n = m2.size();
            typename En::Edit ed;
            bool full = p.depth() >= p.max_depth() || static_cast<long>(n) >= C::cap;
            std::optional<P> q;
            bool th;
            if (rng.chance(1, 2) && !full) {
                long k = e.absent_key(m2);
                if (k < 0) return;
                ed.kind = En::INS;
                ed.e = Tr::has_mapped ? E{k, e.newm()} : E{k, k};
                ed.pos = En::lbpos(m2, k);
                arm(e, n);
                th = blows(e, "P.insert_v with a throwing comparator", k, static_cast<long>(n), [&] {
                    if (rng.chance(1, 2)) q.emplace(p.insert_v(En::mkv(ed.e)));
                    else q.emplace(p.insert_or_assign(En::mkv(ed.e)));
                });
            } else if (n) {
                ed.pos = rng.range(0, static_cast<long>(n) - 1);
                int how = static_cast<int>(rng.below(3));
                ed.kind = how == 0 ? En::ERA : En::SET;
                ed.e = m2[static_cast<size_t>(ed.pos)];
                if (how && Tr::has_mapped) ed.e.m = e.newm();
                auto key = Tr::mkkey(ed.e.k);
                arm(e, n);
                th = blows(e, "P.erase_key/assign_v/update_key with a throwing comparator", ed.e.k, static_cast<long>(n), [&] {
                    if (how == 0) q.emplace(p.erase_key(key));
                    else if (how == 1) q.emplace(p.assign_v(En::mkv(ed.e)));
                    else q.emplace(p.update_key(key, [&](auto const&) { return Tr::mkm(ed.e.m); }));
                });
            } else return;
            if (!th) {
                En::apply(m2, ed);
                e.check_all_one(C14, *q, m2, "functional edit whose comparator did not throw");
            }
        }
    }

    static void updater(En& e) {
        Rng& rng = e.rng;
        bool early = rng.chance(1, 2);
        auto boom = [&](V const& v) -> V {
            if (!early) { V copy(v); (void) copy; }
            ++Fuse::thrown;
            throw Boom{};
        };
        auto boomk = [&](auto const& v) -> typename Tr::M {
            if (!early) { auto copy(v); (void) copy; }
            ++Fuse::thrown;
            throw Boom{};
        };
        if (!e.ts.empty() && rng.chance(2, 3)) {
            auto& s = *e.ts[rng.below(e.ts.size())];
            if (s.m.empty()) return;
            T& t = *s.t;
            long pos = rng.range(0, static_cast<long>(s.m.size()) - 1);
            bool th = true;
            switch (rng.below(4)) {
                case 0: {
                    auto it = e.template iter_at<typename T::iterator>(t, s.m, pos);
                    th = blows(e, "update(it) with a throwing updater", pos, 0, [&] { t.update(it, boom); });
                    MON_CHECK(C14, En::ev_of(it.get()) == s.m[static_cast<size_t>(pos)], "iterator damaged by a throwing updater");
                    break;
                }
                case 1: { auto it = e.template iter_at<typename T::reverse_iterator>(t, s.m, pos); th = blows(e, "update(reverse it) with a throwing updater", pos, 0, [&] { t.update(it, boom); }); break; }
                case 2:
                    if constexpr (C::indexed) th = blows(e, "update_index with a throwing updater", pos, 0, [&] { t.update_index(static_cast<std::decay_t<decltype(t.order(t.cend()))>>(pos), boom); });
                    break;
                default:
                    if constexpr (C::ordered) { auto key = Tr::mkkey(s.m[static_cast<size_t>(pos)].k); th = blows(e, "update_key with a throwing updater", pos, 0, [&] { t.update_key(key, boomk); }); }
            }
            MON_CHECK(C14, th, "an updater's exception did not reach the caller");
        } else if (!e.ps.empty()) {
            auto& s = *e.ps[rng.below(e.ps.size())];
            if (s.m->empty()) return;
            P& p = *s.p;
            long pos = rng.range(0, static_cast<long>(s.m->size()) - 1);
            bool th = true;
            switch (rng.below(3)) {
                case 0: { auto it = e.template iter_at<typename P::const_iterator>(p, *s.m, pos); th = blows(e, "P.update(it) with a throwing updater", pos, 0, [&] { P q = p.update(it, boom); }); break; }
                case 1:
                    if constexpr (C::indexed) th = blows(e, "P.update_index with a throwing updater", pos, 0, [&] { P q = p.update_index(static_cast<std::decay_t<decltype(p.order(p.cend()))>>(pos), boom); });
                    break;
                default:
                    if constexpr (C::ordered) { auto key = Tr::mkkey((*s.m)[static_cast<size_t>(pos)].k); th = blows(e, "P.update_key with a throwing updater", pos, 0, [&] { P q = p.update_key(key, boomk); }); }
            }
            MON_CHECK(C14, th, "an updater's exception did not reach the caller");
        }
    }

    // proxy operators whose operand throws
    struct Bomb {};
    static void proxy(En& e) {
        if constexpr (std::is_arithmetic_v<V> || (C::ordered && bkey && std::is_arithmetic_v<typename Tr::M>)) {
            Rng& rng = e.rng;
            if (e.ts.empty()) return;
            auto& s = *e.ts[rng.below(e.ts.size())];
            if (s.m.empty()) return;
            T& t = *s.t;
            long pos = rng.range(0, static_cast<long>(s.m.size()) - 1);
            bool th = true;
            if constexpr (std::is_arithmetic_v<V>) {
                if (rng.chance(1, 2) || !En::bidx) {
                    auto it = e.template iter_at<typename T::iterator>(t, s.m, pos);
                    th = blows(e, "*it += with a throwing operand", pos, 0, [&] { *it += Bomb{}; });
                } else if constexpr (En::bidx) {
                    auto i = static_cast<std::decay_t<decltype(t.order(t.cend()))>>(pos);
                    th = blows(e, "tree[index] -= with a throwing operand", pos, 0, [&] { t[i] -= Bomb{}; });
                }
            } else if constexpr (C::ordered && bkey) {
                auto key = Tr::mkkey(s.m[static_cast<size_t>(pos)].k);
                th = blows(e, "tree[key] += with a throwing operand", pos, 0, [&] { t[key] += Bomb{}; });
            }
            MON_CHECK(C14, th, "a proxy operator swallows the exception of its operand");
        }
    }
    template <class X> friend X operator+(X const&, Bomb const&) { ++Fuse::thrown; throw Boom{}; }
    template <class X> friend X operator-(X const&, Bomb const&) { ++Fuse::thrown; throw Boom{}; }

    static void step(En& e) {
        int n = static_cast<int>(e.rng.range(1, 3));
        for (int i = 0; i < n; ++i) {
            switch (e.rng.below(C::ordered ? 8 : 3)) {
                case 0: case 1: updater(e); break;
                case 2: proxy(e); break;
                case 3: case 4: comparator_p(e); break;
                default: comparator_t(e);
            }
        }
        S().cur = C14;
        e.check_all(C14, "after user code threw");
        if constexpr (C::tracked) {
            if (e.rng.chance(1, 2)) live(e);
        }
    }
    // nothing leaks or dies twice on the way out
    static void live(En& e) {
        std::unordered_set<void const*> seen;
        for (auto& s : e.ts) { T const& t = *s->t; for (V const& v : t) seen.insert(&C::tracked_of(v)); }
        for (auto& s : e.ps) { P const& t = *s->p; for (V const& v : t) seen.insert(&C::tracked_of(v)); }
        MON_CHECK(C14, static_cast<long>(seen.size()) == C::live(), "%ld elements are alive but %zu are reachable after user code threw", C::live(), seen.size());
    }
};

#define STR2(x) #x
#define STR(x) STR2(x)
int main(int argc, char** argv) {
    mon::init(argc, argv);
    eng::set_profile();
    profile().steps = 120;
    profile().derived = 20;
    run_config<cfg::CFG>(STR(CFG), &Thrower<cfg::CFG>::step, 50);
    S().counters["exceptions thrown by user code"] = Fuse::thrown;
    return mon::finish();
}
