// C16: arguments that are, or lie inside, elements of the tree being edited or of a snapshot sharing its nodes.
#include "configs.hpp"
using namespace eng;

namespace cfg {
struct AlStr : Base {
    using Tr = tr::PairT<std::string, std::string, 0>;
    using Tree = BppTree<PR<std::string, std::string>, NODE_HDR + 2 * 64, inb(4, 8 + 32 + 8 + 32), 6>::mixins<OrderedBuilder<>, IndexedBuilder<>, MinBuilder<PairExtractor<1>>>;
    static constexpr bool ordered = true, indexed = true, hasmin = true, piecewise = true;
};
struct AlStrBin : Base {
    using Tr = tr::PairT<std::string, std::string, 1>;
    using Tree = BppTree<PR<std::string, std::string>, NODE_HDR + 4 * 64, inb(5, 8 + 32 + 8 + 32), 5>::mixins<IndexedBuilder<>, MaxBuilder<PairExtractor<1>>, OrderedBuilder<PairExtractor<1>>::binary_search<true>>;
    static constexpr bool ordered = true, indexed = true, hasmax = true, key_bracket = false;
    static constexpr Sel maxsel = SEL_K;
};
struct AlSet : Base {
    using Tr = tr::ScalarT<std::string>;
    using Tree = BppTree<std::string, NODE_HDR + 2 * 32, inb(4, 8 + 32 + 8), 6>::mixins<OrderedBuilder<ValueExtractor>, IndexedBuilder<>>;
    static constexpr bool ordered = true, indexed = true;
};
struct AlTup : Base {
    using Tr = tr::TupT<std::string, std::string, 1>;
    using Tree = BppTree<std::tuple<std::string, std::string>, NODE_HDR + 3 * 64, inb(4, 8 + 32), 6>::mixins<OrderedBuilder<TupleExtractor<1>>>;
    static constexpr bool ordered = true;
};
struct AlTrk : Base {
    using Tr = tr::PairT<tr::KeyT, tr::Val, 0>;
    using Tree = BppTree<PR<tr::KeyT, tr::Val>, NODE_HDR + 2 * 32, inb(4, 8 + 16 + 16), 6>::mixins<OrderedBuilder<>, MaxBuilder<PairExtractor<0>>>;
    static constexpr bool ordered = true, hasmax = true, piecewise = true;
    static constexpr Sel maxsel = SEL_K;
};
}

template <class C>
struct Alias {
    using En = Engine<C>;
    using Tr = typename C::Tr;
    using V = typename Tr::V;
    using T = typename En::T;
    using P = typename En::P;
    using Edit = typename En::Edit;
    static constexpr bool bkey = En::bkey;

    // a reference to element i of the tree, or of some snapshot, with the id it must have
    struct Src { V const* v; E e; bool own; };
    static Src source(En& e, T& t, Model const& m, long at) {
        Rng& rng = e.rng;
        T const& ct = t;
        if (!e.ps.empty() && (m.empty() || rng.chance(1, 4))) {
            for (int i = 0; i < 6; ++i) {
                auto& s = *e.ps[rng.below(e.ps.size())];
                if (s.m->empty()) continue;
                size_t j = rng.below(s.m->size());
                auto it = s.p->cbegin();
                it += static_cast<long>(j);
                return Src{&*it, (*s.m)[j], false};
            }
        }
        if (m.empty()) return Src{nullptr, E{0, 0}, false};
        long n = static_cast<long>(m.size());
        long j;
        switch (rng.below(6)) {
            case 0: j = 0; break;
            case 1: j = n - 1; break;
            case 2: j = rng.range(0, n - 1); break;
            default: j = at + rng.range(-3, 3);      // near the edit, where elements get shifted
        }
        if (j < 0) j = 0;
        if (j >= n) j = n - 1;
        V const* v;
        if (j == 0 && rng.chance(1, 2)) v = &ct.front();
        else if (j == n - 1 && rng.chance(1, 2)) v = &ct.back();
        else { auto it = ct.cbegin(); it += j; v = rng.chance(1, 2) ? &*it : it.operator->(); }
        return Src{v, m[static_cast<size_t>(j)], true};
    }
    static auto const& key_of(V const& v) {
        if constexpr (!Tr::has_mapped) return v;
        else if constexpr (Tr::kid_index == 0) return std::get<0>(v);
        else return std::get<1>(v);
    }
    static auto const& mapped_of(V const& v) {
        if constexpr (!Tr::has_mapped) return v;
        else if constexpr (Tr::kid_index == 0) return std::get<1>(v);
        else return std::get<0>(v);
    }
    // f(args in element order)
    template <class K, class M, class F>
    static decltype(auto) km(K const& k, M const& m, F&& f) {
        if constexpr (Tr::kid_index == 0) return f(k, m);
        else return f(m, k);
    }
    static void did(En& e, char const* op, long a, long b, bool own) {
        log_op(op, a, b, own);
        S().op_counts[op]++;
        S().steps++;
        S().cur = C16;
        context(mix(hash_str(op), static_cast<uint64_t>((own ? 1 : 0) + 2 * static_cast<long>(e.ts.size()) + 16 * (a < 0 ? -1 : a > 7 ? 7 : a))));
    }

    // edits of an unordered sequence, and edits of an ordered one that keep its order
    static void edit(En& e, T& t, Model& m) {
        Rng& rng = e.rng;
        long n = static_cast<long>(m.size());
        bool full = t.depth() >= t.max_depth() || n >= C::cap;
        int how = static_cast<int>(rng.below(10));
        if constexpr (!C::ordered) {
            if (how < 6 && !full) {
                long at = rng.range(0, n);
                Src s = source(e, t, m, at);
                if (!s.v) return;
                char const* op = "?";
                if (how == 0 && at <= n) {
                    bool front = rng.chance(1, 2);
                    at = front ? 0 : n;
                    op = front ? "push_front(own element)" : "push_back(own element)";
                    did(e, op, n, at, s.own);
                    if (front) { if (rng.chance(1, 2)) t.push_front(*s.v); else t.emplace_front(*s.v); }
                    else { if (rng.chance(1, 2)) t.push_back(*s.v); else t.emplace_back(*s.v); }
                } else if (how < 4 || !C::indexed) {
                    op = "insert(it, own element)";
                    did(e, op, n, at, s.own);
                    auto it = e.template iter_at<typename T::iterator>(t, m, at);
                    if (rng.chance(1, 3)) {
                        auto r = e.template iter_at<typename T::reverse_iterator>(t, m, at - 1);
                        t.insert(r, *s.v);
                    } else t.insert(it, *s.v);
                } else if constexpr (C::indexed) {
                    op = "insert_index(i, own element)";
                    did(e, op, n, at, s.own);
                    t.insert_index(static_cast<std::decay_t<decltype(t.order(t.cend()))>>(at), *s.v);
                }
                m.insert(m.begin() + at, s.e);
                return;
            }
            if (n == 0) return;
            long at = rng.range(0, n - 1);
            Src s = source(e, t, m, at);
            set(e, t, m, at, s);
        } else {
            if (n == 0) return;
            long at = rng.range(0, n - 1);
            Src s = source(e, t, m, at);
            V const& self = *e.template iter_at<typename T::const_iterator>(t, m, at);
            if (how < 3 && !full) {
                // a new key with the mapped value of an existing element
                if constexpr (Tr::has_mapped) {
                    long k = e.absent_key(m);
                    if (k < 0) return;
                    long p = En::lbpos(m, k);
                    s = source(e, t, m, p);
                    auto key = Tr::mkkey(k);
                    did(e, how == 0 ? "insert_v(key, own mapped)" : how == 1 ? "insert_or_assign(key, own mapped)" : "insert(it, key, own mapped)", k, p, s.own);
                    if (how == 0) km(key, mapped_of(*s.v), [&](auto const& a, auto const& b) { t.insert_v(a, b); });
                    else if (how == 1) {
                        if (C::piecewise && rng.chance(1, 2)) {
                            if constexpr (C::piecewise && Tr::is_pair) km(key, mapped_of(*s.v), [&](auto const& a, auto const& b) { t.insert_or_assign(std::piecewise_construct, std::forward_as_tuple(a), std::forward_as_tuple(b)); });
                        } else km(key, mapped_of(*s.v), [&](auto const& a, auto const& b) { t.insert_or_assign(a, b); });
                    } else {
                        auto it = e.template iter_at<typename T::iterator>(t, m, p);
                        km(key, mapped_of(*s.v), [&](auto const& a, auto const& b) { t.insert(it, a, b); });
                    }
                    m.insert(m.begin() + p, E{k, s.e.m});
                }
                return;
            }
            switch (how) {
                case 3: {
                    did(e, "erase_key(own key)", at, n, true);
                    t.erase_key(key_of(self));
                    m.erase(m.begin() + at);
                    return;
                }
                case 4: {
                    if constexpr (Tr::has_mapped) {
                        did(e, "assign_v(own key, own mapped)", at, n, s.own);
                        km(key_of(self), mapped_of(*s.v), [&](auto const& a, auto const& b) { if (rng.chance(1, 2)) t.assign_v(a, b); else t.insert_or_assign(a, b); });
                        m[static_cast<size_t>(at)].m = s.e.m;
                    }
                    return;
                }
                case 5: {
                    did(e, "insert/assign of an own element onto itself", at, n, true);
                    switch (rng.below(3)) {
                        case 0: t.insert_v(self); break;
                        case 1: t.insert_or_assign(self); break;
                        default: t.assign_v(self);
                    }
                    return;
                }
                case 6: {
                    if constexpr (Tr::has_mapped) {
                        did(e, "update_key(own key) returning an own value", at, n, s.own);
                        auto const& mp = mapped_of(*s.v);
                        t.update_key(key_of(self), [&](auto const&) -> decltype(auto) { return (mp); });
                        m[static_cast<size_t>(at)].m = s.e.m;
                    } else {
                        did(e, "update_key(own key) returning its argument", at, n, s.own);
                        t.update_key(key_of(self), [&](auto const& x) -> decltype(auto) { return (x); });
                    }
                    return;
                }
                case 7: {
                    if constexpr (Tr::has_mapped && bkey) {
                        did(e, "tree[own key] = own mapped", at, n, s.own);
                        if (rng.chance(1, 2)) t[key_of(self)] = mapped_of(*s.v);
                        else {
                            auto k2 = Tr::mkkey(s.e.k);
                            if (s.own) t[key_of(self)] = t[k2].get();
                            else t[key_of(self)] = mapped_of(*s.v);
                        }
                        m[static_cast<size_t>(at)].m = s.e.m;
                    }
                    return;
                }
                default: {
                    // positional assignment of (own key, own mapped)
                    if constexpr (Tr::has_mapped) {
                        did(e, "assign(it, own key, own mapped)", at, n, s.own);
                        auto it = e.template iter_at<typename T::iterator>(t, m, at);
                        if constexpr (C::indexed) {
                            if (rng.chance(1, 3)) {
                                km(key_of(self), mapped_of(*s.v), [&](auto const& a, auto const& b) { t.assign_index(static_cast<std::decay_t<decltype(t.order(t.cend()))>>(at), a, b); });
                                m[static_cast<size_t>(at)].m = s.e.m;
                                return;
                            }
                        }
                        km(key_of(self), mapped_of(*s.v), [&](auto const& a, auto const& b) { t.assign(it, a, b); });
                        m[static_cast<size_t>(at)].m = s.e.m;
                    } else {
                        did(e, "assign(it, *it)", at, n, true);
                        auto it = e.template iter_at<typename T::iterator>(t, m, at);
                        t.assign(it, self);
                    }
                }
            }
        }
    }

    // replace element `at` by the source
    static void set(En& e, T& t, Model& m, long at, Src s) {
        if (!s.v) return;
        Rng& rng = e.rng;
        long n = static_cast<long>(m.size());
        V const& v = *s.v;
        switch (rng.below(7)) {
            case 0: { did(e, "assign(it, own element)", at, n, s.own); auto it = e.template iter_at<typename T::iterator>(t, m, at); t.assign(it, v); break; }
            case 1: { did(e, "update(it) returning an own element", at, n, s.own); auto it = e.template iter_at<typename T::iterator>(t, m, at); t.update(it, [&](V const&) -> V const& { return v; }); break; }
            case 2: { did(e, "*it = own element", at, n, s.own); auto it = e.template iter_at<typename T::iterator>(t, m, at); *it = v; break; }
            case 3: {
                long j = rng.range(0, n - 1);
                did(e, "*it = *other", at, j, true);
                auto it = e.template iter_at<typename T::iterator>(t, m, at);
                auto o = e.template iter_at<typename T::iterator>(t, m, j);
                *it = *o;
                m[static_cast<size_t>(at)] = m[static_cast<size_t>(j)];
                return;
            }
            case 4: {
                long j = rng.range(0, n - 1);
                did(e, "swap(*it, *other)", at, j, true);
                auto it = e.template iter_at<typename T::iterator>(t, m, at);
                auto o = e.template iter_at<typename T::iterator>(t, m, j);
                swap(*it, *o);
                std::swap(m[static_cast<size_t>(at)], m[static_cast<size_t>(j)]);
                return;
            }
            default:
                if constexpr (C::indexed) {
                    auto i = static_cast<std::decay_t<decltype(t.order(t.cend()))>>(at);
                    switch (rng.below(3)) {
                        case 0: did(e, "assign_index(i, own element)", at, n, s.own); t.assign_index(i, v); break;
                        case 1: did(e, "update_index(i) returning an own element", at, n, s.own); t.update_index(i, [&](V const&) -> V const& { return v; }); break;
                        default:
                            did(e, "tree[i] = own element", at, n, s.own);
                            if constexpr (En::bidx) t[i] = v;
                            else t.assign_index(i, v);
                    }
                } else {
                    did(e, "assign(reverse it, own element)", at, n, s.own);
                    auto it = e.template iter_at<typename T::reverse_iterator>(t, m, at);
                    t.assign(it, v);
                }
        }
        m[static_cast<size_t>(at)] = s.e;
    }

    // the functional forms, with elements of the very Persistent as arguments
    static void functional(En& e) {
        Rng& rng = e.rng;
        if (e.ps.empty()) return;
        auto& s = *e.ps[rng.below(e.ps.size())];
        P const& p = *s.p;
        Model m = *s.m;
        long n = static_cast<long>(m.size());
        if (n == 0) return;
        bool full = p.depth() >= p.max_depth() || n >= C::cap;
        long at = rng.range(0, n - 1), j = rng.range(0, n - 1);
        V const& self = *(p.cbegin() + at);
        V const& other = *(p.cbegin() + j);
        auto it = p.cbegin() + at;
        std::optional<P> q;
        if constexpr (!C::ordered) {
            int how = static_cast<int>(rng.below(full ? 2 : 5));
            did(e, "functional edit with an own element", how, at, true);
            switch (how) {
                case 0: q.emplace(p.assign(it, other)); m[static_cast<size_t>(at)] = m[static_cast<size_t>(j)]; break;
                case 1: q.emplace(p.update(it, [&](V const&) -> V const& { return other; })); m[static_cast<size_t>(at)] = m[static_cast<size_t>(j)]; break;
                case 2: { q.emplace(p.insert(it, other)); E x = m[static_cast<size_t>(j)]; m.insert(m.begin() + at, x); break; }
                case 3: { q.emplace(p.push_back(other)); E x = m[static_cast<size_t>(j)]; m.push_back(x); break; }
                default: { q.emplace(p.push_front(other)); E x = m[static_cast<size_t>(j)]; m.insert(m.begin(), x); }
            }
        } else {
            int how = static_cast<int>(rng.below(5));
            did(e, "functional keyed edit with own keys and values", how, at, true);
            switch (how) {
                case 0: q.emplace(p.erase_key(key_of(self))); m.erase(m.begin() + at); break;
                case 1: q.emplace(p.insert_or_assign(self)); break;
                case 2: q.emplace(p.insert_v(self)); break;
                case 3:
                    if constexpr (Tr::has_mapped) {
                        q.emplace(km(key_of(self), mapped_of(other), [&](auto const& a, auto const& b) { return p.assign_v(a, b); }));
                        m[static_cast<size_t>(at)].m = m[static_cast<size_t>(j)].m;
                        break;
                    }
                    [[fallthrough]];
                default:
                    if constexpr (Tr::has_mapped) {
                        q.emplace(p.update_key(key_of(self), [&](auto const&) -> decltype(auto) { return (mapped_of(other)); }));
                        m[static_cast<size_t>(at)].m = m[static_cast<size_t>(j)].m;
                    } else q.emplace(p.assign(it, self));
            }
        }
        e.check_all_one(C16, *q, m, "result of a functional edit with aliased arguments");
        e.check_all_one(C16, *s.p, *s.m, "source of a functional edit with aliased arguments");
    }

    // separate arguments: lvalues stay as they are, every form stores the same element
    static void forms(En& e) {
        Rng& rng = e.rng;
        if (e.ts.empty()) return;
        auto& s = *e.ts[rng.below(e.ts.size())];
        T& t = *s.t;
        Edit ed;
        bool full = t.depth() >= t.max_depth() || static_cast<long>(s.m.size()) >= C::cap;
        typename En::Kind kind = s.m.empty() ? En::INS : full || rng.chance(1, 2) ? En::SET : En::INS;
        if (kind == En::INS && full) return;
        if (!e.choose(s.m, kind, ed)) return;
        V v = En::mkv(ed.e);
        V const cv = En::mkv(ed.e);
        bool cst = rng.chance(1, 2);
        did(e, "lvalue argument", kind, ed.pos, cst);
        bool present = false;
        auto go = [&](auto& arg) {
            int fam = static_cast<int>(rng.below(4));
            if constexpr (C::ordered) {
                if (fam == 0) {
                    if (kind == En::INS) { if (rng.chance(1, 2)) t.insert_v(arg); else t.insert_or_assign(arg); }
                    else {
                        switch (rng.below(3)) {
                            case 0: t.assign_v(arg); break;
                            case 1: t.insert_or_assign(arg); break;
                            default: t.insert_v(arg); present = true;
                        }
                    }
                    return;
                }
            }
            if constexpr (C::indexed) {
                if (fam == 1) {
                    auto i = static_cast<std::decay_t<decltype(t.order(t.cend()))>>(ed.pos);
                    if (kind == En::INS) t.insert_index(i, arg); else t.assign_index(i, arg);
                    return;
                }
            }
            auto it = e.template iter_at<typename T::iterator>(t, s.m, ed.pos);
            if (kind == En::INS) t.insert(it, arg);
            else if (fam == 2) *it = arg;
            else t.assign(it, arg);
        };
        if (cst) go(cv); else go(v);
        if (!present) En::apply(s.m, ed);
        if (kind == En::INS) s.by.clear();
        E g = En::ev_of(v);
        MON_CHECK(C16, g == ed.e && En::ev_of(cv) == ed.e, "an lvalue argument was modified: now (%ld,%ld), was (%ld,%ld)", g.k, g.m, ed.e.k, ed.e.m);
        // key and mapped value as separate lvalues
        if constexpr (C::ordered && Tr::has_mapped) {
            if (s.m.empty()) return;
            size_t i = rng.below(s.m.size());
            auto key = Tr::mkkey(s.m[i].k);
            E e2{s.m[i].k, e.newm()};
            auto mp = Tr::mkm(e2.m);
            did(e, "lvalue key and value", static_cast<long>(i), 0, true);
            switch (rng.below(bkey ? 4 : 2)) {
                case 0: lv(key, mp, [&](auto& a, auto& b) { t.assign_v(a, b); }); break;
                case 1: lv(key, mp, [&](auto& a, auto& b) { t.insert_or_assign(a, b); }); break;
                default:
                    if constexpr (bkey) {
                        if (rng.chance(1, 2)) t[key] = mp;
                        else { V x = En::mkv(e2); t[key] = x; MON_CHECK(C16, En::ev_of(x) == e2, "tree[key] = element modified its argument"); }
                    }
            }
            s.m[i] = e2;
            MON_CHECK(C16, tr::Conv<typename Tr::Key>::id(key) == e2.k && tr::Conv<typename Tr::M>::id(mp) == e2.m, "an lvalue key or value was modified");
        }
    }
    template <class K, class M, class F> static void lv(K& k, M& m, F&& f) {
        if constexpr (Tr::kid_index == 0) f(k, m);
        else f(m, k);
    }

    static void step(En& e) {
        Rng& rng = e.rng;
        int how = static_cast<int>(rng.below(6));
        if (how == 0) functional(e);
        else if (how == 1) forms(e);
        else if (!e.ts.empty()) {
            auto& s = *e.ts[rng.below(e.ts.size())];
            if (rng.chance(1, 3)) e.take_snapshot(s);
            s.by.clear();
            edit(e, *s.t, s.m);
            e.check_seq(C16, *s.t, s.m, "after an edit with aliased arguments");
            e.derived(*s.t, s.m, C16);
        }
        S().cur = C16;
        if (rng.chance(1, 3)) e.check_all(C16, "after an edit with aliased arguments");
    }
};

#define STR2(x) #x
#define STR(x) STR2(x)
int main(int argc, char** argv) {
    mon::init(argc, argv);
    eng::set_profile();
    profile().steps = 160;
    profile().derived = 10;
    profile().siblings = 20;
    run_config<cfg::CFG>(STR(CFG), &Alias<cfg::CFG>::step, 120);
    return mon::finish();
}
