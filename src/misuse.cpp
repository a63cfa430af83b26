// C13: misuse with the safety checks compiled in must throw the documented exception and change nothing.
#ifndef BPPTREE_SAFETY_CHECKS
#error "build with -DBPPTREE_SAFETY_CHECKS"
#endif
#include "configs.hpp"
using namespace eng;

namespace cfg {
// small enough to exhaust its depth
struct Tiny : Base {
    using Tr = tr::PairT<int32_t, int32_t, 0>;
    using Tree = BppTree<PR<int32_t, int32_t>, NODE_HDR + 2 * 8, inb(4, 8 + 4 + 8 + 4), 3>::mixins<OrderedBuilder<>, IndexedBuilder<>, MaxBuilder<PairExtractor<1>>>;
    static constexpr bool ordered = true, indexed = true, hasmax = true, piecewise = true;
};
}

template <class C>
struct Misuse {
    using En = Engine<C>;
    using Tr = typename C::Tr;
    using V = typename Tr::V;
    using T = typename En::T;
    using P = typename En::P;
    static constexpr bool bkey = En::bkey;

    template <class Ex, class F>
    static void must_throw(En& e, char const* what, long a, long b, F&& f) {
        log_op(what, a, b);
        S().cur = C13;
        S().op_counts[what]++;
        S().steps++;
        ev();
        char const* problem = nullptr;
        std::string other;
        try {
            f();
            problem = "does not throw";
        } catch (Ex const&) {
        } catch (EpisodeAbort const&) {
            throw;
        } catch (std::exception const& ex) {
            problem = "throws an exception of another type";
            other = ex.what();
        }
        if (problem) failf(C13, "%s %s (%ld,%ld) %s", what, problem, a, b, other.c_str());
        context(mix(hash_str(what), static_cast<uint64_t>(e.ts.size() * 16 + e.ps.size())));
    }

    static void keys(En& e) {
        if constexpr (C::ordered) {
            Rng& rng = e.rng;
            if (e.ts.empty()) return;
            auto& s = *e.ts[rng.below(e.ts.size())];
            T& t = *s.t;
            T const& ct = t;
            long k = e.absent_key(s.m);
            if (k < 0) return;
            auto key = Tr::mkkey(k);
            long n = static_cast<long>(s.m.size());
            E el{k, e.newm()};
            if constexpr (!Tr::has_mapped) el.m = k;
            using X = std::logic_error;
            switch (rng.below(Tr::has_mapped ? 7 : 6)) {
                case 0: must_throw<X>(e, "assign_v(absent)", k, n, [&] { e.with_args(el, [&](auto&&... a) { t.assign_v(std::forward<decltype(a)>(a)...); }); }); break;
                case 1: must_throw<X>(e, "erase_key(absent)", k, n, [&] { t.erase_key(key); }); break;
                case 2: {
                    int calls = 0;
                    must_throw<X>(e, "update_key(absent)", k, n, [&] { t.update_key(key, [&](auto const&) { ++calls; return Tr::mkm(el.m); }); });
                    MON_CHECK(C13, calls == 0, "update_key(absent) called its updater");
                    break;
                }
                case 3: must_throw<X>(e, "at_key(absent)", k, n, [&] { volatile long x = En::tr_mid(ct.at_key(key)); (void) x; }); break;
                case 4:
                    if constexpr (bkey) must_throw<X>(e, "const operator[](absent)", k, n, [&] { volatile long x = En::tr_mid(ct[key]); (void) x; });
                    break;
                case 5:
                    if constexpr (bkey) must_throw<X>(e, "operator[](absent).get()", k, n, [&] { volatile long x = En::tr_mid(t[key].get()); (void) x; });
                    break;
                default:
                    if constexpr (bkey && std::is_integral_v<typename Tr::M>) {
                        if (rng.chance(1, 2)) must_throw<X>(e, "operator[](absent) += 1", k, n, [&] { t[key] += 1; });
                        else must_throw<X>(e, "operator[](absent)++", k, n, [&] { t[key]++; });
                    }
            }
            if (!e.ps.empty()) {
                auto& p = *e.ps[rng.below(e.ps.size())];
                P const& cp = *p.p;
                long kp = e.absent_key(*p.m);
                if (kp < 0) return;
                auto pk = Tr::mkkey(kp);
                E pe{kp, e.newm()};
                if constexpr (!Tr::has_mapped) pe.m = kp;
                switch (rng.below(5)) {
                    case 0: must_throw<X>(e, "P.assign_v(absent)", kp, 0, [&] { e.with_args(pe, [&](auto&&... a) { P q = cp.assign_v(std::forward<decltype(a)>(a)...); }); }); break;
                    case 1: must_throw<X>(e, "P.erase_key(absent)", kp, 0, [&] { P q = cp.erase_key(pk); }); break;
                    case 2: must_throw<X>(e, "P.update_key(absent)", kp, 0, [&] { P q = cp.update_key(pk, [&](auto const&) { return Tr::mkm(pe.m); }); }); break;
                    case 3: must_throw<X>(e, "P.at_key(absent)", kp, 0, [&] { volatile long x = En::tr_mid(cp.at_key(pk)); (void) x; }); break;
                    default:
                        if constexpr (bkey) must_throw<X>(e, "P.operator[](absent)", kp, 0, [&] { volatile long x = En::tr_mid(cp[pk]); (void) x; });
                }
            }
        }
    }

    // a present key whose new element has another key
    static void key_change(En& e) {
        if constexpr (C::ordered) {
            Rng& rng = e.rng;
            if (e.ts.empty()) return;
            auto& s = *e.ts[rng.below(e.ts.size())];
            T& t = *s.t;
            if (s.m.empty()) return;
            E old = s.m[rng.below(s.m.size())];
            long k2 = rng.chance(1, 2) && s.m.size() > 1 ? s.m[rng.below(s.m.size())].k : old.k + (rng.chance(1, 2) ? 1 : -1);
            if (k2 == old.k || k2 < 0 || k2 > C::kmax) return;
            auto key = Tr::mkkey(old.k);
            E el{k2, e.newm()};
            if constexpr (!Tr::has_mapped) {
                el.m = k2;
                must_throw<std::logic_error>(e, "update_key changing the key", old.k, k2, [&] { t.update_key(key, [&](auto const&) { return En::mkv(el); }); });
                if (!e.ps.empty()) {
                    auto& p = *e.ps[rng.below(e.ps.size())];
                    if (!p.m->empty()) {
                        E pold = (*p.m)[rng.below(p.m->size())];
                        if (pold.k != k2) {
                            auto pk = Tr::mkkey(pold.k);
                            must_throw<std::logic_error>(e, "P.update_key changing the key", pold.k, k2, [&] { P q = p.p->update_key(pk, [&](auto const&) { return En::mkv(el); }); });
                        }
                    }
                }
            }
            if constexpr (bkey) {
                // key present or absent: the element's key must match the bracket's
                long kk = rng.chance(1, 3) ? e.absent_key(s.m) : old.k;
                if (kk < 0 || kk == k2) return;
                auto bk = Tr::mkkey(kk);
                switch (rng.below(3)) {
                    case 0: must_throw<std::logic_error>(e, "tree[key]= element of another key", kk, k2, [&] { V v = En::mkv(el); t[bk] = v; }); break;
                    case 1: must_throw<std::logic_error>(e, "tree[key]= const element of another key", kk, k2, [&] { V const v = En::mkv(el); t[bk] = v; }); break;
                    default: must_throw<std::logic_error>(e, "tree[key]= rvalue element of another key", kk, k2, [&] { t[bk] = En::mkv(el); });
                }
            }
        }
    }

    template <class A, class B>
    static void cmp(En& e, A const& a, B const& b, char const* what) {
        volatile bool sink = false;
        switch (e.rng.below(4)) {
            case 0: must_throw<std::logic_error>(e, what, 0, 0, [&] { sink = a < b; }); break;
            case 1: must_throw<std::logic_error>(e, what, 1, 0, [&] { sink = a > b; }); break;
            case 2: must_throw<std::logic_error>(e, what, 2, 0, [&] { sink = a <= b; }); break;
            default: must_throw<std::logic_error>(e, what, 3, 0, [&] { sink = a >= b; });
        }
        (void) sink;
    }
    static void foreign_iterators(En& e) {
        Rng& rng = e.rng;
        if (e.ts.size() > 1) {
            size_t i = rng.below(e.ts.size()), j = (i + 1) % e.ts.size();
            auto& a = *e.ts[i];
            auto& b = *e.ts[j];
            long pa = rng.range(0, static_cast<long>(a.m.size())), pb = rng.range(0, static_cast<long>(b.m.size()));
            if (rng.chance(1, 2)) cmp(e, e.template iter_at<typename T::const_iterator>(*a.t, a.m, pa), e.template iter_at<typename T::iterator>(*b.t, b.m, pb), "ordering iterators of two Transients");
            else cmp(e, e.template iter_at<typename T::reverse_iterator>(*a.t, a.m, pa - 1), e.template iter_at<typename T::const_reverse_iterator>(*b.t, b.m, pb - 1), "ordering reverse iterators of two Transients");
            MON_CHECK(C13, !(a.t->begin() == b.t->begin()) && a.t->end() != b.t->end(), "iterators of different trees compare equal");
        }
        if (e.ps.size() > 1) {
            size_t i = rng.below(e.ps.size()), j = (i + 1) % e.ps.size();
            auto& a = *e.ps[i];
            auto& b = *e.ps[j];
            long pa = rng.range(0, static_cast<long>(a.m->size())), pb = rng.range(0, static_cast<long>(b.m->size()));
            cmp(e, e.template iter_at<typename P::const_iterator>(*a.p, *a.m, pa), e.template iter_at<typename P::const_iterator>(*b.p, *b.m, pb), "ordering iterators of two Persistents");
        }
    }

    template <bool is_min, class Tree>
    static void mm(En& e, Tree& t, Model const& m) {
        Rng& rng = e.rng;
        Tree const& ct = t;
        using X = std::out_of_range;
        long n = static_cast<long>(m.size());
        if (m.empty()) {
            switch (rng.below(4)) {
                case 0: must_throw<X>(e, is_min ? "min() of nothing" : "max() of nothing", 0, 0, [&] { volatile long x; if constexpr (is_min) x = En::tr_mid(ct.min()); else x = En::tr_mid(ct.max()); (void) x; }); break;
                case 1: must_throw<X>(e, is_min ? "min_element() of nothing" : "max_element() of nothing", 0, 0, [&] { if constexpr (is_min) (void) t.min_element(); else (void) t.max_element(); }); break;
                case 2: must_throw<X>(e, is_min ? "const min_element() of nothing" : "const max_element() of nothing", 0, 0, [&] { if constexpr (is_min) (void) ct.min_element(); else (void) ct.max_element(); }); break;
                default: must_throw<X>(e, is_min ? "min_element_const() of nothing" : "max_element_const() of nothing", 0, 0, [&] { if constexpr (is_min) (void) t.min_element_const(); else (void) t.max_element_const(); });
            }
        }
        long p = rng.range(0, n);
        long q = rng.chance(1, 3) ? rng.range(0, p) : p;     // [p,q) holds nothing
        auto range = [&](auto const& b, auto const& en) {
            switch (rng.below(3)) {
                case 0: must_throw<X>(e, is_min ? "min(empty range)" : "max(empty range)", p, n, [&] { volatile long x; if constexpr (is_min) x = En::tr_mid(ct.min(b, en)); else x = En::tr_mid(ct.max(b, en)); (void) x; }); break;
                case 1: must_throw<X>(e, is_min ? "min_element(empty range)" : "max_element(empty range)", p, n, [&] { if constexpr (is_min) (void) t.min_element(b, en); else (void) t.max_element(b, en); }); break;
                default: must_throw<X>(e, is_min ? "min_element_const(empty range)" : "max_element_const(empty range)", p, n, [&] { if constexpr (is_min) (void) ct.min_element_const(b, en); else (void) ct.max_element_const(b, en); });
            }
        };
        if (rng.chance(1, 3)) range(e.template iter_at<typename Tree::const_reverse_iterator>(t, m, q - 1), e.template iter_at<typename Tree::const_reverse_iterator>(t, m, p - 1));
        else if (rng.chance(1, 2)) range(e.template iter_at<typename Tree::const_iterator>(t, m, p), e.template iter_at<typename Tree::const_iterator>(t, m, q));
        else range(e.template iter_at<typename Tree::iterator>(t, m, p), e.template iter_at<typename Tree::iterator>(t, m, q));
    }
    template <bool is_min>
    static void empty_ranges(En& e) {
        Rng& rng = e.rng;
        if (rng.chance(1, 4)) { T t; mm<is_min>(e, t, Model{}); t.push_back(En::mkv(E{1, 1})); MON_CHECK(C13, t.size() == 1, "tree unusable after a refused query"); }
        if (!e.ts.empty()) { auto& s = *e.ts[rng.below(e.ts.size())]; mm<is_min>(e, *s.t, s.m); }
        if (!e.ps.empty()) { auto& s = *e.ps[rng.below(e.ps.size())]; mm<is_min>(e, *s.p, *s.m); }
    }

    // C04: the functional form of an edit, legal or not, does what editing a transient() copy does
    static void both_forms(En& e) {
        Rng& rng = e.rng;
        if (e.ps.empty()) return;
        auto& s = *e.ps[rng.below(e.ps.size())];
        P const& p = *s.p;
        Model const m = *s.m;
        S().cur = C04;
        auto compare = [&](char const* what, long a, long b, auto&& f, auto&& g) {
            log_op(what, a, b);
            S().op_counts[what]++;
            S().steps++;
            ev();
            auto outcome = [](auto&& run) -> std::string {
                try { run(); return "returns"; }
                catch (EpisodeAbort const&) { throw; }
                catch (std::out_of_range const&) { return "throws std::out_of_range"; }
                catch (std::logic_error const&) { return "throws std::logic_error"; }
                catch (std::exception const&) { return "throws another exception"; }
            };
            T t = p.transient();
            P r = p;
            std::string in_place = outcome([&] { f(t); }), functional = outcome([&] { r = g(); });
            MON_CHECK(C04, in_place == functional, "%s (%ld,%ld): the functional form %s, the in-place form on a transient() copy %s", what, a, b, functional.c_str(), in_place.c_str());
            Model m2;
            for (V const& v : static_cast<T const&>(t)) m2.push_back(En::ev_of(v));
            e.check_seq(C04, r, m2, "functional form against the in-place form", true);
            P q = static_cast<T const&>(t).persistent();
            e.check_seq(C04, q, m2, "snapshot of the edited transient() copy", true);
            e.check_seq(C04, p, m, "source of both forms", true);
            context(mix(hash_str(what), mix(hash_str(in_place.c_str()), p.depth() * 2 + (m.empty() ? 1 : 0))));
        };
        if constexpr (C::ordered) {
            long k = m.empty() || rng.chance(1, 2) ? e.absent_key(m) : m[rng.below(m.size())].k;
            if (k < 0) return;
            auto key = Tr::mkkey(k);
            long lb = En::lbpos(m, k);
            bool has = lb < static_cast<long>(m.size()) && m[static_cast<size_t>(lb)].k == k;
            E el{k, e.newm()};
            if constexpr (!Tr::has_mapped) el.m = k;
            V v = En::mkv(el);
            if (p.depth() >= p.max_depth() && !has) return;
            switch (rng.below(5)) {
                case 0: compare(has ? "erase_key (both forms)" : "erase_key(absent) (both forms)", k, has, [&](T& t) { t.erase_key(key); }, [&] { return p.erase_key(key); }); break;
                case 1: compare(has ? "assign_v (both forms)" : "assign_v(absent) (both forms)", k, has, [&](T& t) { t.assign_v(v); }, [&] { return p.assign_v(v); }); break;
                case 2: {
                    long calls[2] = {0, 0};
                    auto up = [&](int i) { return [&, i](auto const&) { ++calls[i]; if constexpr (Tr::has_mapped) return Tr::mkm(el.m); else return En::mkv(el); }; };
                    compare(has ? "update_key (both forms)" : "update_key(absent) (both forms)", k, has, [&](T& t) { t.update_key(key, up(0)); }, [&] { return p.update_key(key, up(1)); });
                    MON_CHECK(C04, calls[0] == calls[1], "update_key: the functional form calls its updater %ld times, the in-place form %ld times", calls[1], calls[0]);
                    break;
                }
                case 3: compare("insert_v (both forms)", k, has, [&](T& t) { t.insert_v(v); }, [&] { return p.insert_v(v); }); break;
                default: compare("insert_or_assign (both forms)", k, has, [&](T& t) { t.insert_or_assign(v); }, [&] { return p.insert_or_assign(v); });
            }
            if constexpr (!Tr::has_mapped) {
                // an updater that changes the key
                long k2 = k + (rng.chance(1, 2) ? 1 : -1);
                if (k2 >= 0 && k2 <= C::kmax && rng.chance(1, 3))
                    compare("update_key changing the key (both forms)", k, has, [&](T& t) { t.update_key(key, [&](auto const&) { return En::mkv(E{k2, k2}); }); },
                            [&] { return p.update_key(key, [&](auto const&) { return En::mkv(E{k2, k2}); }); });
            }
        } else {
            if (p.depth() >= p.max_depth()) return;
            E el = e.newelem();
            V v = En::mkv(el);
            long n = static_cast<long>(m.size());
            long pos = rng.range(0, n);
            if (n && rng.chance(1, 3)) {
                pos = rng.range(0, n - 1);
                compare("erase (both forms)", pos, n, [&](T& t) { auto it = t.begin(); it += pos; t.erase(it); }, [&] { auto it = p.cbegin(); it += pos; return p.erase(it); });
            } else {
                compare("insert (both forms)", pos, n, [&](T& t) { auto it = t.begin(); it += pos; t.insert(it, v); }, [&] { auto it = p.cbegin(); it += pos; return p.insert(it, v); });
            }
        }
    }

    static void step(En& e) {
        if (on(C04)) return both_forms(e);
        int how = static_cast<int>(e.rng.below(10));
        if (how < 4 && C::ordered) keys(e);
        else if (how < 6 && C::ordered) key_change(e);
        else if (how < 7) foreign_iterators(e);
        else {
            if constexpr (C::hasmin) empty_ranges<true>(e);
            if constexpr (C::hasmax) empty_ranges<false>(e);
            if constexpr (!C::hasmin && !C::hasmax) foreign_iterators(e);
        }
        S().cur = C13;
        e.check_all(C13, "after a refused operation");
    }

    using Edit_ = typename En::Edit;
    // one of the equivalent ways to insert
    template <class X>
    static auto insert_as(En& e, X& x, uint64_t form, Model const& m, Edit_ const& ed) {
        using It = std::conditional_t<std::is_same_v<X, T>, typename T::iterator, typename P::const_iterator>;
        auto by_iterator = [&] { auto it = e.template iter_at<It>(x, m, ed.pos); return x.insert(it, En::mkv(ed.e)); };
        if (form == 0) return by_iterator();
        if constexpr (C::indexed) { if (form == 1) return x.insert_index(static_cast<size_t>(ed.pos), En::mkv(ed.e)); }
        if constexpr (C::ordered) {
            if (form <= 2) return x.insert_v(En::mkv(ed.e));
            if (form == 4) return x.insert_or_assign(En::mkv(ed.e));
            if (form == 5) {
                if constexpr (std::is_same_v<X, T> && bkey) { auto key = Tr::mkkey(ed.e.k); x[key] = Tr::mkm(ed.e.m); return; }
                else return x.insert_or_assign(En::mkv(ed.e));
            }
        }
        if (ed.pos == 0) return x.push_front(En::mkv(ed.e));
        if (ed.pos == static_cast<long>(m.size())) return x.push_back(En::mkv(ed.e));
        return by_iterator();
    }
    // inserts into trees whose depth is exhausted
    static void exhaust(Rng& rng) {
        En e(rng);
        e.dom = 100000;
        S().cur = C13;
        auto& s = e.add_t(T{}, Model{}, false);
        int mode = static_cast<int>(rng.below(3));
        bool refused = false;
        // grows by the same edits, in place and in nodes of its own
        T own{};
        long limit = static_cast<long>(s.t->max_size()) + 2;
        for (long i = 0; i < limit && !refused; ++i) {
            P p = static_cast<T const&>(*s.t).persistent();
            Edit_ ed = next(e, s.m, mode, i);
            Model m2 = s.m;
            En::apply(m2, ed);
            log_op("P.insert", ed.pos, ed.e.k, static_cast<long>(p.depth()));
            bool ok = true;
            P q = p;
            uint64_t form = rng.below(6);
            try {
                q = insert_as(e, p, form, s.m, ed);
            } catch (std::logic_error const&) {
                ok = false;
            }
            S().steps++;
            S().op_counts["insert into a small Persistent"]++;
            bool own_ok = true;
            log_op("T.insert in place", ed.pos, ed.e.k, static_cast<long>(own.depth()));
            try {
                insert_as(e, own, form, s.m, ed);
            } catch (std::logic_error const&) {
                own_ok = false;
            }
            S().steps++;
            S().op_counts["insert into a small Transient"]++;
            MON_CHECK(C13, ok == own_ok, "a Persistent %s the insert that a Transient of the same shape %s", ok ? "accepts" : "refuses", own_ok ? "accepts" : "refuses");
            e.check_all_one(C13, own, own_ok ? m2 : s.m, own_ok ? "insert in place that was accepted near the depth limit" : "unshared Transient that refused an insert at its depth limit");
            if (!own_ok) {
                Model mo = s.m;
                for (int j = 0; j < 3; ++j) {
                    if (mo.empty()) break;
                    if (rng.chance(1, 2)) { own.pop_back(); mo.pop_back(); } else { own.pop_front(); mo.erase(mo.begin()); }
                    e.check_all_one(C13, own, mo, "edit of an unshared Transient that refused an insert at its depth limit");
                }
            }
            if (ok) {
                e.check_all_one(C13, q, m2, "insert that was accepted near the depth limit");
                *s.t = static_cast<P const&>(q).transient();
                s.m = m2;
            } else {
                MON_CHECK(C13, p.depth() == p.max_depth(), "insert refused at depth %zu of %zu", p.depth(), p.max_depth());
                refused = true;
                S().counters["depth limit reached"]++;
                S().counters["max elements at refusal"] = std::max<uint64_t>(S().counters["max elements at refusal"], s.m.size());
                e.check_all_one(C13, p, s.m, "Persistent that refused an insert at its depth limit");
                e.check_all_one(C13, *s.t, s.m, "Transient sharing nodes with a Persistent that refused an insert");
                // other edits still work on it
                for (int j = 0; j < 4; ++j) {
                    Edit_ e2;
                    if (!e.choose(s.m, rng.chance(1, 2) ? En::ERA : En::SET, e2)) break;
                    Tag tag = C13;
                    char const* op = "?";
                    P r = e.edit_p(p, s.m, e2, tag, op);
                    Model m3 = s.m;
                    En::apply(m3, e2);
                    e.check_all_one(C13, r, m3, "edit after an insert refused at the depth limit");
                }
                // the in-place form
                T victim = static_cast<P const&>(p).transient();
                log_op("T.insert at the depth limit", ed.pos, ed.e.k);
                bool threw = false;
                try {
                    // the same form: others may descend to a leaf that still has room
                    insert_as(e, victim, form, s.m, ed);
                } catch (std::logic_error const&) {
                    threw = true;
                }
                MON_CHECK(C13, threw, "a Transient at its depth limit accepts the insert its Persistent refused");
                e.check_all_one(C13, victim, s.m, "Transient that refused an insert at its depth limit");
                // and goes on working
                Model mv = s.m;
                for (int j = 0; j < 3; ++j) {
                    if (mv.empty()) break;
                    if (rng.chance(1, 2)) { victim.pop_back(); mv.pop_back(); } else { victim.pop_front(); mv.erase(mv.begin()); }
                    e.check_all_one(C13, victim, mv, "edit of a Transient that refused an insert at its depth limit");
                }
                e.check_all_one(C13, p, s.m, "Persistent after a refused insert into a Transient derived from it");
            }
        }
        MON_CHECK(C13, refused, "no insert is refused beyond max_size()");
        context(mix(hash_str("exhaust"), s.m.size()));
    }
    static Edit_ next(En& e, Model const& m, int mode, long i) {
        Edit_ ed;
        ed.kind = En::INS;
        if (mode == 0 || !C::ordered) {
            ed.pos = mode == 0 ? static_cast<long>(m.size()) : mode == 1 ? 0 : e.rng.range(0, static_cast<long>(m.size()));
            ed.e = C::ordered ? E{i * 3 + 5, e.newm()} : e.newelem();
        } else if (mode == 1) {
            ed.pos = 0;
            ed.e = E{50000 - i * 3, e.newm()};
        } else {
            long k = e.absent_key(m);
            ed.e = E{k, e.newm()};
            ed.pos = En::lbpos(m, k);
        }
        return ed;
    }
};

#define STR2(x) #x
#define STR(x) STR2(x)
int main(int argc, char** argv) {
    mon::init(argc, argv);
    eng::set_profile();
#ifdef EXHAUST
    episodes(STR(CFG) "-exhaust", S().episodes, [](Rng& rng) { Misuse<cfg::CFG>::exhaust(rng); });
#else
    profile().steps = 120;
    run_config<cfg::CFG>(STR(CFG), &Misuse<cfg::CFG>::step, 40);
#endif
    return mon::finish();
}
