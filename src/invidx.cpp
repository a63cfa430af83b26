// C20: the example inverted index against a map from terms to sorted document sets.
// The example has defects that are recorded in known_findings.txt; around them:
//  - BYTERM, PERSIST: separate builds that use the lookup by term and the Persistent form (run.py expects that these do not
//    compile today); the other builds look terms up themselves and are compiled with -fno-access-control
//  - every index starts with a term that is larger than all the others, see probe()
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <algorithm>
#include <cstdlib>
#include <new>
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>
#include "mon.hpp"
#include "traits.hpp"
#include "inverted_index.hpp"
using namespace mon;

#if CFG == 1
static bool zero_fill = false;
void* operator new(size_t n) { void* p = zero_fill ? calloc(1, n) : malloc(n); if (!p) abort(); return p; }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
// The first term, and each that is larger than all others, is compared with an element that does not exist. Here that
// happens to equal the term. In a process of its own.
static void probe() {
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        int null = open("/dev/null", O_WRONLY);
        dup2(null, 1);
        dup2(null, 2);
        zero_fill = true;
        InvertedIndex<uint32_t>::Transient t{};
        t.insert(0u, 5u);
        auto it = t.term_list().begin();
        bool ok = t.term_list().size() == 1 && it->first == 0 && it->second == 1;
        _exit(ok ? 0 : 1);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    S().counters["probes of a new largest term"]++;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return;
    S().known.push_back("C20|new-largest-term-reads-end|inserting a term larger than all others into the example index compares it with *end()");
}
#endif

template <class Index, class Term>
struct Run {
    using T = typename Index::Transient;
    using P = typename Index::Persistent;
    using Model = std::map<Term, std::set<uint32_t>>;
    Rng& rng;
    struct HT { std::unique_ptr<T> t; Model m; };
    struct HP { std::unique_ptr<P> p; Model m; };
    std::vector<HT> ts;
    std::vector<HP> ps;
    long terms, docs;
    int style;
    long clock = 0;
    explicit Run(Rng& r) : rng(r) {
        static constexpr long nt[] = {1, 3, 12, 40, 200, 600};
        static constexpr long nd[] = {2, 10, 60, 400, 3000};
        terms = nt[rng.below(6)];
        docs = nd[rng.below(5)];
        style = static_cast<int>(rng.below(4));
    }

    Term mk(long i) { return tr::Conv<Term>::mk(i); }

    template <class Doc>
    void check_range(std::pair<Doc, Doc> r, std::set<uint32_t> const& want, char const* what) {
        auto w = want.begin();
        size_t n = 0;
        for (Doc it = r.first; it != r.second; ++it, ++n) {
            MON_CHECK(C20, n < want.size(), "%s: more than the %zu documents inserted for the term", what, want.size());
            uint32_t got = it.get();
            MON_CHECK(C20, got == *w, "%s: document %zu of the term is %u, expected %u", what, n, got, *w);
            ++w;
        }
        MON_CHECK(C20, n == want.size(), "%s: %zu documents, expected %zu", what, n, want.size());
        MON_CHECK(C20, static_cast<size_t>(r.second - r.first) == want.size(), "%s: distance of the document range", what);
        if (!want.empty()) {
            // the range supports binary search
            long d = rng.range(0, docs);
            auto lb = std::lower_bound(r.first, r.second, static_cast<uint32_t>(d));
            auto wl = want.lower_bound(static_cast<uint32_t>(d));
            MON_CHECK(C20, (lb == r.second) == (wl == want.end()), "%s: lower_bound in a document range", what);
            if (wl != want.end()) MON_CHECK(C20, lb.get() == *wl, "%s: lower_bound in a document range finds another document", what);
        }
    }

    template <class X>
    void check_term(X const& x, Model const& m, Term const& term, char const* what) {
        auto mi = m.find(term);
        static const std::set<uint32_t> none;
#ifdef BYTERM
        check_range(x.term_doc_iterator(term), mi == m.end() ? none : mi->second, what);
#else
        (void) none;
        MON_CHECK(C20, x.term_list().find(term).valid() == (mi != m.end()), "%s: find of a term", what);
#endif
        if (mi == m.end()) MON_CHECK(C20, !x.term_list().contains(term), "%s: an absent term is listed", what);
        else {
            MON_CHECK(C20, x.term_list().at_key(term) == mi->second.size(), "%s: document count of a term is %lu, expected %zu", what, static_cast<unsigned long>(x.term_list().at_key(term)), mi->second.size());
            check_range(x.term_doc_iterator(x.term_list().find(term)), mi->second, what);
        }
    }

    template <class X>
    void check(X const& x, Model const& m, char const* what) {
        auto mi = m.begin();
        size_t n = 0;
        for (auto it = x.term_list().begin(); it != x.term_list().end(); ++it, ++mi, ++n) {
            MON_CHECK(C20, mi != m.end(), "%s: more terms than inserted", what);
            MON_CHECK(C20, it->first == mi->first, "%s: term %zu is another one", what, n);
            MON_CHECK(C20, it->second == mi->second.size(), "%s: count of term %zu is %lu, expected %zu", what, n, static_cast<unsigned long>(it->second), mi->second.size());
            check_range(x.term_doc_iterator(it), mi->second, what);
        }
        MON_CHECK(C20, mi == m.end() && x.term_list().size() == m.size(), "%s: terms are missing", what);
        // reverse iterators over the terms name the same slices
        if (rng.chance(1, 3)) {
            auto mr = m.rbegin();
            for (auto it = x.term_list().rbegin(); it != x.term_list().rend(); ++it, ++mr) {
                MON_CHECK(C20, mr != m.rend() && it->first == mr->first, "%s: terms in reverse order", what);
                check_range(x.term_doc_iterator(it), mr->second, what);
            }
        }
        for (int i = 0; i < 4; ++i) check_term(x, m, mk(rng.range(-2, terms + 2)), what);
        context(mix(hash_str(what), mix(static_cast<uint64_t>(x.term_list().depth()), mix(m.size() < 4 ? m.size() : 4 + static_cast<uint64_t>(std::log2(m.size())), ps.size()))));
        S().counters["max depth of the term list"] = std::max<uint64_t>(S().counters["max depth of the term list"], x.term_list().depth());
    }

    long pick_term() {
        switch (style) {
            case 0: return rng.range(0, terms - 1);
            case 1: return std::min(terms - 1, clock++ / 7);           // ascending terms
            case 2: return std::max<long>(0, terms - 1 - clock++ / 5);  // descending terms
            default: return rng.chance(2, 3) ? rng.range(0, std::min<long>(terms - 1, 2)) : rng.range(0, terms - 1);  // a few heavy terms
        }
    }
    uint32_t pick_doc() {
        if (rng.chance(1, 60)) return 0xFFFFFFFFu;
        return static_cast<uint32_t>(style == 1 && rng.chance(3, 4) ? clock : rng.range(0, docs));
    }

    void did(char const* op, long a = 0, long b = 0) {
        log_op(op, a, b);
        S().op_counts[op]++;
        S().steps++;
    }

    void recheck() {
        for (auto& h : ts) check(*h.t, h.m, "a Transient index");
        for (auto& h : ps) check(*h.p, h.m, "a Persistent index");
    }

    void insert_t(HT& h) {
        long ti = pick_term();
        uint32_t d = pick_doc();
        Term t = mk(ti);
        Term keep = t;
        switch (rng.below(3)) {
            case 0: did("insert(lvalue)", ti, d); h.t->insert(t, d); MON_CHECK(C20, t == keep, "insert changed its argument"); break;
            case 1: did("insert(rvalue)", ti, d); h.t->insert(std::move(t), d); break;
            default: {
                // a reference to a term held by this index or by a snapshot
                auto f = h.t->term_list().find(keep);
                if (f.valid()) { did("insert(own term)", ti, d); h.t->insert(f->first, d); }
                else { did("insert(const lvalue)", ti, d); h.t->insert(std::as_const(t), d); }
            }
        }
        h.m[keep].insert(d);
        check_term(*h.t, h.m, keep, "after insert");
        check_term(*h.t, h.m, mk(ti + 1), "next term after insert");
        check_term(*h.t, h.m, mk(ti - 1), "previous term after insert");
    }

    void step() {
        HT& h = ts[rng.below(ts.size())];
        unsigned r = static_cast<unsigned>(rng.below(100));
        if (r < 72) return insert_t(h);
        if (r < 84 && !ps.empty()) {
            HP& p = ps[rng.below(ps.size())];
            long ti = pick_term();
            uint32_t d = pick_doc();
            did("Persistent::insert", ti, d);
            Term t = mk(ti);
#ifdef PERSIST
            HP n{std::make_unique<P>(p.p->insert(t, d)), p.m};
#else
            auto derived = p.p->transient();
            derived.insert(t, d);
            HP n{std::make_unique<P>(std::move(derived).persistent()), p.m};
#endif
            MON_CHECK(C20, t == mk(ti), "insert changed its argument");
            n.m[t].insert(d);
            check_term(*n.p, n.m, t, "after Persistent::insert");
            check_term(*p.p, p.m, t, "source of Persistent::insert");
            if (rng.chance(1, 2)) { *p.p = *n.p; p.m = n.m; }   // the chain p = p.insert(...)
            else if (ps.size() < 6) ps.push_back(std::move(n));
            return;
        }
        if (r < 90) {
            if (ps.size() >= 5) { did("drop a snapshot"); ps.erase(ps.begin() + static_cast<long>(rng.below(ps.size()))); return; }
            did("persistent()");
            ps.push_back(HP{std::make_unique<P>(h.t->persistent()), h.m});
            check(*ps.back().p, ps.back().m, "a fresh snapshot");
            return;
        }
        if (r < 95 && !ps.empty()) {
            HP& p = ps[rng.below(ps.size())];
            did("transient()");
            if (ts.size() < 3) ts.push_back(HT{std::make_unique<T>(p.p->transient()), p.m});
            else { *h.t = p.p->transient(); h.m = p.m; }
            return;
        }
        if (r < 97) {
            did("copy of a Transient");
            if (ts.size() < 3) { T copy(*h.t); Model m = h.m; ts.push_back(HT{std::make_unique<T>(std::move(copy)), std::move(m)}); }
            else { HT& o = ts[rng.below(ts.size())]; if (&o != &h) { *h.t = *o.t; h.m = o.m; } }
            return;
        }
        if (r < 99 && ts.size() > 1) {
            did("persistent() of an rvalue");
            HT last = std::move(ts.back());
            ts.pop_back();
            if (ps.size() < 6) {
                ps.push_back(HP{std::make_unique<P>(std::move(*last.t).persistent()), last.m});
                check(*ps.back().p, ps.back().m, "a fresh snapshot");
            }
            return;
        }
        did("recheck");
        recheck();
    }

    void run() {
        ts.push_back(HT{std::make_unique<T>(), {}});
        check(*ts[0].t, ts[0].m, "an empty index");
        P e{};
        check(e, {}, "an empty Persistent index");
        ts[0].t->insert(mk(terms + 1000), 0xFFFFFFFEu);
        ts[0].m[mk(terms + 1000)].insert(0xFFFFFFFEu);
        check(*ts[0].t, ts[0].m, "an index of one term");
        ps.push_back(HP{std::make_unique<P>(ts[0].t->persistent()), ts[0].m});
        long n = rng.range(100, 900) * S().scale / 100;
        for (long i = 0; i < n; ++i) {
            S().step = i;
            step();
            if (i % 64 == 63) recheck();
        }
        recheck();
        sample("inverted index with " + std::to_string(ts[0].m.size()) + " terms, " + std::to_string(ps.size()) + " snapshots: " + ring_text(10));
    }
};

int main(int argc, char** argv) {
    mon::init(argc, argv);
    S().cur = C20;
#if CFG == 1
    probe();
#endif
    long n = S().episodes;
#if CFG == 1
    episodes("tiny uint32", n, [](Rng& r) { Run<InvertedIndex<uint32_t, NODE_HDR + 16, NODE_HDR + 64, 9>, uint32_t>(r).run(); });
#elif CFG == 2
    episodes("tiny string", n, [](Rng& r) { Run<InvertedIndex<std::string, NODE_HDR + 2 * 40, NODE_HDR + 4 * (8 + 32 + 4), 6>, std::string>(r).run(); });
#elif CFG == 3
    episodes("default int64", n, [](Rng& r) { Run<InvertedIndex<int64_t>, int64_t>(r).run(); });
#else
    episodes("default string", n, [](Rng& r) { Run<InvertedIndex<std::string>, std::string>(r).run(); });
#endif
    return mon::finish();
}
