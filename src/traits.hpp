// Element traits: every element type is described by integers (key id, mapped id) in an order-preserving way.
#pragma once
#include <cstdint>
#include <string>
#include <utility>
#include <tuple>
#include <memory>
#include <vector>
#include <type_traits>
#include "mon.hpp"

namespace tr {

template <class T, class = void> struct Conv;

template <class T> struct Conv<T, std::enable_if_t<std::is_arithmetic_v<T>>> {
    static T mk(long i) { return static_cast<T>(i); }
    static long id(T const& t) { return static_cast<long>(t); }
};

template <> struct Conv<std::string> {
    // longer than the small string buffer, equal-length so that the lexicographic order is the numeric one
    static std::string mk(long i) {
        char b[64];
        snprintf(b, sizeof b, "heap-allocated-key-%010ld", i + 1000000);
        return b;
    }
    static long id(std::string const& s) { return s.size() < 29 ? -999999999 : strtol(s.c_str() + 19, nullptr, 10) - 1000000; }
};

// short strings exercise the in-object buffer
struct SmallStr {
    std::string s;
    SmallStr() = default;
    explicit SmallStr(std::string v) : s(std::move(v)) {}
    friend bool operator==(SmallStr const& a, SmallStr const& b) { return a.s == b.s; }
    friend bool operator<(SmallStr const& a, SmallStr const& b) { return a.s < b.s; }
};
template <> struct Conv<SmallStr> {
    static SmallStr mk(long i) { char b[24]; snprintf(b, sizeof b, "%08ld", i + 1000000); return SmallStr(b); }
    static long id(SmallStr const& s) { return s.s.size() < 8 ? -999999999 : strtol(s.s.c_str(), nullptr, 10) - 1000000; }
};

struct alignas(32) Wide {
    int64_t a = 0;
    int64_t pad[3]{};
    Wide() = default;
    explicit Wide(int64_t v) : a(v) { pad[0] = v ^ 0x55; pad[1] = ~v; pad[2] = v + 1; }
    bool sane() const { return pad[0] == (a ^ 0x55) && pad[1] == ~a && pad[2] == a + 1; }
    friend bool operator==(Wide const& x, Wide const& y) { return x.a == y.a && x.sane() && y.sane(); }
    friend bool operator<(Wide const& x, Wide const& y) { return x.a < y.a; }
};
template <> struct Conv<Wide> {
    static Wide mk(long i) { return Wide(i); }
    static long id(Wide const& w) { return w.sane() ? static_cast<long>(w.a) : -999999999; }
};

// not default constructible, not assignable from anything but itself
struct NoDefault {
    std::unique_ptr<int> p;
    explicit NoDefault(int v) : p(new int(v)) {}
    NoDefault(NoDefault const& o) : p(o.p ? new int(*o.p) : nullptr) {}
    NoDefault(NoDefault&& o) noexcept : p(std::move(o.p)) {}
    NoDefault& operator=(NoDefault const& o) { p.reset(o.p ? new int(*o.p) : nullptr); return *this; }
    NoDefault& operator=(NoDefault&& o) noexcept { p = std::move(o.p); return *this; }
    friend bool operator==(NoDefault const& a, NoDefault const& b) { return a.p && b.p ? *a.p == *b.p : !a.p && !b.p; }
};
template <> struct Conv<NoDefault> {
    static NoDefault mk(long i) { return NoDefault(static_cast<int>(i)); }
    static long id(NoDefault const& w) { return w.p ? *w.p : -999999999; }
};

template <> struct Conv<std::shared_ptr<long>> {
    static std::shared_ptr<long> mk(long i) { return std::make_shared<long>(i); }
    static long id(std::shared_ptr<long> const& w) { return w ? *w : -999999999; }
};

template <> struct Conv<std::vector<int32_t>> {
    static std::vector<int32_t> mk(long i) { return {static_cast<int32_t>(i), static_cast<int32_t>(~i), 7}; }
    static long id(std::vector<int32_t> const& v) { return v.size() == 3 && v[1] == ~v[0] && v[2] == 7 ? v[0] : -999999999; }
};

// ordered by rank alone, equal only if the spelling is the same too
struct CIKey {
    int32_t rank = 0;
    uint32_t spelling = 0;
    friend bool operator<(CIKey const& a, CIKey const& b) { return a.rank < b.rank; }
    friend bool operator==(CIKey const& a, CIKey const& b) { return a.rank == b.rank && a.spelling == b.spelling; }
    friend bool operator!=(CIKey const& a, CIKey const& b) { return !(a == b); }
};
template <> struct Conv<CIKey> {
    static CIKey mk(long i) { static uint32_t n = 0; return CIKey{static_cast<int32_t>(i), ++n}; }
    static long id(CIKey const& k) { return k.rank; }
};

// like an optional or a pointer, some of which are empty; these must not be dereferenced
struct MaybeKey {
    int32_t rank = 0;
    bool engaged() const { return (rank & 3) != 0; }
    explicit operator bool() const { return engaged(); }
    int32_t const& operator*() const {
        if (!engaged()) { fprintf(stderr, "an empty key is dereferenced\n"); abort(); }
        return rank;
    }
    friend bool operator==(MaybeKey const& a, MaybeKey const& b) { return a.rank == b.rank; }
    friend bool operator<(MaybeKey const& a, MaybeKey const& b) { return a.rank < b.rank; }
};
template <> struct Conv<MaybeKey> {
    static MaybeKey mk(long i) { return MaybeKey{static_cast<int32_t>(i)}; }
    static long id(MaybeKey const& k) { return k.rank; }
};

// a summand that owns memory
struct Money {
    std::unique_ptr<long> v;
    Money() : v(new long(0)) {}
    explicit Money(long x) : v(new long(x)) {}
    // what was moved from may still be copied, but not counted
    Money(Money const& o) : v(o.v ? new long(*o.v) : nullptr) {}
    Money(Money&& o) noexcept = default;
    Money& operator=(Money const& o) { if (this != &o) v.reset(o.v ? new long(*o.v) : nullptr); return *this; }
    Money& operator=(Money&& o) noexcept = default;
    long get() const {
        if (!v) { fprintf(stderr, "a sum that was moved from is read\n"); abort(); }
        return *v;
    }
    explicit operator long() const { return get(); }
    Money& operator+=(Money const& o) { long x = get() + o.get(); v.reset(new long(x)); return *this; }
    Money& operator-=(Money const& o) { long x = get() - o.get(); v.reset(new long(x)); return *this; }
    friend Money operator+(Money const& a, Money const& b) { return Money(a.get() + b.get()); }
    friend Money operator-(Money const& a, Money const& b) { return Money(a.get() - b.get()); }
    friend Money operator-(Money const& a) { return Money(-a.get()); }
    friend bool operator==(Money const& a, Money const& b) { return a.get() == b.get(); }
    friend bool operator<(Money const& a, Money const& b) { return a.get() < b.get(); }
};

// elements that compare by rank alone, although they carry more than that
struct Loose {
    int32_t rank = 0, rest = 0;
    Loose() = default;
    Loose(int32_t r, int32_t m) : rank(r), rest(m) {}
    friend bool operator==(Loose const& a, Loose const& b) { return a.rank == b.rank; }
    friend bool operator!=(Loose const& a, Loose const& b) { return a.rank != b.rank; }
    friend bool operator<(Loose const& a, Loose const& b) { return a.rank < b.rank; }
};
struct LooseT {
    using V = Loose;
    using Key = int32_t;
    using M = int32_t;
    static constexpr bool has_mapped = true, is_pair = false;
    static constexpr int kid_index = 0;
    static V mk(long k, long m) { return V(static_cast<int32_t>(k), static_cast<int32_t>(m)); }
    static long kid(V const& v) { return v.rank; }
    static long mid(V const& v) { return v.rest; }
    static Key mkkey(long k) { return static_cast<int32_t>(k); }
    static M mkm(long m) { return static_cast<int32_t>(m); }
    static bool eq(V const& a, V const& b) { return a.rank == b.rank && a.rest == b.rest; }
    template <class F> static decltype(auto) call2(F&& f, long k, long m) { return f(static_cast<int32_t>(k), static_cast<int32_t>(m)); }
};

template <class T> struct ScalarT {
    using V = T;
    using Key = T;
    using M = T;
    static constexpr bool has_mapped = false, is_pair = false;
    static constexpr int kid_index = 0;
    static V mk(long k, long) { return Conv<T>::mk(k); }
    static long kid(V const& v) { return Conv<T>::id(v); }
    static long mid(V const& v) { return Conv<T>::id(v); }
    static Key mkkey(long k) { return Conv<T>::mk(k); }
    static M mkm(long k) { return Conv<T>::mk(k); }
    static bool eq(V const& a, V const& b) { return kid(a) == kid(b); }
    template <class F> static decltype(auto) call2(F&& f, long k, long) { return f(Conv<T>::mk(k)); }
};

template <class A, class B, int ki> struct PairT {
    using V = std::pair<A, B>;
    using Key = std::conditional_t<ki == 0, A, B>;
    using M = std::conditional_t<ki == 0, B, A>;
    static constexpr bool has_mapped = true, is_pair = true;
    static constexpr int kid_index = ki;
    static V mk(long k, long m) { return ki == 0 ? V(Conv<A>::mk(k), Conv<B>::mk(m)) : V(Conv<A>::mk(m), Conv<B>::mk(k)); }
    static long kid(V const& v) { return Conv<Key>::id(std::get<ki>(v)); }
    static long mid(V const& v) { return Conv<M>::id(std::get<1 - ki>(v)); }
    static Key mkkey(long k) { return Conv<Key>::mk(k); }
    static M mkm(long m) { return Conv<M>::mk(m); }
    static bool eq(V const& a, V const& b) { return kid(a) == kid(b) && mid(a) == mid(b); }
    // f(first, second) with temporaries
    template <class F> static decltype(auto) call2(F&& f, long k, long m) {
        if constexpr (ki == 0) return f(Conv<A>::mk(k), Conv<B>::mk(m));
        else return f(Conv<A>::mk(m), Conv<B>::mk(k));
    }
    static A first(long k, long m) { return Conv<A>::mk(ki == 0 ? k : m); }
    static B second(long k, long m) { return Conv<B>::mk(ki == 0 ? m : k); }
};

template <class A, class B, int ki> struct TupT {
    using V = std::tuple<A, B>;
    using Key = std::conditional_t<ki == 0, A, B>;
    using M = std::conditional_t<ki == 0, B, A>;
    static constexpr bool has_mapped = true, is_pair = false;
    static constexpr int kid_index = ki;
    static V mk(long k, long m) { return ki == 0 ? V(Conv<A>::mk(k), Conv<B>::mk(m)) : V(Conv<A>::mk(m), Conv<B>::mk(k)); }
    static long kid(V const& v) { return Conv<Key>::id(std::get<ki>(v)); }
    static long mid(V const& v) { return Conv<M>::id(std::get<1 - ki>(v)); }
    static Key mkkey(long k) { return Conv<Key>::mk(k); }
    static M mkm(long m) { return Conv<M>::mk(m); }
    static bool eq(V const& a, V const& b) { return kid(a) == kid(b) && mid(a) == mid(b); }
    template <class F> static decltype(auto) call2(F&& f, long k, long m) {
        if constexpr (ki == 0) return f(Conv<A>::mk(k), Conv<B>::mk(m));
        else return f(Conv<A>::mk(m), Conv<B>::mk(k));
    }
};
}
