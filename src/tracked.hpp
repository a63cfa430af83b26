// Elements that record their own construction, use and destruction.
#pragma once
#include <unordered_map>
#include "traits.hpp"

namespace tr {
struct Registry {
    std::unordered_map<void const*, int> live;
    uint64_t constructed = 0, copied = 0, moved = 0, assigned = 0, destroyed = 0;
    static Registry& get() { static Registry* r = new Registry; return *r; }
};

template <int Kind> struct Tracked {
    static constexpr uint32_t LIVE = 0x4C495645u + Kind, DEAD = 0xDEADDEADu;
    uint32_t magic;
    int32_t v;
    Tracked* self;
    static inline long live_count = 0;

    void born() {
        Registry& r = Registry::get();
        auto ins = r.live.emplace(this, Kind);
        if (!ins.second) mon::die_violation(mon::C11, "an element is constructed on top of a live element");
        magic = LIVE;
        self = this;
        ++live_count;
    }
    void alive(char const* what) const {
        if (magic != LIVE || self != this) mon::die_violation(mon::C11, std::string("an element that is not alive is ") + what);
        if (!Registry::get().live.count(this)) mon::die_violation(mon::C11, std::string("an object that was never constructed is ") + what);
    }
    Tracked() { v = 0; born(); Registry::get().constructed++; }
    explicit Tracked(int32_t x) { v = x; born(); Registry::get().constructed++; }
    Tracked(Tracked const& o) { o.alive("copied"); v = o.v; born(); Registry::get().copied++; }
    Tracked(Tracked&& o) noexcept { o.alive("moved from"); v = o.v; o.v = -777777; born(); Registry::get().moved++; }
    Tracked& operator=(Tracked const& o) { alive("assigned to"); o.alive("copied"); v = o.v; Registry::get().assigned++; return *this; }
    Tracked& operator=(Tracked&& o) noexcept {
        alive("assigned to");
        o.alive("moved from");
        // as with a standard container, a move onto itself leaves nothing
        if (&o != this) v = o.v;
        o.v = -777777;
        Registry::get().assigned++;
        return *this;
    }
    ~Tracked() {
        alive("destroyed");
        Registry::get().live.erase(this);
        magic = DEAD;
        self = nullptr;
        --live_count;
        Registry::get().destroyed++;
    }
    friend bool operator==(Tracked const& a, Tracked const& b) { a.alive("read"); b.alive("read"); return a.v == b.v; }
    friend bool operator<(Tracked const& a, Tracked const& b) { a.alive("read"); b.alive("read"); return a.v < b.v; }
};
template <int K> struct Conv<Tracked<K>> {
    static Tracked<K> mk(long i) { return Tracked<K>(static_cast<int32_t>(i)); }
    static long id(Tracked<K> const& t) { t.alive("read"); return t.v == -777777 ? -999999999 : t.v; }
};
using Val = Tracked<1>;
using KeyT = Tracked<2>;
}
