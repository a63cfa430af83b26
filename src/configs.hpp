// Tree configurations exercised by the history engine. One translation unit per configuration (-DCFG=Name).
#pragma once
#include "engine.hpp"

namespace cfg {
using namespace eng;
template <class A, class B> using PR = std::pair<A, B>;

// internal node budget: header + n children of `per` bytes, with room for another member
constexpr int inb(int n, int per) { return NODE_HDR + 8 + n * per; }

// unordered sequence of ints, tiny nodes
struct SeqInt : Base {
    using Tr = tr::ScalarT<int32_t>;
    using Tree = BppTree<int32_t, NODE_HDR + 3 * 4, inb(4, 8 + 8 + 4 + 4 + 4), 6>::mixins<IndexedBuilder<>, SummedBuilder<>, MinBuilder<>, MaxBuilder<>>;
    static constexpr bool indexed = true, summed = true, hasmin = true, hasmax = true;
};
// ordered map, every mixin, tiny nodes
struct MapInt : Base {
    using Tr = tr::PairT<int32_t, int32_t, 0>;
    using Tree = BppTree<PR<int32_t, int32_t>, NODE_HDR + 2 * 8, inb(4, 8 + 4 + 8 + 4 + 4 + 4), 6>::mixins<OrderedBuilder<>, IndexedBuilder<>, SummedBuilder<PairExtractor<1>>, MinBuilder<PairExtractor<1>>, MaxBuilder<PairExtractor<1>>>;
    static constexpr bool ordered = true, indexed = true, summed = true, hasmin = true, hasmax = true, piecewise = true;
};
// heap-allocated keys, ordered only (so tree[key] proxies apply), binary search
struct MapStr : Base {
    using Tr = tr::PairT<std::string, int64_t, 0>;
    using Tree = BppTree<PR<std::string, int64_t>, NODE_HDR + 3 * 40, inb(4, 8 + 32 + 8), 6>::mixins<OrderedBuilder<>::binary_search<true>, SummedBuilder<PairExtractor<1>>>;
    static constexpr bool ordered = true, summed = true, piecewise = true, nonneg = false;
};
// descending set of unsigned, one element per leaf
struct SetDesc : Base {
    using Tr = tr::ScalarT<uint32_t>;
    using Tree = BppTree<uint32_t, NODE_HDR + 1 * 4, inb(4, 8 + 4 + 4 + 4), 7, false>::mixins<OrderedBuilder<ValueExtractor, MaxComparator>, SummedBuilder<>, MinBuilder<ValueExtractor, MaxComparator>>;
    static constexpr bool ordered = true, summed = true, hasmin = true, desc = true, min_flip = true;
    static constexpr Sel sumsel = SEL_K, minsel = SEL_K;
};
// default node sizes, everything, signed values, binary search, mixins in another order
struct MapBig : Base {
    using Tr = tr::PairT<int64_t, int32_t, 0>;
    using Tree = BppTree<PR<int64_t, int32_t>, 512, 512, 5>::mixins<MaxBuilder<PairExtractor<1>>, SummedBuilder<PairExtractor<1>>, IndexedBuilder<int32_t>, MinBuilder<PairExtractor<0>>, OrderedBuilder<PairExtractor<0>, MinComparator, std::true_type>>;
    static constexpr bool ordered = true, indexed = true, summed = true, hasmin = true, hasmax = true, piecewise = true, nonneg = false, key_bracket = false;
    static constexpr Sel minsel = SEL_K;
    static constexpr long cap = 1500;
};
// tuple elements keyed by their second component, narrow index type, swapped comparators
struct TupKey : Base {
    using Tr = tr::TupT<int32_t, uint16_t, 1>;
    using Tree = BppTree<std::tuple<int32_t, uint16_t>, NODE_HDR + 4 * 8, inb(5, 8 + 2 + 2 + 4 + 4 + 2), 5>::mixins<IndexedBuilder<uint16_t>, OrderedBuilder<TupleExtractor<1>>, SummedBuilder<TupleExtractor<0>>, MinBuilder<TupleExtractor<0>, MaxComparator>, MaxBuilder<TupleExtractor<1>, MaxComparator>>;
    static constexpr bool ordered = true, indexed = true, summed = true, hasmin = true, hasmax = true, min_flip = true, nonneg = false, key_bracket = false;
    static constexpr Sel maxsel = SEL_K;
    static constexpr long kmax = 60000;
};
// no mixins at all, elements that own memory and cannot be default constructed
struct PlainOwn : Base {
    using Tr = tr::ScalarT<tr::NoDefault>;
    using Tree = BppTree<tr::NoDefault, NODE_HDR + 2 * 8, inb(4, 8), 6>::mixins<>;
};
// sequence of over-aligned elements, indexed only (so tree[index] proxies apply)
struct SeqWide : Base {
    using Tr = tr::ScalarT<tr::Wide>;
    using Tree = BppTree<tr::Wide, 24 + NODE_HDR + 4 * 32, inb(4, 8 + 4), 6, true>::mixins<IndexedBuilder<int32_t>>;
    static constexpr bool indexed = true;
};
// a deep tree: iterator encodings use more than 32 bits
struct Deep : Base {
    using Tr = tr::ScalarT<int64_t>;
    using Tree = BppTree<int64_t, NODE_HDR + 1 * 8, inb(4, 8 + 8 + 8), 13>::mixins<IndexedBuilder<int64_t>, SummedBuilder<>>;
    static constexpr bool indexed = true, summed = true, nonneg = false;
    static constexpr long cap = 2500, thin = 60000, mlim = 1L << 40;
};
// sequence with string elements and min/max of strings
struct SeqStr : Base {
    using Tr = tr::ScalarT<std::string>;
    using Tree = BppTree<std::string, NODE_HDR + 2 * 32, inb(4, 8 + 8 + 32 + 32), 6>::mixins<MinBuilder<>, IndexedBuilder<>, MaxBuilder<>>;
    static constexpr bool indexed = true, hasmin = true, hasmax = true;
};
// unsigned sums, unordered pairs
struct SeqPair : Base {
    using Tr = tr::PairT<uint64_t, uint32_t, 0>;
    using Tree = BppTree<PR<uint64_t, uint32_t>, NODE_HDR + 5 * 16, inb(6, 8 + 8 + 8), 5>::mixins<SummedBuilder<PairExtractor<1>>, MaxBuilder<PairExtractor<0>>>;
    static constexpr bool summed = true, hasmax = true, piecewise = true;
    static constexpr Sel maxsel = SEL_K;
};
// elements that a move onto themselves empties
struct SeqVec : Base {
    using Tr = tr::ScalarT<std::vector<int32_t>>;
    using Tree = BppTree<std::vector<int32_t>, NODE_HDR + 4 * 24, inb(4, 8 + 8), 6>::mixins<IndexedBuilder<>>;
    static constexpr bool indexed = true;
};
// keys that are equivalent without being equal, sums beyond 32 bits, unsigned 32-bit index
struct MapCI : Base {
    using Tr = tr::PairT<tr::CIKey, int64_t, 0>;
    using Tree = BppTree<PR<tr::CIKey, int64_t>, NODE_HDR + 3 * 16, inb(4, 8 + 8 + 4 + 8), 6>::mixins<OrderedBuilder<>, IndexedBuilder<uint32_t>, SummedBuilder<PairExtractor<1>>>;
    static constexpr bool ordered = true, indexed = true, summed = true, piecewise = true;
    static constexpr long mlim = 1L << 45;
};
// the same in a set, in descending order, searched by bisection
struct SetCI : Base {
    using Tr = tr::ScalarT<tr::CIKey>;
    using Tree = BppTree<tr::CIKey, NODE_HDR + 4 * 8, inb(5, 8 + 8 + 8), 6>::mixins<OrderedBuilder<ValueExtractor, MaxComparator>::binary_search<true>, MaxBuilder<>>;
    static constexpr bool ordered = true, desc = true, hasmax = true;
    static constexpr Sel maxsel = SEL_K;
};
// floating point (integral values, so that the sums are exact)
struct SeqDbl : Base {
    using Tr = tr::ScalarT<double>;
    using Tree = BppTree<double, NODE_HDR + 2 * 8, inb(4, 8 + 8 + 8), 6>::mixins<SummedBuilder<>, MaxBuilder<>>;
    static constexpr bool summed = true, hasmax = true, nonneg = false;
};
// extractors that compute a value instead of selecting one
struct AddBoth {
    template <class A, class B> long operator()(PR<A, B> const& p) const { return static_cast<long>(p.first) + static_cast<long>(p.second); }
    template <class A, class B> long operator()(A const& a, B const& b) const { return static_cast<long>(a) + static_cast<long>(b); }
    template <class A, class B> long operator()(std::piecewise_construct_t, std::tuple<A> const& a, std::tuple<B> const& b) const { return static_cast<long>(std::get<0>(a)) + static_cast<long>(std::get<0>(b)); }
};
struct MapCust : Base {
    using Tr = tr::PairT<int32_t, int32_t, 1>;
    using Tree = BppTree<PR<int32_t, int32_t>, NODE_HDR + 3 * 8, inb(4, 8 + 4 + 8 + 8 + 8), 6>::mixins<MinBuilder<AddBoth>, MaxBuilder<AddBoth, MaxComparator>, OrderedBuilder<PairExtractor<1>>, SummedBuilder<AddBoth>>;
    static constexpr bool ordered = true, summed = true, hasmin = true, hasmax = true, piecewise = true;
    static constexpr Sel sumsel = SEL_KM, minsel = SEL_KM, maxsel = SEL_KM;
};
// shared_ptr elements next to an index
struct SeqSp : Base {
    using Tr = tr::ScalarT<std::shared_ptr<long>>;
    using Tree = BppTree<std::shared_ptr<long>, NODE_HDR + 3 * 16, inb(4, 8 + 8), 6>::mixins<IndexedBuilder<>>;
    static constexpr bool indexed = true;
};
// keys that look like pointers, some of them empty
struct MapNull : Base {
    using Tr = tr::PairT<tr::MaybeKey, int32_t, 0>;
    using Tree = BppTree<PR<tr::MaybeKey, int32_t>, NODE_HDR + 3 * 8, inb(4, 8 + 8 + 4), 6>::mixins<OrderedBuilder<>::binary_search<true>, MinBuilder<PairExtractor<0>>>;
    static constexpr bool ordered = true, hasmin = true, piecewise = true;
    static constexpr Sel minsel = SEL_K;
};
// leaves of more than 256 elements
struct SeqFat : Base {
    using Tr = tr::ScalarT<int16_t>;
    using Tree = BppTree<int16_t, NODE_HDR + 2 * 300, inb(4, 8 + 8 + 2), 5>::mixins<IndexedBuilder<int16_t>, MaxBuilder<>>;
    static constexpr bool indexed = true, hasmax = true, nonneg = false;
    static constexpr long cap = 2000, kmax = 30000;
};
// inner nodes of more than 256 children
struct MapFan : Base {
    using Tr = tr::PairT<int32_t, int32_t, 0>;
    using Tree = BppTree<PR<int32_t, int32_t>, NODE_HDR + 2 * 8, inb(290, 8 + 4 + 8 + 4), 3>::mixins<OrderedBuilder<>, IndexedBuilder<>, SummedBuilder<PairExtractor<1>>>;
    static constexpr bool ordered = true, indexed = true, summed = true, piecewise = true;
    static constexpr long cap = 2000;
};
// an index type that can only just count the elements
struct SeqByte : Base {
    using Tr = tr::ScalarT<int32_t>;
    using Tree = BppTree<int32_t, NODE_HDR + 3 * 4, inb(4, 8 + 1 + 4), 6>::mixins<IndexedBuilder<uint8_t>, SummedBuilder<>>;
    static constexpr bool indexed = true, summed = true;
    static constexpr long cap = 230;
};
// sums that own memory
struct ToMoney {
    template <class A, class B> tr::Money operator()(PR<A, B> const& p) const { return tr::Money(static_cast<long>(p.second)); }
};
struct MapMoney : Base {
    using Tr = tr::PairT<int32_t, int32_t, 0>;
    using Tree = BppTree<PR<int32_t, int32_t>, NODE_HDR + 2 * 8, inb(4, 8 + 4 + 8), 6>::mixins<SummedBuilder<ToMoney>, OrderedBuilder<>>;
    static constexpr bool ordered = true, summed = true;
};
// elements whose equality is coarser than identity
struct LooseRest {
    int32_t operator()(tr::Loose const& v) const { return v.rest; }
    template <class A, class B> int32_t operator()(A const&, B const& m) const { return static_cast<int32_t>(m); }
};
struct SeqLoose : Base {
    using Tr = tr::LooseT;
    using Tree = BppTree<tr::Loose, NODE_HDR + 3 * 8, inb(4, 8 + 8 + 8 + 4), 6>::mixins<IndexedBuilder<>, SummedBuilder<LooseRest>, MaxBuilder<LooseRest>>;
    static constexpr bool indexed = true, summed = true, hasmax = true;
};
// tracked elements: sequence with index
struct TrkSeq : Base {
    using Tr = tr::ScalarT<tr::Val>;
    using Tree = BppTree<tr::Val, NODE_HDR + 3 * 16, inb(4, 8 + 8), 6>::mixins<IndexedBuilder<>>;
    static constexpr bool indexed = true, tracked = true;
    static long live() { return tr::Val::live_count; }
};
// tracked keys (copied into inner nodes) and tracked mapped values
struct TrkMap : Base {
    using Tr = tr::PairT<tr::KeyT, tr::Val, 0>;
    using Tree = BppTree<PR<tr::KeyT, tr::Val>, NODE_HDR + 2 * 32, inb(4, 8 + 16 + 16), 6>::mixins<OrderedBuilder<>, MaxBuilder<PairExtractor<0>>>;
    static constexpr bool ordered = true, hasmax = true, tracked = true, piecewise = true;
    static constexpr Sel maxsel = SEL_K;
    static tr::Val const& tracked_of(PR<tr::KeyT, tr::Val> const& v) { return v.second; }
    static long live() { return tr::Val::live_count; }
};
// tracked mapped values under plain keys, no exceptions build of the tree
struct TrkIdx : Base {
    using Tr = tr::PairT<int32_t, tr::Val, 0>;
    using Tree = BppTree<PR<int32_t, tr::Val>, NODE_HDR + 4 * 24, inb(5, 8 + 4 + 8), 5, true>::mixins<OrderedBuilder<>::binary_search<true>, IndexedBuilder<>>;
    static constexpr bool ordered = true, indexed = true, tracked = true, piecewise = true;
    static tr::Val const& tracked_of(PR<int32_t, tr::Val> const& v) { return v.second; }
    static long live() { return tr::Val::live_count; }
};
// no mixins
struct TrkPlain : Base {
    using Tr = tr::ScalarT<tr::Val>;
    using Tree = BppTree<tr::Val, NODE_HDR + 2 * 16, inb(4, 8), 6>::mixins<>;
    static constexpr bool tracked = true;
    static long live() { return tr::Val::live_count; }
};
}
