// Descending map of tuples: key in the second field, binary search, signed sums, no safety checks, mixins in another order.
#include "cfg.hpp"
using namespace sim;
namespace {
struct Tup : CfgBase, Clamp<Tup> {
    using Value = std::tuple<int16_t, int32_t>; using Key = int32_t; using Num = int16_t;
    static constexpr uint32_t features = fOrdered | fIndexed | fSummed | fMin | fMax | fAllocFaults | fPair | fLeakProbe | fNumeric;
    static constexpr bool desc = true;
    static constexpr int subscript = 2;
    static constexpr int64_t vmin = INT16_MIN, vmax = INT16_MAX;
    using Index = int32_t;
    static Elem get(Value const& x) { return Elem{std::get<1>(x), std::get<0>(x)}; }
    static Value make(int64_t k, int64_t v) { return Value(static_cast<int16_t>(v), static_cast<int32_t>(k)); }
    static Key key(int64_t k) { return static_cast<Key>(k); }
    static int64_t mapped(Elem const& e) { return e.v; }
    static int64_t mapped_of(int16_t const& x) { return x; }
    static int16_t make_mapped(Elem const& e) { return static_cast<int16_t>(e.v); }
    static Key const& key_ref(Value const& x) { return std::get<1>(x); }
    static int16_t const& mapped_ref(Value const& x) { return std::get<0>(x); }
    template <typename Fn> static void two(int64_t k, int64_t v, Fn&& f) { f(static_cast<int16_t>(v), static_cast<int32_t>(k)); }
    template <typename Fn> static void piecewise(int64_t k, int64_t v, Fn&& f) { two(k, v, std::forward<Fn>(f)); }
    template <typename K, typename V, typename Fn> static auto both(K const& k, V const& v, Fn&& f) { return f(v, k); }
    static int64_t val(uint32_t raw) { return static_cast<int64_t>(raw % 201) - 100; }
    using Tree = bpptree::BppTree<Value, 72, 200, 6>::mixins<
        bpptree::MaxBuilder<bpptree::TupleExtractor<0>>, bpptree::IndexedBuilder<int32_t>,
        bpptree::OrderedBuilder<bpptree::TupleExtractor<1>, sim::Reversed>::binary_search<true>,
        bpptree::SummedBuilder<sim::WideOf<bpptree::TupleExtractor<0>, int64_t>>,
        bpptree::MinBuilder<bpptree::TupleExtractor<0>>>;
    using Transient = Tree::Transient; using Persistent = Tree::Persistent;
};
SIM_CONFIG("tup", Tup, "tuple<short,int> by second field descending, binary search, Max+Indexed+Ordered+Summed+Min, 72/200-byte nodes, no safety checks")
}
