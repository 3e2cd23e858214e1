// Map keyed by the second member of a pair, binary search, sums of the first.
#define BPPTREE_SAFETY_CHECKS
#include "cfg.hpp"
using namespace sim;
namespace {
struct PairV : CfgBase, Clamp<PairV> {
    using Value = std::pair<uint32_t, int64_t>; using Key = int64_t; using Num = uint32_t; using Sum = uint64_t;
    static constexpr uint32_t features = fOrdered | fIndexed | fSummed | fMax | fSafety | fAllocFaults | fPair | fNumeric | fLeakProbe;
    static constexpr bool nonneg = true;
    static constexpr int subscript = 1;
    using Index = uint8_t;
    static constexpr int64_t kmin = -(1LL << 60), kmax = 1LL << 60, vmax = UINT32_MAX;
    static Elem get(Value const& x) { return Elem{x.second, x.first}; }
    static Value make(int64_t k, int64_t v) { return Value(static_cast<uint32_t>(v), k); }
    static Key key(int64_t k) { return k; }
    static int64_t mapped(Elem const& e) { return e.v; }
    static int64_t mapped_of(uint32_t const& x) { return x; }
    static uint32_t make_mapped(Elem const& e) { return static_cast<uint32_t>(e.v); }
    static Key const& key_ref(Value const& x) { return x.second; }
    static uint32_t const& mapped_ref(Value const& x) { return x.first; }
    template <typename Fn> static void two(int64_t k, int64_t v, Fn&& f) { f(static_cast<uint32_t>(v), k); }
    template <typename Fn> static void piecewise(int64_t k, int64_t v, Fn&& f) { f(std::piecewise_construct, std::make_tuple(static_cast<uint32_t>(v)), std::make_tuple(k)); }
    template <typename K, typename V, typename Fn> static auto both(K const& k, V const& v, Fn&& f) { return f(v, k); }
    static int64_t val(uint32_t raw) { return raw % 100; }
    static int64_t mm(Elem const& e) { return e.k - e.v; }          // an extractor that computes
    struct Diff {
        int64_t operator()(Value const& x) const { return x.second - static_cast<int64_t>(x.first); }
        int64_t operator()(uint32_t v, int64_t k) const { return k - static_cast<int64_t>(v); }
        int64_t operator()(std::piecewise_construct_t, std::tuple<uint32_t> const& v, std::tuple<int64_t> const& k) const { return std::get<0>(k) - static_cast<int64_t>(std::get<0>(v)); }
    };
    using Tree = bpptree::BppTree<Value, 80, 168, 6>::mixins<
        bpptree::SummedBuilder<sim::WideOf<bpptree::PairExtractor<0>, uint64_t>>, bpptree::MaxBuilder<Diff>,
        bpptree::OrderedBuilder<bpptree::PairExtractor<1>>::binary_search<true>, bpptree::IndexedBuilder<uint8_t>>;
    using Transient = Tree::Transient; using Persistent = Tree::Persistent;
};
SIM_CONFIG("pairv", PairV, "pair<uint32,int64> by second member, binary search, Summed<uint64>+Max of a computed value+Ordered+Indexed<uint8>, 80/168-byte nodes, safety checks")
}
