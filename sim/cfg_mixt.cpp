// Over-aligned keys and values with a life cycle, which are also minima and maxima held by internal nodes.
#define BPPTREE_SAFETY_CHECKS
#include "cfg.hpp"
using namespace sim;
namespace {
struct MixT : CfgBase, Clamp<MixT> {
    using E = TrackedT<false, 32>;
    using Value = std::pair<E, E>; using Key = int32_t;
    static constexpr int64_t vmin = INT32_MIN;
    static constexpr uint32_t features = fOrdered | fIndexed | fMin | fMax | fSafety | fAllocFaults | fElemFaults | fPair | fLeakProbe;
    static Elem get(Value const& x) { return Elem{x.first.check().v, x.second.check().v}; }
    static Value make(int64_t k, int64_t v) { return Value(static_cast<int32_t>(k), static_cast<int32_t>(v)); }
    static Key key(int64_t k) { return static_cast<Key>(k); }
    static int64_t mapped(Elem const& e) { return e.v; }
    static int64_t mapped_of(E const& x) { return x.check().v; }
    static E make_mapped(Elem const& e) { return E(static_cast<int32_t>(e.v)); }
    static E const& key_ref(Value const& x) { return x.first; }
    static E const& mapped_ref(Value const& x) { return x.second; }
    static int64_t mm_of(E const& x) { return x.check().v; }
    template <typename Fn> static void two(int64_t k, int64_t v, Fn&& f) { f(static_cast<int32_t>(k), static_cast<int32_t>(v)); }
    template <typename Fn> static void piecewise(int64_t k, int64_t v, Fn&& f) { f(std::piecewise_construct, std::make_tuple(static_cast<int32_t>(k)), std::make_tuple(static_cast<int32_t>(v))); }
    static int64_t val(uint32_t raw) { return raw % 100; }
    using Tree = bpptree::BppTree<Value, 320, 512, 6>::mixins<bpptree::MinBuilder<bpptree::PairExtractor<1>>, bpptree::OrderedBuilder<>, bpptree::IndexedBuilder<>, bpptree::MaxBuilder<bpptree::PairExtractor<1>>>;
    using Transient = Tree::Transient; using Persistent = Tree::Persistent;
};
SIM_CONFIG("mixt", MixT, "map of self-checking keys and values aligned to 32 bytes, Min+Ordered+Indexed+Max, construction may throw, 320/512-byte nodes, safety checks")
}
