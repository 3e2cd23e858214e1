// Map of elements with a life cycle, looked up by another key type.
#define BPPTREE_SAFETY_CHECKS
#include "cfg.hpp"
using namespace sim;
namespace {
struct MapT : CfgBase, Clamp<MapT> {
    using E = TrackedT<false>;
    using Value = std::pair<E, E>; using Key = int32_t;
    static constexpr int64_t vmin = INT32_MIN;
    static constexpr uint32_t features = fOrdered | fSafety | fAllocFaults | fElemFaults | fPair | fLeakProbe;
    static Elem get(Value const& x) { return Elem{x.first.check().v, x.second.check().v}; }
    static Value make(int64_t k, int64_t v) { return Value(static_cast<int32_t>(k), static_cast<int32_t>(v)); }
    static Key key(int64_t k) { return static_cast<Key>(k); }
    static int64_t mapped(Elem const& e) { return e.v; }
    static int64_t mapped_of(E const& x) { return x.check().v; }
    static E make_mapped(Elem const& e) { return E(static_cast<int32_t>(e.v)); }
    static E const& key_ref(Value const& x) { return x.first; }
    static E const& mapped_ref(Value const& x) { return x.second; }
    template <typename Fn> static void two(int64_t k, int64_t v, Fn&& f) { f(static_cast<int32_t>(k), static_cast<int32_t>(v)); }
    template <typename Fn> static void piecewise(int64_t k, int64_t v, Fn&& f) { f(std::piecewise_construct, std::make_tuple(static_cast<int32_t>(k)), std::make_tuple(static_cast<int32_t>(v))); }
    static int64_t val(uint32_t raw) { return raw % 100; }
    using Tree = bpptree::BppTree<Value, 256, 144, 6>::mixins<bpptree::OrderedBuilder<>>;
    using Transient = Tree::Transient; using Persistent = Tree::Persistent;
};
SIM_CONFIG("mapt", MapT, "map of self-checking keys and values looked up by int, construction may throw, 256/144-byte nodes, safety checks")
}
