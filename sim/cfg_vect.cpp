// Vector of elements with a life cycle.
#include "cfg.hpp"
using namespace sim;
namespace {
struct VecT : IntElem<int32_t>, Clamp<VecT> {
    using V = TrackedT<true>;
    using Value = V; using Key = V; using Num = int32_t;
    static constexpr uint32_t features = fIndexed | fSummed | fAllocFaults | fElemFaults | fLeakProbe;
    static constexpr bool from_values = true;
    static constexpr bool nonneg = true;
    static constexpr int subscript = 2;
    static Elem get(Value const& x) { return Elem{0, x.check().v}; }
    static Value make(int64_t, int64_t v) { return V(static_cast<int32_t>(v)); }
    static Key key(int64_t k) { return V(static_cast<int32_t>(k)); }
    static int64_t mapped_of(V const& x) { return x.check().v; }
    static V make_mapped(Elem const& e) { return V(static_cast<int32_t>(e.v)); }
    static V const& key_ref(Value const& x) { return x; }
    static V const& mapped_ref(Value const& x) { return x; }
    using Tree = bpptree::BppTree<V, 128, 136, 6>::mixins<bpptree::SummedBuilder<sim::AsWide<int64_t>>, bpptree::IndexedBuilder<>>;
    using Transient = Tree::Transient; using Persistent = Tree::Persistent;
};
SIM_CONFIG("vect", VecT, "vector of self-checking elements whose construction and copying may throw, Summed+Indexed, 128/136-byte nodes")
}
