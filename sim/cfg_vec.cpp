// Vector of integers with every mixin but the order.
#include "cfg.hpp"
using namespace sim;
namespace {
struct Vec : IntElem<int32_t>, Clamp<Vec> {
    static constexpr uint32_t features = fIndexed | fSummed | fMin | fMax | fAllocFaults | fNumeric | fLeakProbe;
    static constexpr bool nonneg = true;
    static constexpr int subscript = 2;
    using Index = uint32_t;
    using Tree = bpptree::BppTreeVector<int32_t>::size_type<uint32_t>::leaf_node_bytes<48>::internal_node_bytes<160>::depth_limit<6>::mixins<
        bpptree::MinBuilder<>, bpptree::SummedBuilder<sim::AsWide<int64_t>>, bpptree::MaxBuilder<>>;
    using Transient = Tree::Transient; using Persistent = Tree::Persistent;
};
SIM_CONFIG("vec", Vec, "vector of int, Indexed<uint32>+Min+Summed+Max, 48/160-byte nodes, no safety checks")
}
