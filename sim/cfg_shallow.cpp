// Trees with a depth limit that insertions reach.
#define BPPTREE_SAFETY_CHECKS
#include "cfg.hpp"
using namespace sim;
namespace {
struct ShallowVec : IntElem<int32_t>, Clamp<ShallowVec> {
    static constexpr int64_t vmin = INT32_MIN;
    static constexpr uint32_t features = fIndexed | fSummed | fAllocFaults | fSafety | fNumeric | fLeakProbe | fShallow;
    static constexpr int subscript = 2;
    using Tree = bpptree::BppTreeVector<int32_t, size_t, 16, 136, 3>::mixins<bpptree::SummedBuilder<sim::AsWide<int64_t>>>;
    using Transient = Tree::Transient; using Persistent = Tree::Persistent;
};
SIM_CONFIG("shallow", ShallowVec, "vector of int with a depth limit of 3, Indexed+Summed, 16/136-byte nodes, safety checks")
}
