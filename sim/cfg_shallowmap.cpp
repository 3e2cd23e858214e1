// Trees with a depth limit that insertions reach.
#define BPPTREE_SAFETY_CHECKS
#include "cfg.hpp"
using namespace sim;
namespace {
struct ShallowMap : PairElem<int32_t, int32_t>, Clamp<ShallowMap> {
    static constexpr int64_t vmin = INT32_MIN;
    static constexpr uint32_t features = fOrdered | fIndexed | fAllocFaults | fSafety | fPair | fNumeric | fLeakProbe | fShallow;
    static constexpr int subscript = 1;
    using Tree = bpptree::BppTreeMap<int32_t, int32_t>::leaf_node_bytes<32>::internal_node_bytes<128>::depth_limit<3>::mixins<bpptree::IndexedBuilder<>>;
    using Transient = Tree::Transient; using Persistent = Tree::Persistent;
};
SIM_CONFIG("shallowmap", ShallowMap, "map with a depth limit of 3, Ordered+Indexed, 32/128-byte nodes, safety checks")
}
