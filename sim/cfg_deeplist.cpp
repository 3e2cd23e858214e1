// A plain sequence, large and deep.
#define BPPTREE_SAFETY_CHECKS
#include "cfg.hpp"
#include "bpptree/bpptree.hpp"
using namespace sim;
namespace {
struct DeepList : IntElem<int32_t>, Clamp<DeepList> {
    static constexpr size_t ladder = 12000;
    static constexpr int64_t vmin = INT32_MIN;
    static constexpr uint32_t features = fAllocFaults | fNumeric | fLeakProbe | fSafety | fHuge;
    using Tree = bpptree::BppTree<int32_t, 48, 88, 9>::mixins<>;
    using Transient = Tree::Transient; using Persistent = Tree::Persistent;
};
SIM_CONFIG("deeplist", DeepList, "int without mixins, 48/88-byte nodes, depth limit 9, up to 12000 elements")
}
