// The map with every mixin, large and deep.
#define BPPTREE_SAFETY_CHECKS
#include "cfg.hpp"
#include "bpptree/bpptree.hpp"
using namespace sim;
namespace {
struct DeepMap : PairElem<int32_t, int32_t>, Clamp<DeepMap> {
    static constexpr size_t ladder = 12000;
    static constexpr uint32_t features = fOrdered | fIndexed | fSummed | fMin | fMax | fSafety | fAllocFaults | fPair | fNumeric | fLeakProbe | fHuge;
    static constexpr bool nonneg = true;
    static constexpr int subscript = 1;
    using Tree = bpptree::BppTree<Value, 64, 160, 9>::mixins<
        bpptree::OrderedBuilder<>, bpptree::IndexedBuilder<>,
        bpptree::SummedBuilder<sim::WideOf<bpptree::PairExtractor<1>, int64_t>>,
        bpptree::MinBuilder<bpptree::PairExtractor<1>>, bpptree::MaxBuilder<bpptree::PairExtractor<1>>>;
    using Transient = Tree::Transient; using Persistent = Tree::Persistent;
};
SIM_CONFIG("deepmap", DeepMap, "pair<int,int>, Ordered+Indexed+Summed+Min+Max, 64/160-byte nodes, depth limit 9, safety checks, up to 12000 elements")
}
