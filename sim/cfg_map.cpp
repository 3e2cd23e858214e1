// Ordered map with every mixin, small nodes, safety checks on.
#define BPPTREE_SAFETY_CHECKS
#include "cfg.hpp"
using namespace sim;
namespace {
struct Map : PairElem<int32_t, int32_t>, Clamp<Map> {
    static constexpr uint32_t features = fOrdered | fIndexed | fSummed | fMin | fMax | fSafety | fAllocFaults | fPair | fNumeric | fLeakProbe;
    static constexpr bool nonneg = true;
    static constexpr int subscript = 1;
    using Tree = bpptree::BppTree<Value, 64, 160, 6>::mixins<
        bpptree::OrderedBuilder<>, bpptree::IndexedBuilder<>,
        bpptree::SummedBuilder<sim::WideOf<bpptree::PairExtractor<1>, int64_t>>,
        bpptree::MinBuilder<bpptree::PairExtractor<1>>, bpptree::MaxBuilder<bpptree::PairExtractor<1>>>;
    using Transient = Tree::Transient; using Persistent = Tree::Persistent;
};
SIM_CONFIG("map", Map, "pair<int,int>, Ordered+Indexed+Summed+Min+Max, 64/160-byte nodes, depth limit 6, safety checks")
}
