// The default node sizes.
#include "cfg.hpp"
using namespace sim;
namespace {
struct Big : PairElem<int32_t, int32_t>, Clamp<Big> {
    static constexpr uint32_t features = fOrdered | fIndexed | fSummed | fAllocFaults | fPair | fNumeric | fLeakProbe | fHuge;
    static constexpr bool nonneg = true;
    static constexpr int subscript = 1;
    static constexpr size_t cap = 1600, ladder = 12000, ladder0 = 600;
    static constexpr uint32_t bulk_mul = 8;
    using Tree = bpptree::BppTreeMap<int32_t, int32_t>::depth_limit<5>::mixins<bpptree::IndexedBuilder<>,
        bpptree::SummedBuilder<sim::WideOf<bpptree::PairExtractor<1>, int64_t>>>;
    using Transient = Tree::Transient; using Persistent = Tree::Persistent;
};
SIM_CONFIG("big", Big, "map<int,int> with the default 512-byte nodes, Ordered+Indexed+Summed, up to 1600 elements")
}
