// Node capacities that are powers of two.
#define BPPTREE_SAFETY_CHECKS
#include "cfg.hpp"
using namespace sim;
namespace {
struct Pow2 : PairElem<int32_t, int32_t>, Clamp<Pow2> {
    static constexpr uint32_t features = fOrdered | fIndexed | fMax | fSafety | fAllocFaults | fPair | fNumeric | fLeakProbe | fHuge;
    static constexpr int subscript = 1;
    static constexpr int64_t vmin = INT32_MIN;
    using Index = uint32_t;
    using Tree = bpptree::BppTree<Value, 136, 168, 7>::mixins<bpptree::MaxBuilder<bpptree::PairExtractor<1>>, bpptree::OrderedBuilder<>, bpptree::IndexedBuilder<uint32_t>>;
    using Transient = Tree::Transient; using Persistent = Tree::Persistent;
};
SIM_CONFIG("pow2", Pow2, "pair<int,int>, Max+Ordered+Indexed<uint32>, 136/168-byte nodes: 16 elements per leaf and 8 children per node, depth limit 7, safety checks")
}
