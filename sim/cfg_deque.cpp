// A plain sequence without mixins.
#include "cfg.hpp"
using namespace sim;
namespace {
struct Deque : IntElem<int32_t>, Clamp<Deque> {
    static constexpr int64_t vmin = INT32_MIN;
    static constexpr uint32_t features = fAllocFaults | fNumeric | fLeakProbe;
    using Tree = bpptree::BppTree<int32_t, 40, 72, 6>::mixins<>;
    using Transient = Tree::Transient; using Persistent = Tree::Persistent;
};
SIM_CONFIG("deque", Deque, "int without mixins, 40/72-byte nodes")
}
