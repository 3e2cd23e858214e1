// Vector of small unsigned integers whose sums wrap.
#include "cfg.hpp"
using namespace sim;
namespace {
struct U16 : IntElem<uint16_t>, Clamp<U16> {
    static constexpr uint32_t features = fIndexed | fSummed | fMin | fAllocFaults | fNumeric | fLeakProbe;
    static constexpr int subscript = 2;
    static constexpr int64_t vmin = 0, vmax = 65535;
    using Index = uint16_t;
    using Sum = uint16_t;
    static int64_t val(uint32_t raw) { return raw % 3 ? raw % 65536 : 65535 - raw % 5; }
    using Tree = bpptree::BppTreeVector<uint16_t, uint16_t, 32, 96, 6>::mixins<bpptree::SummedBuilder<>, bpptree::MinBuilder<bpptree::ValueExtractor, sim::Reversed>>;
    static bool mmless(int64_t a, int64_t b) { return b < a; }
    using Transient = Tree::Transient; using Persistent = Tree::Persistent;
};
SIM_CONFIG("u16", U16, "vector of uint16 with wrapping sums, Indexed<uint16>+Summed+Min by the reversed order, 32/96-byte nodes")
}
