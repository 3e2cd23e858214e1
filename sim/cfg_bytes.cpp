// A buffer of bytes: nodes of more than 256 slots.
#include "cfg.hpp"
using namespace sim;
namespace {
struct Bytes : IntElem<uint8_t>, Clamp<Bytes> {
    static constexpr uint32_t features = fIndexed | fSummed | fAllocFaults | fNumeric | fLeakProbe | fHuge;
    static constexpr int subscript = 2;
    static constexpr int64_t vmin = 0, vmax = 255;
    static constexpr size_t cap = 1300, ladder = 12000, ladder0 = 600;
    static constexpr uint32_t bulk_mul = 6;
    using Index = uint32_t;
    using Sum = uint16_t;
    static int64_t val(uint32_t raw) { return raw % 256; }
    using Tree = bpptree::BppTree<uint8_t, 272, 4400, 3>::mixins<bpptree::IndexedBuilder<uint32_t>, bpptree::SummedBuilder<sim::AsWide<uint16_t>>>;
    using Transient = Tree::Transient; using Persistent = Tree::Persistent;
};
SIM_CONFIG("bytes", Bytes, "bytes, Indexed<uint32>+Summed (uint16), 272/4400-byte nodes: 264 elements per leaf and 313 children per node")
}
