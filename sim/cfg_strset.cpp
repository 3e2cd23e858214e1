// Set of strings that own memory.
#define BPPTREE_SAFETY_CHECKS
#include "cfg.hpp"
using namespace sim;
namespace {
struct StrSet : CfgBase, Clamp<StrSet> {
    using Value = std::string; using Key = std::string;
    static constexpr uint32_t features = fOrdered | fIndexed | fMin | fMax | fSafety;
    static constexpr bool has_val = false;
    static constexpr int64_t kmin = 0;
    static int64_t num(std::string const& s) { return strtoll(s.c_str() + 20, nullptr, 10); }
    static Elem get(Value const& x) { return Elem{num(x), 0}; }
    static std::string str(int64_t k) { char b[48]; snprintf(b, sizeof b, "a key that is long: %012lld", static_cast<long long>(k)); return b; }
    static Value make(int64_t k, int64_t) { return str(k); }
    static Key key(int64_t k) { return str(k); }
    static int64_t mapped(Elem const& e) { return e.k; }
    static int64_t mapped_of(std::string const& x) { return num(x); }
    static std::string make_mapped(Elem const& e) { return str(e.k); }
    static Key const& key_ref(Value const& x) { return x; }
    static Value const& mapped_ref(Value const& x) { return x; }
    template <typename Fn> static void two(int64_t, int64_t, Fn&&) {}
    template <typename Fn> static void piecewise(int64_t, int64_t, Fn&&) {}
    static int64_t val(uint32_t) { return 0; }
    static int64_t mm(Elem const& e) { return e.k; }
    static int64_t mm_of(std::string const& x) { return num(x); }
    using Tree = bpptree::BppTreeSet<std::string>::leaf_node_bytes<200>::internal_node_bytes<640>::depth_limit<6>::mixins<bpptree::IndexedBuilder<int64_t>, bpptree::MinBuilder<>, bpptree::MaxBuilder<>>;
    using Index = int64_t;
    static constexpr int subscript = 1;
    using Transient = Tree::Transient; using Persistent = Tree::Persistent;
};
SIM_CONFIG("strset", StrSet, "set of long strings, Ordered+Indexed+Min+Max, 200/640-byte nodes, safety checks")
}
