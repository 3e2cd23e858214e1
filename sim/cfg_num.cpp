// Vector of a numeric class whose operators are templates, so that a proxy does not convert to it: the operators used are
// those the proxies themselves supply. Its sums are of the class too.
#define BPPTREE_SAFETY_CHECKS
#include "cfg.hpp"
namespace {
template <typename I> struct Box {
    I v{};
    Box() = default;
    template <typename X, std::enable_if_t<std::is_integral_v<X>, bool> = true> Box(X x) : v(static_cast<I>(x)) {}   // NOLINT
    explicit operator int64_t() const { return static_cast<int64_t>(v); }
    Box& operator++() { ++v; return *this; }
    Box& operator--() { --v; return *this; }
    Box operator++(int) { Box old = *this; ++v; return old; }
    Box operator--(int) { Box old = *this; --v; return old; }
};
#define BOX_OP(OP) \
    template <typename I> Box<I> operator OP(Box<I> const& a, Box<I> const& b) { return Box<I>(a.v OP b.v); } \
    template <typename I> Box<I>& operator OP##=(Box<I>& a, Box<I> const& b) { a.v = static_cast<I>(a.v OP b.v); return a; }
BOX_OP(+) BOX_OP(-) BOX_OP(*) BOX_OP(/) BOX_OP(%) BOX_OP(^) BOX_OP(&) BOX_OP(|) BOX_OP(<<) BOX_OP(>>)
#undef BOX_OP
template <typename I> Box<I> operator-(Box<I> const& a) { return Box<I>(I{} - a.v); }
template <typename I> Box<I> operator+(Box<I> const& a) { return a; }
#define BOX_CMP(OP) template <typename I> bool operator OP(Box<I> const& a, Box<I> const& b) { return a.v OP b.v; }
BOX_CMP(==) BOX_CMP(!=) BOX_CMP(<) BOX_CMP(>) BOX_CMP(<=) BOX_CMP(>=)
#undef BOX_CMP
}
using namespace sim;
namespace {
struct NumV : IntElem<int32_t>, Clamp<NumV> {
    using V = Box<uint32_t>;
    using Value = V; using Key = V; using Num = V; using Sum = V;
    static constexpr uint32_t features = fIndexed | fSummed | fMin | fMax | fAllocFaults | fNumeric | fSafety | fLeakProbe;
    static constexpr bool nonneg = true;
    static constexpr int subscript = 2;
    static constexpr int64_t vmin = 0, vmax = 100000;                  // sums stay below 2^32
    using Index = uint32_t;
    static Elem get(Value const& x) { return Elem{0, static_cast<int64_t>(x)}; }
    static Value make(int64_t, int64_t v) { return V(v); }
    static Key key(int64_t k) { return V(k); }
    static int64_t mapped_of(V const& x) { return static_cast<int64_t>(x); }
    static V make_mapped(Elem const& e) { return V(e.v); }
    static V const& key_ref(Value const& x) { return x; }
    static V const& mapped_ref(Value const& x) { return x; }
    static V summand(Elem const& e) { return V(e.v); }
    using Tree = bpptree::BppTreeVector<V>::size_type<uint32_t>::leaf_node_bytes<56>::internal_node_bytes<144>::depth_limit<7>::mixins<
        bpptree::SummedBuilder<>, bpptree::MinBuilder<>, bpptree::MaxBuilder<>>;
    using Transient = Tree::Transient; using Persistent = Tree::Persistent;
};
SIM_CONFIG("num", NumV, "vector of a numeric class with template operators, sums of that class, Summed+Min+Max+Indexed<uint32>, 56/144-byte nodes, safety checks")
}
