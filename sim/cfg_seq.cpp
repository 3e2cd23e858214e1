// Unordered sequence of pairs, sums of a class type, minimum of a computed value.
#include "cfg.hpp"
using namespace sim;
namespace {
// a sum of two components that have to stay in step
struct Money {
    int64_t a = 0, b = 0;
    Money() = default;
    explicit Money(int64_t x) : a(x), b(3 * x) {}
    explicit operator int64_t() const { return b == 3 * a ? a : INT64_MIN / 2; }
    Money& operator+=(Money const& o) { a += o.a; b += o.b; return *this; }
    Money& operator-=(Money const& o) { a -= o.a; b -= o.b; return *this; }
    friend Money operator+(Money x, Money const& y) { return x += y; }
    friend Money operator-(Money x, Money const& y) { return x -= y; }
    friend Money operator+(Money x, int64_t y) { return x += Money(y); }
    Money operator-() const { Money r; r -= *this; return r; }
    friend bool operator<(Money const& x, Money const& y) { return x.a < y.a; }
};
struct Seq : PairElem<int16_t, int16_t>, Clamp<Seq> {
    static constexpr uint32_t features = fIndexed | fSummed | fMin | fAllocFaults | fPair | fLeakProbe;
    static constexpr bool nonneg = true;
    static constexpr int subscript = 2;
    static constexpr int64_t kmin = INT16_MIN, kmax = INT16_MAX, vmin = 0, vmax = INT16_MAX;
    using Index = int16_t;
    using Sum = Money;
    static int64_t mm(Elem const& e) { return e.v % 10 - e.k; }
    struct Total {
        Money operator()(Value const& x) const { return Money(x.second); }
        Money operator()(int16_t, int16_t v) const { return Money(v); }
        Money operator()(std::piecewise_construct_t, std::tuple<int16_t> const&, std::tuple<int16_t> const& v) const { return Money(std::get<0>(v)); }
    };
    struct Rank {
        int32_t operator()(Value const& x) const { return x.second % 10 - x.first; }
        int32_t operator()(int16_t k, int16_t v) const { return v % 10 - k; }
        int32_t operator()(std::piecewise_construct_t, std::tuple<int16_t> const& k, std::tuple<int16_t> const& v) const { return std::get<0>(v) % 10 - std::get<0>(k); }
    };
    using Tree = bpptree::BppTree<Value, 32, 168, 6>::mixins<bpptree::SummedBuilder<Total>, bpptree::IndexedBuilder<int16_t>, bpptree::MinBuilder<Rank>>;
    using Transient = Tree::Transient; using Persistent = Tree::Persistent;
};
SIM_CONFIG("seq", Seq, "unordered pair<short,short>, Summed by a class type+Indexed<int16>+Min of a computed value, 32/168-byte nodes, no safety checks")
}
