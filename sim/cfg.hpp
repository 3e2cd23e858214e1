// Building blocks of the simulated configurations. A configuration describes an element type, a set of mixins and node
// sizes; the reference models hold every element as a pair of integers (a field the element lacks is always 0).
#pragma once
#include "world.hpp"
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <string>
#include <tuple>
#include <utility>

namespace sim {

// extractors and comparators of the simulated users: wide sums of narrow fields, the reverse order
template <typename X> struct AsWide { template <typename V> X operator()(V const& v) const { return static_cast<X>(v); } };
template <typename E, typename X> struct WideOf { template <typename... A> X operator()(A const&... a) const { return static_cast<X>(E{}(a...)); } };
struct Reversed { template <typename A, typename B> bool operator()(A const& a, B const& b) const { return b < a; } };

// defaults; `get`, `make` and the element-specific parts are supplied below
struct CfgBase {
    static constexpr bool desc = false, nonneg = false, has_key = true, has_val = true, from_values = false;
    static constexpr int64_t kmin = INT32_MIN, kmax = INT32_MAX, vmin = 0, vmax = INT32_MAX;
    static constexpr size_t cap = 220, ladder = 4800, ladder0 = 80;
    static constexpr uint32_t bulk_mul = 1;
    static constexpr int subscript = 0;
    using Index = size_t;
    using Sum = int64_t;
    using Num = int32_t;
    static int64_t summand(Elem const& e) { return e.v; }
    static int64_t mm(Elem const& e) { return e.v; }
    template <typename K, typename V, typename Fn> static auto both(K const& k, V const& v, Fn&& f) { return f(k, v); }
    template <typename X> static int64_t mm_of(X const& x) { return static_cast<int64_t>(x); }
    static bool mmless(int64_t a, int64_t b) { return a < b; }
};

template <typename Self> struct Clamp { static int64_t clamp_key(int64_t k) { return k < Self::kmin ? Self::kmin : k > Self::kmax ? Self::kmax : k; } };

// std::pair<K, V> of integers
template <typename K, typename V> struct PairElem : CfgBase {
    using Value = std::pair<K, V>; using Key = K; using Num = V;
    static Elem get(Value const& x) { return Elem{static_cast<int64_t>(x.first), static_cast<int64_t>(x.second)}; }
    static Value make(int64_t k, int64_t v) { return Value(static_cast<K>(k), static_cast<V>(v)); }
    static Key key(int64_t k) { return static_cast<K>(k); }
    static int64_t mapped(Elem const& e) { return e.v; }
    static int64_t mapped_of(V const& x) { return static_cast<int64_t>(x); }
    static V make_mapped(Elem const& e) { return static_cast<V>(e.v); }
    static K const& key_ref(Value const& x) { return x.first; }
    static V const& mapped_ref(Value const& x) { return x.second; }
    template <typename Fn> static void two(int64_t k, int64_t v, Fn&& f) { f(static_cast<K>(k), static_cast<V>(v)); }
    template <typename Fn> static void piecewise(int64_t k, int64_t v, Fn&& f) { f(std::piecewise_construct, std::make_tuple(static_cast<K>(k)), std::make_tuple(static_cast<V>(v))); }
    static int64_t val(uint32_t raw) { return raw % 100; }
};

// a plain integer; the value is what is indexed, summed and minimised
template <typename V> struct IntElem : CfgBase {
    static constexpr bool has_key = false;
    using Value = V; using Key = V; using Num = V;
    static Elem get(Value const& x) { return Elem{0, static_cast<int64_t>(x)}; }
    static Value make(int64_t, int64_t v) { return static_cast<V>(v); }
    static Key key(int64_t k) { return static_cast<V>(k); }
    static int64_t mapped(Elem const& e) { return e.v; }
    static int64_t mapped_of(V const& x) { return static_cast<int64_t>(x); }
    static V make_mapped(Elem const& e) { return static_cast<V>(e.v); }
    static V const& key_ref(Value const& x) { return x; }
    static V const& mapped_ref(Value const& x) { return x; }
    template <typename Fn> static void two(int64_t, int64_t, Fn&&) {}
    template <typename Fn> static void piecewise(int64_t, int64_t, Fn&&) {}
    static int64_t val(uint32_t raw) { return raw % 100; }
};

// An element that knows where it lives: using a destroyed, moved-over or never constructed one is noticed even when the
// memory has been reused, and every construction is matched with one destruction.
// Copies: copying an element may fail as well (an element that is a key is also copied by internal nodes, whose copies are
// assumed not to throw, so keys only fail to be constructed).
template <bool Copies, size_t Align = 8> struct alignas(Align) TrackedT {
    TrackedT const* self;
    int32_t v;
    int32_t salt;
    TrackedT() : self(this), v(0), salt(0x5eed) { elem_born(); }
    TrackedT(int32_t x) : self(this), v(x), salt(0x5eed) { elem_constructed_from_values(); elem_born(); }   // NOLINT
    TrackedT(TrackedT const& o) : self(this), v(o.check().v), salt(0x5eed) { if constexpr (Copies) elem_copied(); elem_born(); }
    TrackedT(TrackedT&& o) noexcept : self(this), v(o.check().v), salt(0x5eed) { o.v = -77; elem_born(); }
    TrackedT& operator=(TrackedT const& o) { check(); o.check(); if constexpr (Copies) elem_copied(); v = o.v; return *this; }
    TrackedT& operator=(TrackedT&& o) noexcept { check(); v = o.check().v; if (&o != this) o.v = -77; return *this; }
    ~TrackedT() { check(); self = nullptr; salt = 0; elem_died(); }
    TrackedT const& check() const {
        if (self != this || salt != 0x5eed) elem_misuse("an element that is not alive is used");
        if (reinterpret_cast<uintptr_t>(this) % Align) elem_misuse("an element is not aligned as its type requires");
        return *this;
    }
    explicit operator int64_t() const { return check().v; }
    friend bool operator<(TrackedT const& a, TrackedT const& b) { return a.check().v < b.check().v; }
    friend bool operator<(TrackedT const& a, int32_t b) { return a.check().v < b; }
    friend bool operator<(int32_t a, TrackedT const& b) { return a < b.check().v; }
    friend bool operator==(TrackedT const& a, TrackedT const& b) { return a.check().v == b.check().v; }
};

} // namespace sim

#define SIM_CAT2(a, b) a##b
#define SIM_CAT(a, b) SIM_CAT2(a, b)
#define SIM_CONFIG(NAME, TYPE, WHAT) static ::sim::Register SIM_CAT(reg_, __LINE__)(::sim::ConfigInfo{NAME, WHAT, TYPE::features, &::sim::World<TYPE>::run});
