// The simulated world: client threads that use trees of one configuration, the reference models, and the oracles.
// One translation unit per configuration includes this file with the library's namespace renamed.
#pragma once
#include "ops.h"
#include "bpptree/bpptree.hpp"
#include "bpptree/ordered.hpp"
#include "bpptree/indexed.hpp"
#include "bpptree/summed.hpp"
#include "bpptree/min.hpp"
#include "bpptree/max.hpp"
#include <algorithm>
#include <cmath>
#include <deque>
#include <memory>
#include <new>
#include <optional>
#include <stdexcept>
#include <vector>

namespace sim {

struct Elem {
    int64_t k, v;
    bool operator==(Elem const& o) const { return k == o.k && v == o.v; }
    bool operator!=(Elem const& o) const { return !(*this == o); }
};
using Model = std::vector<Elem>;

enum Outcome { oOk, oAlloc, oElem, oUpd, oLogic, oOther };
inline const char* outcome_name(int o) {
    static const char* const n[] = {"success", "std::bad_alloc", "an element construction error", "an updater error", "std::logic_error", "another exception"};
    return n[o];
}
enum Growth { gOverwrite, gErase, gInsert, gFree };       // what a modification may allocate

template <typename C>
struct World {
    using T = typename C::Transient;
    using P = typename C::Persistent;
    using Value = typename C::Value;
    using TI = typename T::iterator;
    using TC = typename T::const_iterator;
    using TR = typename T::reverse_iterator;
    using TD = typename T::const_reverse_iterator;
    using PC = typename P::const_iterator;
    using PD = typename P::const_reverse_iterator;
    static constexpr uint32_t F = C::features;
    static constexpr bool ordered = (F & fOrdered) != 0, indexed = (F & fIndexed) != 0, summed = (F & fSummed) != 0;
    static constexpr bool has_min = (F & fMin) != 0, has_max = (F & fMax) != 0, safety = (F & fSafety) != 0;
    static constexpr bool pair_args = (F & fPair) != 0, numeric = (F & fNumeric) != 0;
    static constexpr int kT = 3, kP = 4, kIt = 3, kPr = 2;
    static constexpr size_t kCap = C::cap;

    struct TSlot { T* o = nullptr; Model m; bool owned = false; std::vector<size_t> own; };
    struct Fp { uint64_t v = 0; bool on = false; };         // fingerprint of everything readable through a tree
    struct PSlot { P* o = nullptr; Model m; Fp fp; };
    struct HeldIt {
        bool on = false, per = false;
        int slot = 0, kind = 0;                           // 0 iterator, 1 const, 2 reverse, 3 const reverse
        int64_t pos = 0;
        std::optional<TI> ti; std::optional<TC> tc; std::optional<TR> tr; std::optional<TD> td;
        std::optional<PC> pc; std::optional<PD> pd;
    };
    struct Nothing {};
    template <typename Dummy, int sub> struct ProxyHolder { };
    template <typename Dummy> struct ProxyHolder<Dummy, 1> {
        typename C::Key key; decltype(std::declval<T&>()[std::declval<typename C::Key const&>()]) ref;
        ProxyHolder(T& t, int64_t k) : key(C::key(k)), ref(t[key]) {}
    };
    template <typename Dummy> struct ProxyHolder<Dummy, 2> {
        typename C::Index key; decltype(std::declval<T&>()[std::declval<typename C::Index const&>()]) ref;
        ProxyHolder(T& t, int64_t k) : key(static_cast<typename C::Index>(k)), ref(t[key]) {}
    };
    struct ItProxy {
        TI it; decltype(*std::declval<TI&>()) ref;
        ItProxy(TI const& i) : it(i), ref(*it) {}
    };
    struct HeldPr {
        int kind = 0, slot = 0; int64_t at = 0;           // kind 0 none, 1 key, 2 index, 3 iterator
        std::unique_ptr<ProxyHolder<void, C::subscript>> sub;
        std::unique_ptr<ItProxy> itp;
    };
    struct Pub { P* o; Model m; int refs; Clock clk; Fp fp; };
    struct Msg { P* p = nullptr; T* t = nullptr; TSlot ts; Model m; Clock clk{}; int delay = 0; Fp fp{}; };
    struct Client {
        int id = 0;
        TSlot t[kT]; PSlot p[kP]; HeldIt it[kIt]; HeldPr pr[kPr];
        Pub* att[2] = {nullptr, nullptr};
        std::vector<Op> ops;
    };

    Client cl[kMaxFibers];
    std::deque<Msg> inbox[kMaxFibers];
    Pub* pub[2] = {nullptr, nullptr};
    uint32_t cur_uid = 0;

    // ------------------------------------------------------------------------------------------------- small helpers
    static bool less(int64_t a, int64_t b) { return C::desc ? b < a : a < b; }
    static size_t lower(Model const& m, int64_t k) { return static_cast<size_t>(std::lower_bound(m.begin(), m.end(), k, [](Elem const& e, int64_t x) { return less(e.k, x); }) - m.begin()); }
    static bool present(Model const& m, size_t i, int64_t k) { return i < m.size() && m[i].k == k; }
    static Elem get(Value const& v) { return C::get(v); }
    static void tr(uint64_t v) { transcript(v); }
    template <typename It, typename = void> struct HasPos : std::false_type {};
    template <typename It> struct HasPos<It, std::void_t<decltype(static_cast<uint64_t>(std::declval<It const&>().iter))>> : std::true_type {};
    template <typename It> static void tr_it(It const& it) { if constexpr (HasPos<It>::value) transcript(static_cast<uint64_t>(it.iter)); else (void)it; }
    static void tr(Elem const& e) { transcript(static_cast<uint64_t>(e.k) * 1000003u + static_cast<uint64_t>(e.v)); }

    // Reads whose answers are only recorded (for the comparison of runs): a wrong one ends the audit, it is no verdict.
    struct Recorded {};
    static inline uint32_t recording_ = 0;                    // bit per client
    static bool recording() { return recording_ && (recording_ >> current_client() & 1); }
    [[noreturn]] static void wrong(const char* cls, const char* what, const char* where, int64_t at, int64_t got, int64_t want) {
        if (recording()) { transcript(static_cast<uint64_t>(got) ^ 0xBAD); throw Recorded{}; }
        sim_mode = 0;
        violation(cls, "%s: %s at %lld is %lld, expected %lld (operation %u %s of client %d)", where, what, static_cast<long long>(at),
                  static_cast<long long>(got), static_cast<long long>(want), cur_op_uid, kOpName[cur_op_kind], current_client());
    }
    static inline uint32_t cur_op_uid = 0; static inline uint16_t cur_op_kind = 0;
    static void same(Elem const& got, Elem const& want, const char* cls, const char* what, const char* where, int64_t at) {
        if (recording()) { transcript(static_cast<uint64_t>(got.k)); transcript(static_cast<uint64_t>(got.v)); }
        if (got != want) { if (got.k != want.k) wrong(cls, what, where, at, got.k, want.k); wrong(cls, what, where, at, got.v, want.v); }
    }
    static void same(int64_t got, int64_t want, const char* cls, const char* what, const char* where, int64_t at) {
        if (recording()) transcript(static_cast<uint64_t>(got));
        if (got != want) wrong(cls, what, where, at, got, want);
    }

    template <typename It> static constexpr bool is_rev = std::is_same_v<It, TR> || std::is_same_v<It, TD> || std::is_same_v<It, PD>;
    template <typename Tr> static constexpr bool transient = std::is_same_v<std::remove_cv_t<std::remove_reference_t<Tr>>, T>;
    template <typename It, typename Tr> static constexpr bool is_const_it = std::is_same_v<It, typename std::remove_const_t<Tr>::const_iterator> || std::is_same_v<It, typename std::remove_const_t<Tr>::const_reverse_iterator>;

    template <typename It, typename Tr> static It first(Tr& t) {
        if constexpr (is_rev<It>) { if constexpr (is_const_it<It, Tr>) return t.crbegin(); else return t.rbegin(); }
        else { if constexpr (is_const_it<It, Tr>) return t.cbegin(); else return t.begin(); }
    }
    template <typename It, typename Tr> static It last(Tr& t) {
        if constexpr (is_rev<It>) { if constexpr (is_const_it<It, Tr>) return t.crend(); else return t.rend(); }
        else { if constexpr (is_const_it<It, Tr>) return t.cend(); else return t.end(); }
    }
    // iterator for forward position pos: 0..n (n is end) for forward, -1..n-1 (-1 is rend) for reverse iterators
    template <typename It, typename Tr> static It make_it(Tr& t, size_t n, int64_t pos, uint32_t how) {
        auto sn = static_cast<int64_t>(n);
        if constexpr (is_rev<It>) {
            if (pos < 0) { if (how & 1) return last<It>(t); It i = first<It>(t); i += sn; return i; }
            if (how & 1) { It i = last<It>(t); i -= pos + 1; return i; }
            It i = first<It>(t); i += sn - 1 - pos; return i;
        } else {
            if (pos == sn) { if (how & 1) return last<It>(t); It i = first<It>(t); i += sn; return i; }
            if constexpr (indexed) {
                if ((how & 3) == 2) { if constexpr (is_const_it<It, Tr>) return t.find_index_const(static_cast<typename C::Index>(pos)); else return t.find_index(static_cast<typename C::Index>(pos)); }
            }
            if ((how & 3) == 1) { It i = last<It>(t); i -= sn - pos; return i; }
            It i = first<It>(t); i += pos; return i;
        }
    }

    template <typename Fn> static int call(Fn&& f) {
        try { Mode md(2); f(); return oOk; }
        catch (std::bad_alloc const&) { return oAlloc; }
        catch (ElemError const&) { return oElem; }
        catch (UpdError const&) { return oUpd; }
        catch (std::logic_error const&) { return oLogic; }
        catch (...) { return oOther; }
    }
    static void must(int o) {
        if (o != oOk) violation("unexpected-exception", "%s thrown by operation %u %s of client %d", outcome_name(o), cur_op_uid, kOpName[cur_op_kind], current_client());
    }

    // ------------------------------------------------------------------------------------------------------- oracles
    struct sim_mode_guard {
        int old; bool live = true;
        explicit sim_mode_guard(int m) : old(sim_mode) { sim_mode = m; }
        void restore() { if (live) { sim_mode = old; live = false; } }
        ~sim_mode_guard() { restore(); }
    };
    template <typename Tr> static void audit_contents(Tr const& t, Model const& m, const char* where) {
        same(static_cast<int64_t>(t.size()), static_cast<int64_t>(m.size()), "size", "size", where, -1);
        if (t.empty() != m.empty()) wrong("size", "emptiness", where, -1, t.empty(), m.empty());
        size_t i = 0;
        auto e = t.cend();
        for (auto it = t.cbegin(); it != e; ++it, ++i) {
            if (i >= m.size()) wrong("contents", "number of elements visited", where, -1, static_cast<int64_t>(i) + 1, static_cast<int64_t>(m.size()));
            Elem g = get(*it);
            same(g, m[i], "contents", "element", where, static_cast<int64_t>(i));
            tr(g);
        }
        same(static_cast<int64_t>(i), static_cast<int64_t>(m.size()), "contents", "number of elements visited", where, -1);
        count(kAuditElems, static_cast<int64_t>(m.size()));
    }
    template <typename Tr> static void audit_reverse(Tr const& t, Model const& m, const char* where) {
        auto i = static_cast<int64_t>(m.size()) - 1;
        auto e = t.crend();
        for (auto it = t.crbegin(); it != e; ++it, --i) {
            if (i < 0) wrong("traversal", "number of elements visited backwards", where, -1, static_cast<int64_t>(m.size()) + 1, static_cast<int64_t>(m.size()));
            same(get(*it), m[static_cast<size_t>(i)], "traversal", "element in reverse", where, i);
        }
        same(i, -1, "traversal", "remaining elements after reverse traversal", where, -1);
    }
    static int64_t fold(Model const& m, size_t n) {
        if constexpr (summed) { sim_mode_guard g(0); typename C::Sum s{}; for (size_t i = 0; i < n; ++i) s = static_cast<typename C::Sum>(s + C::summand(m[i])); return static_cast<int64_t>(s); }
        return 0;
    }
    // t may be a non-const transient tree: then the non-const overloads are used
    template <typename Tr> using fwd_it = std::conditional_t<std::is_const_v<Tr>, typename Tr::const_iterator, typename Tr::iterator>;
    template <typename Tr> using rev_it = std::conditional_t<std::is_const_v<Tr>, typename Tr::const_reverse_iterator, typename Tr::reverse_iterator>;
    template <typename Tr> static void audit_reads(Tr& t, Model const& m, uint32_t mask, Rng& r, uint32_t samples, const char* where) {
        using It = fwd_it<Tr>; using Rit = rev_it<Tr>;
        size_t n = m.size();
        if ((mask & kEnds) && n) {
            same(get(t.front()), m.front(), "ends", "front", where, 0);
            same(get(t.back()), m.back(), "ends", "back", where, static_cast<int64_t>(n) - 1);
            same(get(*t.begin()), m.front(), "ends", "element at begin", where, 0);
            same(get(*t.rbegin()), m.back(), "ends", "element at rbegin", where, static_cast<int64_t>(n) - 1);
        }
        if (mask & kEnds) {
            if (!(t.begin() == t.cbegin()) || !(t.end() == t.cend()) || !(t.rbegin() == t.crbegin()) || !(t.rend() == t.crend()) || (t.begin() == t.end()) != (n == 0) || (t.rbegin() != t.rend()) != (n != 0))
                wrong("ends", "agreement of begin and end", where, static_cast<int64_t>(n), 0, 1);
        }
        if (mask & kReverse) audit_reverse(t, m, where);
        bool all = samples >= n;
        if (mask & kNavigate) for (uint32_t s = 0; s < (std::min(samples, 160u) + 3) / 4; ++s) {
            auto sn = static_cast<int64_t>(n);
            int64_t a = r.below(static_cast<uint32_t>(n) + 1), b = r.below(static_cast<uint32_t>(n) + 1);
            auto x = make_it<It>(t, n, a, r.below(4)), y = make_it<It>(t, n, b, r.below(4));
            if ((x < y) != (a < b) || (x > y) != (a > b) || (x <= y) != (a <= b) || (x >= y) != (a >= b) || (x == y) != (a == b) || (x != y) != (a != b))
                wrong("traversal", "comparison of iterators", where, a, b, 0);
            if constexpr (indexed) if (a <= sn && b <= sn) { same(x - y, a - b, "traversal", "iterator difference", where, a); }
            x += b - a;
            if (!(x == y)) wrong("traversal", "position after a jump", where, a, b, 0);
            if (b < sn) same(get(*x), m[static_cast<size_t>(b)], "traversal", "element after a jump", where, b);
            if (s & 1) {
                if (!(x + (a - b) == y + (a - b)) || !(x - (b - a) == x + (a - b))) wrong("traversal", "sum of an iterator and a distance", where, b, a, 0);
                if (a < sn) same(get(x[a - b]), m[static_cast<size_t>(a)], "traversal", "element at a distance from an iterator", where, a);
                if (n) { It z(x); It old = b < sn ? z++ : z--;
                if (!(old == x) || !(z == x + (b < sn ? 1 : -1))) wrong("traversal", "position after a post-increment or post-decrement", where, b, 0, 1); }
            }
            int64_t c = a - 1, d = b - 1;               // the same for reverse iterators, -1 is rend
            auto u = make_it<Rit>(t, n, c, r.below(4)), w = make_it<Rit>(t, n, d, r.below(4));
            if ((u < w) != (c > d) || (u > w) != (c < d) || (u <= w) != (c >= d) || (u >= w) != (c <= d) || (u == w) != (c == d) || (u != w) != (c != d))
                wrong("traversal", "comparison of reverse iterators", where, c, d, 0);
            if constexpr (indexed) { same(u - w, d - c, "traversal", "reverse iterator difference", where, c); }
            u += c - d;
            if (!(u == w)) wrong("traversal", "position after a reverse jump", where, c, d, 0);
            if (d >= 0) same(get(*u), m[static_cast<size_t>(d)], "traversal", "element after a reverse jump", where, d);
            if (s & 1) {
                if (!(u + (d - c) == w + (d - c)) || !(u - (c - d) == u + (d - c))) wrong("traversal", "sum of a reverse iterator and a distance", where, d, c, 0);
                if (c >= 0) same(get(u[d - c]), m[static_cast<size_t>(c)], "traversal", "element at a distance from a reverse iterator", where, c);
                if (n) { Rit z(u); Rit old = d >= 0 ? z++ : z--;
                if (!(old == u) || !(z == u + (d >= 0 ? 1 : -1))) wrong("traversal", "position of a reverse iterator after a post-increment or post-decrement", where, d, 0, 1); }
            }
        }
        if constexpr (indexed) if ((mask & kIndex) && n) for (size_t s = 0; s < (all ? n : samples); ++s) {
            size_t i = all ? s : r.below(static_cast<uint32_t>(n));
            auto x = static_cast<typename C::Index>(i);
            same(get(t.at_index(x)), m[i], "index", "at_index", where, static_cast<int64_t>(i));
            if constexpr (C::subscript == 2) same(get(t[x]), m[i], "index", "operator[]", where, static_cast<int64_t>(i));
            auto it = t.find_index(x);
            same(get(*it), m[i], "index", "find_index", where, static_cast<int64_t>(i));
            same(static_cast<int64_t>(t.order(it)), static_cast<int64_t>(i), "index", "order", where, static_cast<int64_t>(i));
            tr_it(it);
            if ((s & 3) == 1) {
                auto cit = t.find_index_const(x);
                if (!(cit == it)) wrong("index", "find_index_const", where, static_cast<int64_t>(i), 0, 1);
                same(static_cast<int64_t>(t.order(cit)), static_cast<int64_t>(i), "index", "order of a const iterator", where, static_cast<int64_t>(i));
                same(static_cast<int64_t>(t.order(t.cend())), static_cast<int64_t>(n), "index", "order of end", where, static_cast<int64_t>(n));
                same(t.cend() - it, static_cast<int64_t>(n - i), "index", "distance to end", where, static_cast<int64_t>(i));
                same(t.crend() - t.crbegin(), static_cast<int64_t>(n), "index", "distance of the reverse ends", where, -1);
            }
            if ((s & 7) == 0) {
                auto rit = make_it<Rit>(t, n, static_cast<int64_t>(i), 0);
                same(static_cast<int64_t>(t.order(rit)), static_cast<int64_t>(i), "index", "order of a reverse iterator", where, static_cast<int64_t>(i));
                same(it - t.cbegin(), static_cast<int64_t>(i), "index", "iterator difference", where, static_cast<int64_t>(i));
            }
        }
        if constexpr (ordered) if (mask & kKeys) for (size_t s = 0; s < (all ? 2 * n + 2 : samples); ++s) {
            int64_t k;
            if (n && (all ? s < n : r.chance(1, 2))) k = m[all ? s : r.below(static_cast<uint32_t>(n))].k;
            else if (n && r.chance(3, 4)) k = m[r.below(static_cast<uint32_t>(n))].k + static_cast<int64_t>(r.below(3)) - 1;
            else if (par.wide) k = a_key(static_cast<uint32_t>(r.next()));
            else k = C::clamp_key(static_cast<int64_t>(r.below(par.keyspace * 16)) - 8);
            k = C::clamp_key(k);
            sim_mode_guard g(0);
            typename C::Key key = C::key(k);
            g.restore();
            size_t i = lower(m, k);
            bool in = present(m, i, k);
            if (t.contains(key) != in) wrong("keys", "contains", where, k, !in, in);
            auto f = t.find(key);
            if (in) {
                if (f == t.cend()) wrong("keys", "find of a present key", where, k, -1, static_cast<int64_t>(i));
                same(get(*f), m[i], "keys", "find", where, k);
                same(C::mapped_of(t.at_key(key)), C::mapped(m[i]), "keys", "at_key", where, k);
                if constexpr (C::subscript == 1) same(C::mapped_of(t[key]), C::mapped(m[i]), "keys", "operator[]", where, k);
                tr_it(f);
            } else if (!(f == t.cend())) wrong("keys", "find of an absent key", where, k, 1, 0);
            auto lb = t.lower_bound(key);
            if ((s & 3) == 2) {
                if (!(t.find_const(key) == f)) wrong("keys", "find_const", where, k, 0, 1);
                if (!(t.lower_bound_const(key) == lb)) wrong("keys", "lower_bound_const", where, k, 0, 1);
                if (!(t.upper_bound_const(key) == t.upper_bound(key))) wrong("keys", "upper_bound_const", where, k, 0, 1);
            }
            if (i == n) { if (!(lb == t.cend())) wrong("keys", "lower_bound beyond all keys", where, k, 0, 1); }
            else { if (lb == t.cend()) wrong("keys", "lower_bound", where, k, static_cast<int64_t>(n), static_cast<int64_t>(i)); same(get(*lb), m[i], "keys", "lower_bound", where, k); }
            size_t j = in ? i + 1 : i;
            auto ub = t.upper_bound(key);
            if (j == n) { if (!(ub == t.cend())) wrong("keys", "upper_bound beyond all keys", where, k, 0, 1); }
            else { if (ub == t.cend()) wrong("keys", "upper_bound", where, k, static_cast<int64_t>(n), static_cast<int64_t>(j)); same(get(*ub), m[j], "keys", "upper_bound", where, k); }
        }
        if constexpr (summed) if (mask & kSums) {
            same(static_cast<int64_t>(t.sum()), fold(m, n), "sums", "sum", where, -1);
            same(static_cast<int64_t>(t.sum_exclusive(t.end())), fold(m, n), "sums", "sum_exclusive of end", where, -1);
            if (n) {
                auto it = t.begin();
                typename C::Sum acc{};
                bool rev = r.chance(1, 4);
                for (size_t i = 0; i < n; ++i) {
                    auto ex = acc;
                    acc = static_cast<typename C::Sum>(acc + C::summand(m[i]));
                    if (all || r.chance(samples, static_cast<uint32_t>(n))) {
                        same(static_cast<int64_t>(t.sum_inclusive(it)), static_cast<int64_t>(acc), "sums", "sum_inclusive", where, static_cast<int64_t>(i));
                        same(static_cast<int64_t>(t.sum_exclusive(it)), static_cast<int64_t>(ex), "sums", "sum_exclusive", where, static_cast<int64_t>(i));
                        if (rev) {
                            auto rit = make_it<Rit>(t, n, static_cast<int64_t>(i), 0);
                            same(static_cast<int64_t>(t.sum_inclusive(rit)), static_cast<int64_t>(acc), "sums", "sum_inclusive of a reverse iterator", where, static_cast<int64_t>(i));
                            same(static_cast<int64_t>(t.sum_exclusive(rit)), static_cast<int64_t>(ex), "sums", "sum_exclusive of a reverse iterator", where, static_cast<int64_t>(i));
                        }
                    }
                    ++it;
                }
            }
            if constexpr (C::nonneg) {
                int64_t total = fold(m, n);
                for (uint32_t s = 0; s < std::min(samples, 80u) / 2 + 2; ++s) {
                    int64_t target = s == 0 ? total : s == 1 ? total + 1 : n && r.chance(1, 2) ? fold(m, 1 + r.below(static_cast<uint32_t>(n))) + static_cast<int64_t>(r.below(2)) : par.wide ? static_cast<int64_t>(r.next() % static_cast<uint64_t>(total + 2)) : static_cast<int64_t>(r.below(static_cast<uint32_t>(total + 2)));
                    int64_t acc = 0; size_t i = 0;
                    while (i < n && (acc += static_cast<int64_t>(C::summand(m[i]))) < target) ++i;
                    auto it = t.sum_lower_bound(static_cast<typename C::Sum>(target));
                    if ((s & 3) == 3 && !(t.sum_lower_bound_const(static_cast<typename C::Sum>(target)) == it)) wrong("sums", "sum_lower_bound_const", where, target, 0, 1);
                    if (i == n) { if (!(it == t.cend())) wrong("sums", "sum_lower_bound beyond the total", where, target, 0, 1); }
                    else {
                        if (it == t.cend()) wrong("sums", "sum_lower_bound", where, target, static_cast<int64_t>(n), static_cast<int64_t>(i));
                        if (!(it == make_it<It>(t, n, static_cast<int64_t>(i), 0))) wrong("sums", "position of sum_lower_bound", where, target, -1, static_cast<int64_t>(i));
                        same(get(*it), m[i], "sums", "sum_lower_bound", where, target);
                    }
                }
            }
        }
        if ((mask & kMinMax) && n) {
            if constexpr (has_min) minmax_reads<true>(t, m, r, samples, where);
            if constexpr (has_max) minmax_reads<false>(t, m, r, samples, where);
        }
    }
    template <bool mn, typename Tr> static void minmax_reads(Tr& t, Model const& m, Rng& r, uint32_t samples, const char* where) {
        using It = fwd_it<Tr>; using Rit = rev_it<Tr>;
        size_t n = m.size();
        auto best = [&](size_t a, size_t b) { sim_mode_guard g(0); int64_t x = C::mm(m[a]); for (size_t i = a; i < b; ++i) { int64_t y = C::mm(m[i]); if (mn ? C::mmless(y, x) : C::mmless(x, y)) x = y; } return x; };
        auto q = [&](auto const&... a) -> int64_t { if constexpr (mn) return C::mm_of(t.min(a...)); else return C::mm_of(t.max(a...)); };
        auto qe = [&](auto const&... a) { if constexpr (mn) return t.min_element(a...); else return t.max_element(a...); };
        auto qc = [&](auto const&... a) { if constexpr (mn) return t.min_element_const(a...); else return t.max_element_const(a...); };
        const char* what = mn ? "min" : "max";
        same(q(), best(0, n), "minmax", what, where, -1);
        {
            auto e = qe();
            same(C::mm(get(*e)), best(0, n), "minmax", mn ? "min_element" : "max_element", where, -1);
            tr_it(e);
            if (!(qc() == e)) wrong("minmax", mn ? "min_element_const" : "max_element_const", where, -1, 0, 1);
        }
        for (uint32_t s = 0; s < std::min(samples, 120u) / 3 + 1; ++s) {
            size_t a = r.below(static_cast<uint32_t>(n)), len = r.chance(1, 2) ? 1 + r.below(8) : 1 + r.below(static_cast<uint32_t>(n - a)), b = std::min(n, a + len);
            auto x = make_it<It>(t, n, static_cast<int64_t>(a), r.below(4)), y = make_it<It>(t, n, static_cast<int64_t>(b), r.below(4));
            int64_t want = best(a, b);
            same(q(x, y), want, "minmax", mn ? "min of a range" : "max of a range", where, static_cast<int64_t>(a));
            auto e = qe(x, y);
            same(C::mm(get(*e)), want, "minmax", mn ? "min_element of a range" : "max_element of a range", where, static_cast<int64_t>(a));
            tr_it(e);
            if (e < x || !(e < y)) wrong("minmax", "position of the extremum of a range", where, static_cast<int64_t>(a), -1, static_cast<int64_t>(b));
            if (!(qc(x, y) == e)) wrong("minmax", mn ? "min_element_const of a range" : "max_element_const of a range", where, static_cast<int64_t>(a), 0, 1);
            if (s & 1) {
                auto u = make_it<Rit>(t, n, static_cast<int64_t>(b) - 1, r.below(4)), w = make_it<Rit>(t, n, static_cast<int64_t>(a) - 1, r.below(4));
                same(q(u, w), want, "minmax", mn ? "min of a reverse range" : "max of a reverse range", where, static_cast<int64_t>(a));
                auto f = qe(u, w);
                same(C::mm(get(*f)), want, "minmax", mn ? "min_element of a reverse range" : "max_element of a reverse range", where, static_cast<int64_t>(a));
                tr_it(f);
                if (f < x || !(f < y)) wrong("minmax", "position of the extremum of a reverse range", where, static_cast<int64_t>(a), -1, static_cast<int64_t>(b));
            }
        }
    }

    template <typename Tr> static void audit(Tr& t, Model const& m, uint32_t mask, uint64_t seed, uint32_t samples, const char* where, int mode = 1) {
        Rng r(seed ^ 0xA0D17);
        count(kAudits);
        int64_t allocs0 = op_allocs();
        try {
            Mode md(mode);
            audit_contents(std::as_const(t), m, where);
            audit_reads(t, m, mask, r, samples, where);
            // what the property's own oracles do not cover is read too: for the comparison of runs, or as accesses that may race
            if (par.race && par.differential != 1 ? mode == 2 : par.differential == 1 && mode == 1 && r.chance(1, 4)) {
                uint32_t bit = 1u << current_client();
                { sim_mode_guard g(0); recording_ |= bit; }
                try { audit_reads(t, m, kAllReads & ~mask, r, std::min(samples, 6u), where); } catch (Recorded const&) {}
                { sim_mode_guard g(0); recording_ &= ~bit; }
            }
            size_t d = t.depth();
            count_max(kMaxDepth, static_cast<int64_t>(d)); count_max(kMaxSize, static_cast<int64_t>(m.size()));
            tr(d);
            if ((F & fAllocFaults) && (oracle_mask & kAllocBound) && op_allocs() != allocs0) { sim_mode = 0; violation("allocations", "%s: reading allocated %lld nodes (operation %u %s of client %d)", where, static_cast<long long>(op_allocs() - allocs0), cur_op_uid, kOpName[cur_op_kind], current_client()); }
        } catch (std::exception const& e) {
            sim_mode = 0;
            violation("unexpected-exception", "%s: reading threw %s (operation %u %s of client %d)", where, e.what(), cur_op_uid, kOpName[cur_op_kind], current_client());
        }
    }
    uint64_t op_seed(Op const& op, uint32_t salt = 0) const { return par.seed * 0x9E3779B97F4A7C15ULL ^ (static_cast<uint64_t>(op.uid) << 20) ^ salt; }
    // everything that can be read through a tree, as one number
    template <typename Tr> static uint64_t observe(Tr const& t, Model const& m, int mode = 1) {
        uint64_t h = 1469598103934665603ULL;
        auto mix = [&](int64_t v) { h = (h ^ static_cast<uint64_t>(v)) * 0x9E3779B97F4A7C15ULL; h ^= h >> 29; };
        size_t n = m.size(), step = n <= 24 ? 1 : n / 16, i = 0;
        count(kAudits);
        try {
            Mode md(mode);
            mix(static_cast<int64_t>(t.size())); mix(t.empty());
            auto b = t.cbegin(), e = t.cend();
            for (auto it = b; it != e && i <= n; ++it, ++i) {
                Elem x = get(*it);
                mix(x.k); mix(x.v);
                if (i % step) continue;
                if constexpr (summed) { mix(static_cast<int64_t>(t.sum_inclusive(it))); mix(static_cast<int64_t>(t.sum_exclusive(it))); }
                if constexpr (indexed) {
                    mix(static_cast<int64_t>(t.order(it)));
                    if (i < n) { Elem y = get(t.at_index(static_cast<typename C::Index>(i))); mix(y.k); mix(y.v); }
                }
                if constexpr (ordered) {
                    sim_mode_guard g(0);
                    typename C::Key key = C::key(x.k);
                    g.restore();
                    auto f = t.find(key), u = t.upper_bound(key);
                    mix(f == e ? -1 : get(*f).v); mix(u == e ? -1 : get(*u).k);
                }
                if constexpr (has_min) mix(C::mm_of(t.min(it, e)));
                if constexpr (has_max) { auto j = it; ++j; mix(C::mm_of(t.max(b, j))); }
            }
            mix(static_cast<int64_t>(i));
            i = 0;
            auto re = t.crend();
            for (auto it = t.crbegin(); it != re && i <= n; ++it, ++i) { Elem x = get(*it); mix(x.k); mix(x.v); }
            if constexpr (summed) mix(static_cast<int64_t>(t.sum()));
            if (n) {
                if constexpr (has_min) mix(C::mm_of(t.min()));
                if constexpr (has_max) mix(C::mm_of(t.max()));
                Elem x = get(t.front()), y = get(t.back());
                mix(x.k); mix(x.v); mix(y.k); mix(y.v);
            }
        } catch (std::exception const& e) {
            sim_mode = 0;
            violation("unexpected-exception", "reading threw %s (operation %u %s of client %d)", e.what(), cur_op_uid, kOpName[cur_op_kind], current_client());
        }
        return h;
    }
    static void stable(P const& t, Model const& m, Fp& fp, const char* where, int mode = 1) {
        if (!(oracle_mask & kStable)) return;
        uint64_t h = observe(t, m, mode);
        tr(h);
        if (!fp.on) { fp.v = h; fp.on = true; return; }
        if (fp.v != h) violation("snapshot-changed", "%s: what a persistent tree shows has changed (operation %u %s of client %d)", where, cur_op_uid, kOpName[cur_op_kind], current_client());
    }
    template <typename S> static Fp look(S const& s) { Fp f; if (s.o && (oracle_mask & kStable)) { f.v = observe(std::as_const(*s.o), s.m); f.on = true; } return f; }
    template <typename S> static void expect(S const& s, Fp const& f, const char* where) {
        if (!f.on || !s.o) return;
        if (observe(std::as_const(*s.o), s.m) != f.v) violation("not-the-same", "%s does not show what the tree it was made from shows (operation %u %s of client %d)", where, cur_op_uid, kOpName[cur_op_kind], current_client());
    }
    template <typename S> static uint64_t before(S const& s) { return (oracle_mask & kUnaffected) ? observe(std::as_const(*s.o), s.m) : 0; }
    template <typename S> static void unaffected(S const& s, uint64_t h, const char* where) {
        if ((oracle_mask & kUnaffected) && observe(std::as_const(*s.o), s.m) != h) violation("not-unchanged", "what a tree shows has changed: %s (operation %u %s of client %d)", where, cur_op_uid, kOpName[cur_op_kind], current_client());
    }
    template <typename S> void audit_slot(S& s, Op const& op, const char* where) {
        if (!s.o) return;
        if constexpr (std::is_same_v<S, PSlot>) stable(std::as_const(*s.o), s.m, s.fp, where);
        Rng r(op_seed(op, 3));
        uint32_t mask = r.chance(1, 2) ? oracle_mask & kAllReads : 0;
        audit(std::as_const(*s.o), s.m, mask, op_seed(op, 4), s.m.size() <= 48 && r.chance(1, 2) ? 1000 : 10, where);
    }
    void audit_client(Client& c, uint64_t seed, uint32_t samples, const char* where) {
        for (auto& s : c.t) if (s.o) audit(std::as_const(*s.o), s.m, oracle_mask & kAllReads, seed, samples, where);
        for (auto& s : c.p) if (s.o) { audit(std::as_const(*s.o), s.m, oracle_mask & kAllReads, seed + 1, samples, where); stable(std::as_const(*s.o), s.m, s.fp, where); }
        for (auto& h : c.it) if (h.on) with_it(c, h, [&](auto& tree, Model const& m, auto& it) { check_it(tree, m, it, h.pos, seed, "held iterator"); });
    }

    // an iterator must be at forward position pos of the model
    template <typename Tr, typename It> static void check_it(Tr& t, Model const& m, It const& it, int64_t pos, uint64_t seed, const char* where) {
        Rng r(seed ^ 0x17E4);
        if (!(oracle_mask & kIters)) return;
        auto n = static_cast<int64_t>(m.size());
        count(kIterChecks);
        try {
            Mode md(1);
            bool none = is_rev<It> ? pos < 0 : pos >= n;
            auto at = [&](It const& i, int64_t p, const char* what) {
                bool no = is_rev<It> ? p < 0 : p >= n;
                It fresh = make_it<It>(t, m.size(), p, r.below(4));
                if (!(i == fresh)) wrong("iterator", what, where, p, 0, 1);
                if (i != fresh) wrong("iterator", what, where, p, 0, 1);
                if (!no) same(get(i.get()), m[static_cast<size_t>(p)], "iterator", what, where, p);
            };
            at(it, pos, "position");
            tr_it(it);
            if (it.valid() != !none) wrong("iterator", "valid()", where, pos, none, !none);
            if (!none) {
                same(get(*it.operator->()), m[static_cast<size_t>(pos)], "iterator", "operator->", where, pos);
                if constexpr (indexed) same(static_cast<int64_t>(std::as_const(t).order(it)), pos, "iterator", "order", where, pos);
                It i(it); ++i; at(i, is_rev<It> ? pos - 1 : pos + 1, "position after ++");
                It b(i); --b; at(b, pos, "position after ++ and --");
            }
            if (is_rev<It> ? pos < n - 1 : pos > 0) { It i(it); --i; at(i, is_rev<It> ? pos + 1 : pos - 1, "position after --"); }
            if (n) {
                int64_t q = static_cast<int64_t>(r.below(static_cast<uint32_t>(n) + 1)) - (is_rev<It> ? 1 : 0);
                It i(it); i += is_rev<It> ? pos - q : q - pos;
                at(i, q, "position after a jump");
            }
        } catch (std::exception const& e) {
            sim_mode = 0;
            violation("unexpected-exception", "%s: using an iterator threw %s (operation %u %s of client %d)", where, e.what(), cur_op_uid, kOpName[cur_op_kind], current_client());
        }
    }
    template <typename Fn> static void with_it(Client& c, HeldIt& h, Fn&& f) {
        if (h.per) {
            PSlot& s = c.p[h.slot];
            if (h.pc) f(std::as_const(*s.o), std::as_const(s.m), *h.pc); else f(std::as_const(*s.o), std::as_const(s.m), *h.pd);
        } else {
            TSlot& s = c.t[h.slot];
            if (h.ti) f(*s.o, std::as_const(s.m), *h.ti); else if (h.tc) f(*s.o, std::as_const(s.m), *h.tc);
            else if (h.tr) f(*s.o, std::as_const(s.m), *h.tr); else f(*s.o, std::as_const(s.m), *h.td);
        }
    }

    // ---------------------------------------------------------------------------------------------------- slots
    static int pick_t(Client& c, uint32_t raw) { for (uint32_t i = 0; i < kT; ++i) { auto s = static_cast<int>((raw + i) % kT); if (c.t[s].o) return s; } return -1; }
    static int pick_p(Client& c, uint32_t raw) { for (uint32_t i = 0; i < kP; ++i) { auto s = static_cast<int>((raw + i) % kP); if (c.p[s].o) return s; } return -1; }

    void drop_its(Client& c, bool per, int slot, HeldIt* except = nullptr) {
        for (auto& h : c.it) if (h.on && h.per == per && h.slot == slot && &h != except) h = HeldIt{};
    }
    // iterator proxies die with structural changes; key and index proxies only with the tree object
    void drop_prs(Client& c, int slot, bool object) {
        for (auto& h : c.pr) if (h.kind && h.slot == slot && (object || h.kind == 3)) h = HeldPr{};
    }
    void structural(Client& c, int slot, HeldIt* except = nullptr) { drop_its(c, false, slot, except); drop_prs(c, slot, false); c.t[slot].own.clear(); }

    void put_t(Client& c, int slot, T* o, Model m, bool owned) {
        clear_t(c, slot);
        c.t[slot].o = o; c.t[slot].m = std::move(m); c.t[slot].owned = owned; c.t[slot].own.clear();
    }
    void put_p(Client& c, int slot, P* o, Model m) {
        clear_p(c, slot);
        c.p[slot].o = o; c.p[slot].m = std::move(m); c.p[slot].fp = Fp{};
    }
    void clear_t(Client& c, int slot) {
        if (!c.t[slot].o) return;
        drop_its(c, false, slot); drop_prs(c, slot, true);
        T* o = c.t[slot].o; c.t[slot].o = nullptr;
        must(call([&] { o->~T(); }));
        tracked_free(o);
    }
    void clear_p(Client& c, int slot) {
        if (!c.p[slot].o) return;
        drop_its(c, true, slot);
        P* o = c.p[slot].o; c.p[slot].o = nullptr;
        must(call([&] { o->~P(); }));
        tracked_free(o);
    }
    // makes an object in simulated memory; 0 on an injected failure
    template <typename X, typename Fn> X* build(Op const& op, Fn&& f, int64_t expect_allocs = -1, bool may_hit_limit = false) {
        void* mem = tracked_alloc(sizeof(X));
        X* o = nullptr;
        for (uint32_t k = op.fail_alloc;; k = 0) {
            arm_alloc(k); reset_op_allocs();
            int r = call([&] { o = f(mem); });
            bool fired = fault_alloc_fired();
            int64_t allocs = op_allocs();
            arm_alloc(0);
            if (r == oOk) {
                if (fired) violation("swallowed-failure", "an allocation failed but operation %u %s reported success", op.uid, kOpName[op.kind]);
                if ((oracle_mask & kAllocBound) && expect_allocs >= 0 && allocs > expect_allocs) violation("allocations", "operation %u %s allocated %lld nodes, at most %lld expected", op.uid, kOpName[op.kind], static_cast<long long>(allocs), static_cast<long long>(expect_allocs));
                if (par.differential != 2) tr(static_cast<uint64_t>(allocs));
                return o;
            }
            if (r == oLogic && may_hit_limit && !fired) { count(kDepthLimit); count(kOpsFailed); tracked_free(mem); return nullptr; }
            if (r != oAlloc || !fired) must(r);
            count(kOpsFailed);
            if (!(op.flags & 1)) { tracked_free(mem); return nullptr; }
            count(kRetries);
        }
    }

    void unown(TSlot& s) { s.owned = false; s.own.clear(); }

    // -------------------------------------------------------------------------------------------- modification driver
    struct Target { bool per = false; int slot = -1; Model const* m = nullptr; };
    Target target(Client& c, Op const& op) {
        Target g;
        g.per = (op.flags & 2) != 0;
        if (g.per) g.slot = pick_p(c, op.a); else g.slot = pick_t(c, op.a);
        if (g.slot < 0) { g.per = !g.per; if (g.per) g.slot = pick_p(c, op.a); else g.slot = pick_t(c, op.a); }
        if (g.slot >= 0) g.m = g.per ? &c.p[g.slot].m : &c.t[g.slot].m;
        return g;
    }
    // f(tree, argument): performs the operation (returns the new tree for persistent ones); mf(model): its effect.
    // Runs it with the operation's faults; after a failure the tree must be unchanged.
    template <typename Fn, typename MF>
    bool modify(Client& c, Op const& op, Target g, Elem e, Growth growth, int64_t pos, Fn&& f, MF&& mf, HeldIt* through = nullptr) {
        bool ladder = (op.flags & 4) && (F & fAllocFaults);
        uint32_t k = ladder ? 1 : op.fail_alloc;
        uint32_t ke = op.fail_elem;
        Model nm;
        P* np = nullptr;
        int dst = g.per ? static_cast<int>((op.d >> 8) % kP) : 0;
        bool over = g.per && (op.d & 16) && c.p[dst].o && dst != g.slot;      // p = q.op(...) instead of a fresh object
        for (;;) {
            size_t depth0;
            { Mode md(1); depth0 = g.per ? std::as_const(*c.p[g.slot].o).depth() : std::as_const(*c.t[g.slot].o).depth(); }
            size_t n0 = g.m->size();
            bool armed = k || ke || (F & fShallow);
            uint64_t fp0 = armed ? (g.per ? before(c.p[g.slot]) : before(c.t[g.slot])) : 0;
            uint64_t fp1 = armed && over ? before(c.p[dst]) : 0;
            void* mem = g.per && !over ? tracked_alloc(sizeof(P)) : nullptr;
            int o;
            bool fired, efired; int64_t allocs;
            {
                std::optional<Value> arg;
                arg.emplace(C::make(e.k, e.v));
                arm_alloc(k); arm_elem(ke); reset_op_allocs();
                o = call([&] {
                    if (!g.per) { f(*c.t[g.slot].o, *arg); return; }
                    P const& src = *c.p[g.slot].o;
                    if (over) *c.p[dst].o = f(src, *arg); else np = new (mem) P(f(src, *arg));
                });
                fired = fault_alloc_fired(); efired = fault_elem_fired(); allocs = op_allocs();
                arm_alloc(0); arm_elem(0);
            }
            if (o == oOk) {
                if (fired || efired) violation("swallowed-failure", "%s failed but operation %u %s reported success", fired ? "an allocation" : "an element construction", op.uid, kOpName[op.kind]);
                if (par.differential != 2) tr(static_cast<uint64_t>(allocs));
                if (allocs) count(kCowOps); else count(kInPlace);
                if (oracle_mask & kAllocBound) {
                    auto d = static_cast<int64_t>(depth0);
                    bool mine = false;
                    if (!g.per) {
                        TSlot& s = c.t[g.slot];
                        mine = s.owned || (growth == gOverwrite && pos >= 0 && std::find(s.own.begin(), s.own.end(), static_cast<size_t>(pos)) != s.own.end());
                    }
                    int64_t limit = growth == gOverwrite ? (mine ? 0 : d) : growth == gErase ? (n0 == 1 ? 1 : mine ? 0 : d) : growth == gInsert ? (mine ? d + 1 : 2 * d + 1) : 1;
                    if (allocs > limit) violation("allocations", "operation %u %s allocated %lld nodes in a tree of depth %lld%s, at most %lld expected", op.uid, kOpName[op.kind], static_cast<long long>(allocs), static_cast<long long>(d), mine ? " that owns the nodes concerned" : "", static_cast<long long>(limit));
                }
                if (g.per) {
                    nm = *g.m; mf(nm);
                    if (over) { drop_its(c, true, dst); c.p[dst].m = std::move(nm); c.p[dst].fp = Fp{}; }
                    else put_new_p(c, op, g.slot, dst, np, std::move(nm));
                    audit_slot(c.p[g.slot], op, "source of a persistent operation");
                    audit_slot(c.p[dst], op, "result of a persistent operation");
                } else {
                    TSlot& s = c.t[g.slot];
                    if (growth != gOverwrite) structural(c, g.slot, through);
                    else if (pos >= 0 && s.own.size() < 64) s.own.push_back(static_cast<size_t>(pos));
                    mf(s.m);
                    audit_slot(s, op, "modified tree");
                }
                return true;
            }
            if (mem) tracked_free(mem);
            bool depth_limit = o == oLogic && growth == gInsert && !fired && !efired && at_limit(c, g);
            if (depth_limit) count(kDepthLimit);
            else if (!((o == oAlloc && fired) || (o == oElem && efired)))
                must(o);
            count(kOpsFailed);
            // nothing may have changed
            if (armed) { if (g.per) unaffected(c.p[g.slot], fp0, "the operation failed"); else unaffected(c.t[g.slot], fp0, "the operation failed"); }
            if (armed && over) unaffected(c.p[dst], fp1, "the operation producing its new value failed");
            if (g.per) audit_slot(c.p[g.slot], op, "persistent tree after a failed operation");
            else audit(std::as_const(*c.t[g.slot].o), c.t[g.slot].m, oracle_mask & kAllReads, op_seed(op, 5), g.m->size() <= 48 ? 1000 : 16, "tree after a failed operation");
            if (over) { drop_its(c, true, dst); audit_slot(c.p[dst], op, "assignment target after a failed operation"); }
            if (depth_limit) return false;
            ke = 0;
            if (ladder && fired && k < 24) { ++k; continue; }
            if (!(op.flags & 1) && !ladder) return false;
            count(kRetries);
            k = 0;
        }
    }
    bool at_limit(Client& c, Target g) {
        Mode md(1);
        return g.per ? c.p[g.slot].o->depth() == c.p[g.slot].o->max_depth() : c.t[g.slot].o->depth() == c.t[g.slot].o->max_depth();
    }
    template <typename Tr> static bool full(Tr const& p) { Mode md(1); return p.depth() == p.max_depth(); }
    void put_new_p(Client& c, Op const&, int src, int dst, P* np, Model nm) {
        // the result may replace its own source: the source must survive until then
        (void)src;
        put_p(c, dst, np, std::move(nm));
    }
    // an operation that has to throw and change nothing
    template <typename Fn> void reject(Client& c, Op const& op, Target g, Elem e, bool updater, Fn&& f) {
        int o;
        uint64_t fp0 = g.per ? before(c.p[g.slot]) : before(c.t[g.slot]);
        {
            std::optional<Value> arg; arg.emplace(C::make(e.k, e.v));
            reset_op_allocs();
            o = call([&] { if (g.per) f(std::as_const(*c.p[g.slot].o), *arg); else f(*c.t[g.slot].o, *arg); });
        }
        if (o == oOk) violation("not-rejected", "operation %u %s succeeded although it must be rejected", op.uid, kOpName[op.kind]);
        if (updater ? o != oUpd : o != oLogic) must(o);
        count(updater ? kFaultUpdater : kFaultMisuse);
        count(kOpsFailed);
        if (g.per) unaffected(c.p[g.slot], fp0, "the operation was rejected"); else unaffected(c.t[g.slot], fp0, "the operation was rejected");
        if (g.per) audit(std::as_const(*c.p[g.slot].o), c.p[g.slot].m, oracle_mask & kAllReads, op_seed(op, 6), c.p[g.slot].m.size() <= 48 ? 1000 : 16, "tree after a rejected operation");
        else audit(std::as_const(*c.t[g.slot].o), c.t[g.slot].m, oracle_mask & kAllReads, op_seed(op, 6), c.t[g.slot].m.size() <= 48 ? 1000 : 16, "tree after a rejected operation");
    }

    // -------------------------------------------------------------------------------------------------- argument choice
    static bool gap(Model const& m, size_t lo_end, size_t hi_begin, uint32_t raw, int64_t& k) {   // key after m[lo_end-1] and before m[hi_begin]
        bool hl = lo_end > 0, hh = hi_begin < m.size();
        int64_t a = hl ? m[lo_end - 1].k : 0, b = hh ? m[hi_begin].k : 0;
        if (!hl && !hh) { k = a_key(raw); return true; }
        if (C::desc) { std::swap(a, b); std::swap(hl, hh); }
        if (par.wide && (raw >> 20) % 4 == 0) {              // anywhere up to the ends of the range
            if (!hl) { a = C::kmin - 1; hl = true; }
            if (!hh) { b = C::kmax + 1; hh = true; }
        }
        if (!hl) { k = b - 1 - static_cast<int64_t>(raw % 7); return k >= C::kmin; }
        if (!hh) { k = a + 1 + static_cast<int64_t>(raw % 7); return k <= C::kmax; }
        if (b - a < 2) return false;
        if (par.wide) {
            uint64_t room = static_cast<uint64_t>(b - a - 1), d = (static_cast<uint64_t>(raw) * 0x9E3779B97F4A7C15ULL >> 1) % room;
            if (raw % 5 == 0) d %= 3; else if (raw % 5 == 1) d = room - 1 - d % std::min<uint64_t>(room, 3);
            k = a + 1 + static_cast<int64_t>(d % room);
            return true;
        }
        k = a + 1 + static_cast<int64_t>(raw % static_cast<uint64_t>(b - a - 1));
        return true;
    }
    // In wide runs keys and values come from the whole range of their types, often from its ends or next to powers of two.
    static int64_t wide_number(int64_t lo, int64_t hi, uint32_t raw) {
        int64_t near = static_cast<int64_t>(raw % (par.keyspace * 16)), x = 0;
        uint32_t bit = (raw >> 16) % 62;
        switch ((raw >> 22) % 8) {
            case 0: x = hi - near; break;
            case 1: x = lo + near; break;
            case 2: x = (int64_t{1} << bit) - near / 2; break;
            case 3: x = -(int64_t{1} << bit) + near / 2; break;
            case 4: x = (int64_t{1} << (bit % 2 ? 31 : 32)) - near / 2; break;
            case 5: x = hi - (hi / 64 - lo / 64) * static_cast<int64_t>(near % 64); break;
            default: x = near; break;
        }
        return std::clamp(x, lo, hi);
    }
    static int64_t a_key(uint32_t raw) { return par.wide ? wide_number(C::kmin, C::kmax, raw * 0x9E3779B1u + (raw >> 16)) : static_cast<int64_t>(raw % (par.keyspace * 16)); }
    static int64_t a_val(uint32_t raw) { return par.wide && raw % 4 ? wide_number(C::vmin, C::vmax, raw * 0x85EBCA6Bu + (raw >> 15)) : C::val(raw); }
    static Elem fresh(uint32_t raw) { return Elem{C::has_key ? a_key(raw) : 0, C::has_val ? a_val(raw >> 7) : 0}; }
    // element that may be inserted at position pos (between pos-1 and pos), or overwrite [pos, pos+1)
    static bool elem_for(Model const& m, size_t pos, bool overwrite, uint32_t raw, Elem& e) {
        e = fresh(raw * 2654435761u);
        if constexpr (ordered) {
            if (overwrite && (raw & 3) && C::has_val) { e.k = m[pos].k; return true; }
            if (overwrite && !C::has_val && !(raw & 15)) { e.k = m[pos].k; return true; }
            return gap(m, pos, overwrite ? pos + 1 : pos, raw, e.k);
        }
        return true;
    }
    static int64_t some_key(Model const& m, uint32_t raw, uint32_t want_present) {
        if (!m.empty() && want_present) return m[raw % m.size()].k;
        if (!m.empty() && (raw & 1)) return C::clamp_key(m[(raw >> 3) % m.size()].k + ((raw >> 1) & 3) - 1);
        return C::clamp_key(a_key(raw));
    }
    static bool absent_key(Model const& m, uint32_t raw, int64_t& k) {
        for (uint32_t i = 0; i < 8; ++i) {
            k = some_key(m, raw + i * 77, i & 1 ? 0 : (i == 0 ? 0 : 1));
            if (i > 4) k = C::clamp_key(a_key(raw + i));
            if (!present(m, lower(m, k), k)) return true;
        }
        return false;
    }

    // in which form a new element is passed
    template <typename Fn> static void forms(uint32_t form, Value& arg, Elem e, Fn&& f) {
        if constexpr (pair_args) {
            switch (form % 4) {
                case 0: f(std::as_const(arg)); return;
                case 1: f(std::move(arg)); return;
                case 2: C::two(e.k, e.v, f); return;
                default: C::piecewise(e.k, e.v, f); return;
            }
        } else {
            if constexpr (C::from_values) if (form & 2) { f(static_cast<int32_t>(e.v)); return; }
            if (form & 1) f(std::move(arg)); else f(std::as_const(arg));
        }
        (void)e;
    }
    template <typename Tr, typename Fn> static auto on(Tr& t, uint32_t form, Value& arg, Elem e, Fn&& f) {
        if constexpr (transient<Tr>) { forms(form, arg, e, [&](auto&&... a) { f(t, std::forward<decltype(a)>(a)...); }); }
        else {
            std::optional<P> r;
            forms(form, arg, e, [&](auto&&... a) { r.emplace(f(t, std::forward<decltype(a)>(a)...)); });
            return P(std::move(*r));
        }
    }

    template <typename Num, typename R> static void compound(uint32_t opn, R&& r, Num d) {
        switch (opn % 14) {
            case 0: r += d; break;
            case 1: r -= d; break;
            case 2: r *= d; break;
            case 3: r /= d; break;
            case 4: r %= d; break;
            case 5: r ^= d; break;
            case 6: r &= d; break;
            case 7: r |= d; break;
            case 8: r <<= d; break;
            case 9: r >>= d; break;
            case 10: ++r; break;
            case 11: --r; break;
            case 12: r++; break;
            default: r--; break;
        }
    }
    // the same through a proxy; what the expression yields is recorded
    static inline int64_t px_yields[kMaxFibers] = {};                  // by client
    static int64_t& px_yield() { return px_yields[current_client()]; }
    template <typename Num, typename R> static void compound_proxy(uint32_t opn, R& r, Num d) {
        auto now = [](auto& q) { px_yield() = C::mapped_of(q.get()); };
        switch (opn % 14) {
            case 0: now(r += d); break;
            case 1: now(r -= d); break;
            case 2: now(r *= d); break;
            case 3: now(r /= d); break;
            case 4: now(r %= d); break;
            case 5: now(r ^= d); break;
            case 6: now(r &= d); break;
            case 7: now(r |= d); break;
            case 8: now(r <<= d); break;
            case 9: now(r >>= d); break;
            case 10: now(++r); break;
            case 11: now(--r); break;
            case 12: px_yield() = C::mapped_of(r++); break;
            default: px_yield() = C::mapped_of(r--); break;
        }
    }
    // chooses an operator and operand whose plain-integer effect stays in range; returns the result
    template <typename Num> static bool choose_compound(int64_t v, uint32_t raw, uint32_t& opn, Num& d, int64_t& out) {
        for (uint32_t i = 0; i < 6; ++i) {
            opn = (raw >> 3) + i; d = static_cast<Num>(1 + (raw + i) % 5);
            if (v < 0 && (opn % 14 == 8 || opn % 14 == 9)) continue;
            if constexpr (std::is_signed_v<Num>) { out = v; compound<int64_t>(opn, out, static_cast<int64_t>(d)); }    // no overflow of Num
            else { Num x = static_cast<Num>(v); compound<Num>(opn, x, d); out = static_cast<int64_t>(x); }
            if (out >= C::vmin && out <= C::vmax) return true;
        }
        return false;
    }
#include "world_ops.inc"
};

} // namespace sim
