// The inverted index of /repo/examples: two trees (terms with document counts, postings) that change together.
// Compiled with -fno-access-control: as shipped, the example's conversions between its two kinds name private
// constructors, and its Persistent::insert and lookup by term do not compile when used, so the harness does what they
// say themselves. Every index holds the largest term from the start: inserting a new largest term reads past the last
// term (a known finding), and is left out.
#include "cfg.hpp"
#include "inverted_index.hpp"
#include <map>
#include <set>
using namespace sim;
namespace {
struct IntTerm {
    using Term = uint32_t;
    static constexpr uint32_t features = fInverted | fAllocFaults;
    using Index = InvertedIndex<uint32_t, 64, 160, 8>;
    static Term term(uint32_t x) { return x * 3 + 1; }
    static Term last() { return 0xffffffffu; }
};
struct StrTerm {
    using Term = std::string;
    static constexpr uint32_t features = fInverted;
    using Index = InvertedIndex<std::string, 160, 400, 7>;
    static Term term(uint32_t x) { return "term number " + std::to_string(x) + (x & 1 ? " with a tail that needs memory" : ""); }
    static Term last() { return "~ the last term of every index"; }
};

template <typename C> struct InvWorld {
    using T = typename C::Index::Transient; using P = typename C::Index::Persistent;
    using Term = typename C::Term;
    using Model = std::map<Term, std::set<uint32_t>>;
    static constexpr int kT = 2, kP = 3;
    struct Pub { P* o; Model m; int refs; Clock clk; };
    struct Client { T* t[kT] = {}; Model tm[kT]; P* p[kP] = {}; Model pm[kP]; Pub* att = nullptr; std::vector<Op> ops; };
    Client cl[kMaxFibers];
    Pub* pub = nullptr;

    template <typename Fn> static int call(Fn&& f) {
        try { Mode md(2); f(); return 0; }
        catch (std::bad_alloc const&) { return 1; }
        catch (...) { return 2; }
    }
    static void must(int o, Op const& op) { if (o) violation("unexpected-exception", "%s thrown by operation %u of client %d", o == 1 ? "std::bad_alloc" : "an exception", op.uid, current_client()); }
    template <typename X> static void audit(X const& x, Model const& m, Op const& op, const char* where, int mode = 1) {
        count(kAudits);
        auto bad = [&](const char* what, uint64_t got, uint64_t want) {
            sim_mode = 0;
            violation("postings", "%s: %s is %llu, expected %llu (operation %u of client %d)", where, what, static_cast<unsigned long long>(got), static_cast<unsigned long long>(want), op.uid, current_client());
        };
        try {
            Mode md(mode);
            auto const& terms = x.term_list();
            if (terms.size() != m.size()) bad("number of terms", terms.size(), m.size());
            auto w = m.begin();
            size_t i = 0;
            for (auto it = terms.cbegin(); it != terms.cend(); ++it, ++w, ++i) {
                if (w == m.end()) bad("number of terms visited", i + 1, m.size());
                if (it->first != w->first) bad("order of terms: position of a wrong term", i, i);
                if (it->second != w->second.size()) bad("document count", it->second, w->second.size());
                auto check = [&](auto range) {
                    auto d = w->second.begin();
                    size_t k = 0;
                    auto b = range.first, e = range.second;
                    for (; b != e; ++b, ++d, ++k) {
                        if (d == w->second.end()) bad("number of documents", k + 1, w->second.size());
                        uint32_t got = *b;
                        if (got != *d) bad("document", got, *d);
                        transcript(got);
                    }
                    if (k != w->second.size()) bad("number of documents", k, w->second.size());
                };
                check(x.term_doc_iterator(it));
                if (i % 3 == 0) check(x.term_doc_iterator(terms.find(w->first)));
            }
            if (i != m.size()) bad("number of terms visited", i, m.size());
            count(kAuditElems, static_cast<int64_t>(m.size()));
        } catch (std::exception const& e) {
            sim_mode = 0;
            violation("unexpected-exception", "%s: reading threw %s (operation %u of client %d)", where, e.what(), op.uid, current_client());
        }
    }
    static uint32_t doc(uint32_t raw) { static const uint32_t sp[] = {4, 12, 60, 100000}; return raw % sp[par.keyspace == 4 ? 0 : par.keyspace == 16 ? 1 : par.keyspace == 64 ? 2 : 3]; }
    // every index starts with the largest term
    static T* fresh(void* mem) {
        typename C::Index::TermList::Transient terms; typename C::Index::DocList::Transient docs;
        terms.insert_or_assign(C::last(), 1u);
        docs.push_back(7u);
        return new (mem) T(std::move(terms), std::move(docs));
    }
    static Model first() { Model m; m[C::last()].insert(7u); return m; }
    static T with(P const& p, Term const& t, uint32_t d) { T x(p.transient()); x.insert(t, d); return x; }
    static Term term(uint32_t raw) { if (raw % 61 == 60) return C::last(); return C::term(raw % (par.keyspace < 64 ? par.keyspace : par.keyspace == 64 ? 48 : 300)); }
    template <typename X> static int pick(X* const* a, int n, uint32_t raw) { for (int i = 0; i < n; ++i) { int s = static_cast<int>((raw + static_cast<uint32_t>(i)) % static_cast<uint32_t>(n)); if (a[s]) return s; } return -1; }
    template <typename X, typename Fn> static X* make(Op const& op, Fn&& f, bool faults = false) {
        void* mem = tracked_alloc(sizeof(X)); X* o = nullptr;
        for (uint32_t k = faults ? op.fail_alloc : 0;; k = 0) {
            arm_alloc(k);
            int r = call([&] { o = f(mem); });
            bool fired = fault_alloc_fired();
            arm_alloc(0);
            if (!r) { if (fired) violation("swallowed-failure", "an allocation failed but operation %u reported success", op.uid); return o; }
            if (r != 1 || !fired) must(r, op);
            count(kOpsFailed);
            if (!(op.flags & 1)) { tracked_free(mem); return nullptr; }
            count(kRetries);
        }
    }
    void drop_t(Client& c, int s, Op const& op) { T* o = c.t[s]; if (!o) return; c.t[s] = nullptr; c.tm[s].clear(); must(call([&] { o->~T(); }), op); tracked_free(o); }
    void drop_p(Client& c, int s, Op const& op) { P* o = c.p[s]; if (!o) return; c.p[s] = nullptr; c.pm[s].clear(); must(call([&] { o->~P(); }), op); tracked_free(o); }
    void put_t(Client& c, int s, T* o, Model m, Op const& op) { drop_t(c, s, op); c.t[s] = o; c.tm[s] = std::move(m); audit(std::as_const(*o), c.tm[s], op, "new transient index"); }
    void put_p(Client& c, int s, P* o, Model m, Op const& op) { drop_p(c, s, op); c.p[s] = o; c.pm[s] = std::move(m); audit(std::as_const(*o), c.pm[s], op, "new persistent index"); }
    void release(Pub*& p, Op const& op) {
        if (!p) return;
        Pub* q = p; p = nullptr;
        hb_release(q->clk);
        if (--q->refs) return;
        hb_acquire(q->clk);
        must(call([&] { q->o->~P(); }), op);
        tracked_free(q->o);
        delete q;
    }
    void insert_t(Client& c, int s, uint32_t rt, uint32_t rd, Op const& op) {
        Term t = term(rt); uint32_t d = doc(rd);
        { Term arg = t; must(call([&] { if (rd & 0x80000000u) c.t[s]->insert(std::as_const(arg), d); else c.t[s]->insert(std::move(arg), d); }), op); }
        c.tm[s][t].insert(d);
    }
    void exec(Client& c, Op const& op) {
        op_begin(op);
        arm_alloc(0);
        transcript(op.uid);
        int dt = static_cast<int>((op.d >> 4) % kT), dp = static_cast<int>((op.d >> 8) % kP);
        switch (op.kind) {
            case kPushBack: {
                if (op.flags & 2) {
                    int s = pick(c.p, kP, op.a); if (s < 0) break;
                    Term t = term(op.b); uint32_t d = doc(op.c);
                    P* o = make<P>(op, [&](void* m) { return new (m) P(with(*c.p[s], t, d).persistent()); }, true);
                    audit(std::as_const(*c.p[s]), c.pm[s], op, "source of a persistent insertion");
                    if (!o) break;
                    Model m = c.pm[s]; m[t].insert(d);
                    put_p(c, dp, o, std::move(m), op);
                } else {
                    int s = pick(c.t, kT, op.a); if (s < 0) break;
                    insert_t(c, s, op.b, op.c, op);
                    if (c.tm[s].size() < 64 || (op.d & 3) == 0) audit(std::as_const(*c.t[s]), c.tm[s], op, "index after an insertion");
                }
                break;
            }
            case kBulk: {
                int s = pick(c.t, kT, op.a); if (s < 0) break;
                Rng r(par.seed ^ op.uid * 77777u);
                uint32_t n = 1 + op.b % (par.keyspace == 400 ? 250 : 40), style = op.c % 3, t0 = static_cast<uint32_t>(r.next());
                for (uint32_t i = 0; i < n; ++i) insert_t(c, s, style == 0 ? t0 : static_cast<uint32_t>(r.next() >> 8), style == 1 ? t0 : static_cast<uint32_t>(r.next()), op);
                audit(std::as_const(*c.t[s]), c.tm[s], op, "index after many insertions");
                break;
            }
            case kSnap: {
                int s = pick(c.t, kT, op.a); if (s < 0) break;
                if ((op.c & 7) == 0) {
                    P* o = make<P>(op, [&](void* m) { return new (m) P(std::move(*c.t[s]).persistent()); });
                    Model m = c.tm[s]; drop_t(c, s, op);
                    put_p(c, dp, o, std::move(m), op);
                } else put_p(c, dp, make<P>(op, [&](void* m) { return new (m) P(c.t[s]->persistent()); }), c.tm[s], op);
                break;
            }
            case kTrans: {
                int s = pick(c.p, kP, op.a); if (s < 0) break;
                if ((op.c & 7) == 0) {
                    T* o = make<T>(op, [&](void* m) { return new (m) T(std::move(*c.p[s]).transient()); });
                    Model m = c.pm[s]; drop_p(c, s, op);
                    put_t(c, dt, o, std::move(m), op);
                } else put_t(c, dt, make<T>(op, [&](void* m) { return new (m) T(std::as_const(*c.p[s]).transient()); }), c.pm[s], op);
                break;
            }
            case kCopyT: {
                int s = pick(c.t, kT, op.a); if (s < 0 || s == dt) break;
                if (op.c & 1 && c.t[dt]) { must(call([&] { *c.t[dt] = std::as_const(*c.t[s]); }), op); c.tm[dt] = c.tm[s]; audit(std::as_const(*c.t[dt]), c.tm[dt], op, "assigned transient index"); }
                else put_t(c, dt, make<T>(op, [&](void* m) { return new (m) T(std::as_const(*c.t[s])); }), c.tm[s], op);
                break;
            }
            case kCopyP: {
                int s = pick(c.p, kP, op.a); if (s < 0 || s == dp) break;
                put_p(c, dp, make<P>(op, [&](void* m) { return new (m) P(std::as_const(*c.p[s])); }), c.pm[s], op);
                break;
            }
            case kDropT: drop_t(c, dt, op); break;
            case kDropP: drop_p(c, dp, op); break;
            case kNewT: put_t(c, dt, make<T>(op, fresh), first(), op); break;
            case kPublish: {
                int s = pick(c.p, kP, op.a); if (s < 0) break;
                auto* q = new Pub{c.p[s], c.pm[s], 1, {}};
                c.p[s] = nullptr; c.pm[s].clear();
                hb_release(q->clk);
                Pub* old = pub; pub = q;
                release(old, op);
                break;
            }
            case kAttach: if (pub && !c.att) { c.att = pub; ++pub->refs; hb_acquire(pub->clk); } break;
            case kDetach: release(c.att, op); break;
            case kPubRead: case kPubCopy: case kPubTrans: {
                if (!c.att) { if (!pub) break; c.att = pub; ++pub->refs; hb_acquire(pub->clk); }
                Pub* q = c.att;
                count(kShared);
                if (op.kind == kPubRead) audit(std::as_const(*q->o), q->m, op, "shared index", 2);
                else if (op.kind == kPubCopy) put_p(c, dp, make<P>(op, [&](void* m) { return new (m) P(std::as_const(*q->o)); }), q->m, op);
                else put_t(c, dt, make<T>(op, [&](void* m) { return new (m) T(std::as_const(*q->o).transient()); }), q->m, op);
                break;
            }
            case kPubMod: {
                if (!c.att) { if (!pub) break; c.att = pub; ++pub->refs; hb_acquire(pub->clk); }
                Pub* q = c.att;
                count(kShared);
                Term t = term(op.b); uint32_t d = doc(op.c);
                P* o = make<P>(op, [&](void* m) { return new (m) P(with(*q->o, t, d).persistent()); }, true);
                if (!o) break;
                Model m = q->m; m[t].insert(d);
                put_p(c, dp, o, std::move(m), op);
                break;
            }
            case kRead:
                for (int s = 0; s < kT; ++s) if (c.t[s]) audit(std::as_const(*c.t[s]), c.tm[s], op, "transient index", 2);
                for (int s = 0; s < kP; ++s) if (c.p[s]) audit(std::as_const(*c.p[s]), c.pm[s], op, "persistent index", 2);
                break;
            default: break;
        }
        op_end();
    }
    static void body(int id, void* w) { auto* self = static_cast<InvWorld*>(w); for (auto const& op : self->cl[id].ops) self->exec(self->cl[id], op); }
    static void run(const Op* ops, size_t n) { (new InvWorld)->go(ops, n); }
    void go(const Op* ops, size_t n) {
        for (size_t i = 0; i < n; ++i) { int c = ops[i].client; if (c >= 1 && c <= static_cast<int>(par.clients)) cl[c].ops.push_back(ops[i]); }
        Op op; op.kind = kBulk; op.uid = 0xfffff0u;
        Rng r(par.seed ^ 0x5E70);
        Client& m = cl[0];
        m.t[0] = make<T>(op, fresh); m.tm[0] = first();
        for (uint32_t i = 0; i < par.bulk; ++i) insert_t(m, 0, static_cast<uint32_t>(r.next()), static_cast<uint32_t>(r.next()), op);
        audit(std::as_const(*m.t[0]), m.tm[0], op, "initial index");
        pub = new Pub{make<P>(op, [&](void* x) { return new (x) P(m.t[0]->persistent()); }), m.tm[0], 1, {}};
        for (int i = 1; i <= static_cast<int>(par.clients); ++i) {
            cl[i].p[0] = make<P>(op, [&](void* x) { return new (x) P(std::as_const(*pub->o)); }); cl[i].pm[0] = pub->m;
            bool derived = r.chance(2, 3);
            cl[i].t[0] = make<T>(op, [&](void* x) { return derived ? new (x) T(std::as_const(*pub->o).transient()) : fresh(x); });
            cl[i].tm[0] = derived ? pub->m : first();
        }
        hb_release(pub->clk);
        run_clients(static_cast<int>(par.clients), body, this);
        op.uid = 0xfffff1u;
        audit(std::as_const(*pub->o), pub->m, op, "final audit of the shared index");
        for (int i = kMaxFibers - 1; i >= 0; --i) {
            Client& c = cl[i];
            for (int s = 0; s < kT; ++s) if (c.t[s]) audit(std::as_const(*c.t[s]), c.tm[s], op, "final audit");
            for (int s = 0; s < kP; ++s) if (c.p[s]) audit(std::as_const(*c.p[s]), c.pm[s], op, "final audit");
            for (int s = 0; s < kT; ++s) drop_t(c, s, op);
            for (int s = 0; s < kP; ++s) drop_p(c, s, op);
            release(c.att, op);
        }
        release(pub, op);
        if (live_blocks()) violation("leak", "%lld blocks are still allocated after all indexes are gone", static_cast<long long>(live_blocks()));
        finish_run();
    }
};
static Register ri(ConfigInfo{"inv", "inverted index with integer terms, 64/160-byte nodes", IntTerm::features, &InvWorld<IntTerm>::run});
static Register rs(ConfigInfo{"invs", "inverted index with string terms, 160/400-byte nodes", StrTerm::features, &InvWorld<StrTerm>::run});
}
