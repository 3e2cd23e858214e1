// Coordinator: generates plans, forks one process per simulated run, confirms, minimises and replays violations.
#include "ops.h"
#include <algorithm>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

using namespace sim;

static std::vector<ConfigInfo>& registry() { static std::vector<ConfigInfo> r; return r; }
namespace sim { Register::Register(ConfigInfo const& c) { registry().push_back(c); std::sort(registry().begin(), registry().end(), [](auto const& a, auto const& b) { return strcmp(a.name, b.name) < 0; }); } }

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec); }
template <typename X> static X* shared(size_t n) {
    void* p = mmap(nullptr, sizeof(X) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    return static_cast<X*>(p);
}

// ------------------------------------------------------------------------------------------------------- profiles
struct Profile {
    const char* prop;
    uint32_t mask;                 // oracles that decide the property
    uint32_t race;                 // 1: detect data races
    uint32_t min_clients, max_clients;
    uint32_t alloc_pct, elem_pct;  // operations with an injected failure (where the configuration admits it)
    uint32_t differential;         // 1: memory variants, 2: schedule variants (half of the runs)
    std::map<OpKind, int> w;       // workload weights
    uint32_t hoard = 0, churn = 0, large = 0;    // one run in so many has such an operation
};
using W = std::map<OpKind, int>;
static W join(std::initializer_list<W> l) { W r; for (auto const& x : l) for (auto const& [k, v] : x) r[k] += v; return r; }
static W scale(W w, int n) { for (auto& [k, v] : w) v *= n; return w; }

static const W ends{{kPushBack, 4}, {kPushFront, 4}, {kPopBack, 3}, {kPopFront, 3}};
static const W iters{{kInsIt, 8}, {kAsgIt, 4}, {kUpdIt, 4}, {kEraIt, 6}};
static const W keys{{kInsertV, 6}, {kAssignV, 3}, {kInsertOrAssign, 6}, {kEraseKey, 6}, {kUpdateKey, 3}};
static const W idx{{kInsIdx, 6}, {kAsgIdx, 3}, {kEraIdx, 5}, {kUpdIdx, 3}};
static const W px{{kPxKey, 4}, {kPxIdx, 4}, {kPxIt, 4}, {kPxRead, 4}, {kPxCopy, 3}, {kPxSwap, 3}};
static const W mass{{kClear, 1}, {kSort, 1}, {kAlgo, 2}, {kAlias, 2}, {kBulk, 5}, {kDrain, 5}};
static const W bad{{kXMissAssign, 3}, {kXMissErase, 3}, {kXMissUpdate, 3}, {kXMissAt, 2}, {kXUpdThrow, 5}, {kXUpdMismatch, 3}, {kXProxyMismatch, 3}, {kXEmptyMinMax, 4}, {kXCompare, 2}, {kXFill, 3}};
static const W conv{{kSnap, 6}, {kSnapMove, 2}, {kTrans, 6}, {kTransMove, 2}, {kCopyT, 2}, {kCopyP, 2}, {kAsgT, 2}, {kAsgP, 2}, {kSelfT, 1}, {kSelfP, 1}, {kMoveT, 1}, {kMoveP, 1}, {kMoveAsgT, 1}, {kMoveAsgP, 1}, {kSwapT, 1}, {kSwapP, 1}, {kDropT, 1}, {kDropP, 2}, {kNewT, 1}, {kNewP, 1}};
static const W share{{kSnap, 6}, {kTrans, 5}, {kCopyP, 2}, {kDropP, 1}, {kDropT, 1}, {kNewT, 1}};
static const W comm{{kSend, 3}, {kRecv, 4}, {kPublish, 2}, {kAttach, 2}, {kDetach, 1}, {kPubRead, 3}, {kPubCopy, 3}, {kPubTrans, 3}, {kPubMod, 2}, {kCrash, 1}};
static const W comm_ro{{kAttach, 2}, {kDetach, 1}, {kPubRead, 4}, {kPubCopy, 4}, {kPubTrans, 4}, {kPubMod, 3}};
// short races over few small trees: many conversions and drops, hardly anything that orders the clients
static const W handover{{kSend, 5}, {kRecv, 7}, {kPublish, 2}, {kAttach, 2}, {kDetach, 2}, {kPubRead, 2}, {kPubCopy, 4}, {kPubTrans, 4}, {kPubMod, 1}, {kSnap, 4}, {kSnapMove, 4}, {kTrans, 3}, {kTransMove, 8}, {kCopyT, 2}, {kCopyP, 2},
    {kAsgT, 1}, {kAsgP, 2}, {kMoveP, 1}, {kMoveAsgT, 1}, {kMoveAsgP, 1}, {kDropT, 4}, {kDropP, 8}, {kCrash, 1}, {kRead, 2}, {kLookup, 2}, {kClear, 1}};
static const W held{{kItTake, 6}, {kItCheck, 6}, {kItAssign, 4}, {kItUpdate, 3}, {kItInsert, 4}, {kItErase, 4}, {kItStep, 5}};
static const W heldpx{{kPrTake, 4}, {kPrRead, 5}, {kPrWrite, 5}};
static const W look{{kRead, 3}, {kNav, 3}, {kLookup, 4}, {kRange, 3}, {kCompare, 1}};
static const W mods = join({ends, iters, keys, idx, mass});

static std::vector<Profile> const& profiles() {
    static const std::vector<Profile> p{
        {"C01", kStable, 0, 1, 4, 4, 2, 0, join({mods, scale(conv, 2), comm, {{kXUpdThrow, 1}, {kPxKey, 1}, {kPxIdx, 1}, {kPxIt, 1}, {kRead, 4}, {kSweep, 1}}}), 60, 40, 30},
        {"C02", kStable, 1, 2, 4, 2, 0, 2, join({mods, conv, scale(comm, 3), scale(share, 2), look, {{kSweep, 1}}})},
        {"C03", kLeaks, 0, 1, 4, 8, 8, 0, join({mods, scale(conv, 2), comm, {{kDropT, 3}, {kDropP, 3}, {kCrash, 2}, {kClear, 2}, {kXUpdThrow, 1}, {kXFill, 1}, {kXMissErase, 1}, {kXMissAssign, 1}}}), 25, 0, 0},
        {"C04", kUnaffected, 0, 1, 2, 60, 0, 0, join({scale(mods, 2), conv, px, {{kSend, 1}, {kRecv, 1}, {kPubMod, 2}, {kPublish, 1}, {kItTake, 2}, {kItInsert, 2}, {kItErase, 2}, {kItAssign, 2}}})},
        {"C05", kUnaffected, 0, 1, 2, 4, 40, 0, join({mods, scale(bad, 4), share, {{kAlias, 2}}})},
        {"C06", kKeys, 0, 1, 3, 4, 0, 0, join({scale(keys, 4), ends, iters, idx, mass, share, {{kPxKey, 3}, {kPublish, 1}, {kPubTrans, 1}, {kPubCopy, 1}, {kLookup, 12}, {kXMissErase, 1}, {kXMissAssign, 1}}}), 0, 0, 30},
        {"C07", kIndex, 0, 1, 3, 4, 0, 0, join({scale(idx, 4), ends, iters, keys, mass, share, {{kPxIdx, 3}, {kSort, 2}, {kPublish, 1}, {kPubTrans, 1}, {kLookup, 8}}}), 0, 0, 30},
        {"C08", kSums, 0, 1, 3, 4, 0, 0, join({mods, px, share, {{kSort, 1}, {kLookup, 5}, {kRange, 6}, {kPublish, 1}, {kPubTrans, 1}, {kSweep, 1}, {kXUpdThrow, 1}}}), 0, 0, 30},
        {"C09", kMinMax, 0, 1, 3, 4, 0, 0, join({mods, px, share, {{kSort, 1}, {kLookup, 3}, {kRange, 8}, {kPublish, 1}, {kPubTrans, 1}, {kSweep, 1}, {kXUpdThrow, 1}}}), 0, 0, 30},
        {"C10", kIters, 0, 1, 3, 4, 0, 0, join({ends, scale(iters, 2), keys, idx, px, scale(held, 5), share, {{kCopyT, 2}, {kAsgT, 1}, {kBulk, 2}, {kDrain, 2}, {kPubTrans, 1}, {kXUpdThrow, 2}}}), 0, 8, 30},
        {"C11", kReverse | kNavigate | kEnds | kIters, 0, 1, 3, 3, 0, 0, join({mods, share, {{kNav, 14}, {kItTake, 4}, {kItStep, 10}, {kItCheck, 2}, {kCompare, 2}, {kDrain, 4}, {kPublish, 1}, {kPubTrans, 1}, {kLookup, 2}}}), 0, 40, 30},
        {"C12", kEnds, 0, 1, 3, 4, 0, 0, join({scale(ends, 5), scale(iters, 2), keys, idx, mass, share, {{kAlias, 10}, {kClear, 2}, {kPubTrans, 1}, {kPublish, 1}}}), 0, 0, 30},
        {"C13", kStable, 0, 1, 3, 3, 0, 0, join({mods, scale(conv, 4), {{kSelfT, 3}, {kSelfP, 3}, {kCopyT, 6}, {kAsgT, 6}, {kSwapT, 4}, {kSend, 2}, {kRecv, 2}, {kPubCopy, 2}, {kPubTrans, 2}}}), 40, 0, 0},
        {"C14", kAllocBound, 0, 1, 3, 2, 0, 0, join({mods, px, conv, comm, look, {{kSweep, 5}, {kCost, 6}, {kItTake, 2}, {kItAssign, 4}, {kItUpdate, 3}}})},
        {"C15", 0, 1, 1, 4, 8, 0, 0, {}},
        {"C19", kStepBound, 0, 1, 3, 4, 0, 0, join({scale(mods, 1), conv, comm, {{kEffort, 60}}})},
        {"C16", kIters | kStable, 0, 1, 3, 5, 4, 1, join({mods, bad, conv, comm, px, held, heldpx, look})},
        {"C17", kProxies, 0, 1, 3, 4, 0, 0, join({scale(px, 6), scale(heldpx, 5), ends, iters, keys, idx, share, {{kCopyT, 2}, {kAsgT, 2}, {kBulk, 2}, {kDrain, 1}, {kXProxyMismatch, 2}, {kSort, 1}}})},
    };
    return p;
}

// configurations in which an operation kind does something
static bool applicable(OpKind k, uint32_t f) {
    bool o = f & fOrdered, i = f & fIndexed, s = f & fSafety;
    switch (k) {
        case kInsertV: case kAssignV: case kInsertOrAssign: case kEraseKey: case kUpdateKey: return o;
        case kInsIdx: case kAsgIdx: case kEraIdx: case kUpdIdx: return i;
        case kPxKey: return o; case kPxIdx: return i; case kPxSwap: case kAlgo: return !o;
        case kSort: return !o && i && (f & fNumeric) && !(f & fPair);
        case kXMissAssign: case kXMissErase: case kXMissUpdate: case kXMissAt: case kXUpdMismatch: case kXProxyMismatch: return o && s;
        case kXEmptyMinMax: return s && (f & (fMin | fMax));
        case kXCompare: return s; case kXFill: return f & fShallow;
        default: return true;
    }
}

struct Plan { Params p; std::vector<Op> ops; std::vector<Switch> sw; };

static Plan make_plan(Profile const& pr, std::vector<size_t> const& cfgs, uint64_t seed, uint64_t index) {
    Rng r(seed * 0x9E3779B97F4A7C15ULL + index * 0xD1B54A32D192ED03ULL + 17);
    for (int i = 0; i < 3; ++i) r.next();
    Plan pl;
    Params& p = pl.p;
    p.config = static_cast<uint32_t>(cfgs[index % cfgs.size()]);
    uint32_t f = registry()[p.config].features;
    p.seed = r.next();
    p.clients = pr.min_clients + r.below(pr.max_clients - pr.min_clients + 1);
    p.strategy = r.below(kStrategies);
    static const uint32_t rates[] = {3, 10, 30, 100, 400, 2000};
    p.rate = rates[r.below(6)];
    if (p.strategy == kSync) p.rate = 1 + r.below(12);
    p.fill = r.below(4); p.layout = r.chance(1, 2) ? 1 + r.below(1000) : 0; p.reuse = r.chance(1, 2);
    p.race = pr.race;
    static const uint32_t spaces[] = {4, 16, 64, 400};
    p.keyspace = spaces[r.below(4)];
    static const uint32_t bulks[] = {0, 3, 8, 20, 40, 70, 110, 160};
    p.bulk = bulks[r.below(8)];
    p.audit = r.chance(1, 3) ? 1 + r.below(4) : 4 + r.below(20);
    p.differential = pr.differential == 2 ? (index / cfgs.size() % 2 ? 2 : 0) : pr.differential;
    uint32_t n = r.chance(1, 4) ? 4 + r.below(20) : r.chance(1, 2) ? 20 + r.below(60) : 60 + r.below(120);
    if (f & fInverted) n = 10 + r.below(70);
    if (pr.mask & kStepBound) n = 2 + r.below(10);
    bool tight = pr.race && !p.differential && !(f & fInverted) && r.chance(2, 3);
    if (tight) { n = 4 + r.below(32); p.bulk = bulks[r.below(4)]; p.audit = 20; p.clients = 2 + r.below(2); p.tight = 1 + r.below(3); }
    // swarm: every run disables some kinds and stresses others
    std::vector<std::pair<OpKind, uint32_t>> w; uint32_t total = 0;
    W weights = pr.w;
    if (p.differential == 2) { for (auto const& [k, v] : comm) weights[k] = 0; for (auto const& [k, v] : comm_ro) weights[k] = 4 * v; }
    if (f & fInverted) weights = W{{kPushBack, 16}, {kSnap, 4}, {kTrans, 4}, {kCopyT, 2}, {kCopyP, 2}, {kRead, 4}, {kDropT, 1}, {kDropP, 1}, {kNewT, 1}, {kPublish, 1}, {kAttach, 1}, {kDetach, 1}, {kPubRead, 2}, {kPubTrans, 2}, {kPubCopy, 2}, {kPubMod, 3}, {kBulk, 2}};
    if (tight) { weights = handover; for (auto const& [k, v] : pr.w) if (!weights.count(k) && r.chance(1, 5)) weights[k] = v; }
    for (auto const& [k, v] : weights) {
        if (!v || !applicable(k, f)) continue;
        static const uint32_t mult[] = {0, 1, 1, 2, 2, 3, 6, 12};
        uint32_t x = static_cast<uint32_t>(v) * mult[k == kEffort ? 2 + r.below(4) : r.below(8)];
        if (x) { w.push_back({k, x}); total += x; }
    }
    if (!total) { w.push_back({kPushBack, 1}); total = 1; }
    bool alloc_ok = (f & fAllocFaults) && (pr.alloc_pct >= 20 || r.chance(1, 2)), elem_ok = (f & fElemFaults) && (pr.elem_pct >= 20 || r.chance(1, 2));
    bool ladders = pr.alloc_pct >= 20;
    uint32_t focus = r.below(4);                      // some runs keep hitting the same place
    uint32_t fa = r.below(1u << 20), fb = r.below(1u << 20);
    for (uint32_t i = 0; i < n; ++i) {
        Op o;
        o.uid = i + 1;
        o.client = static_cast<uint8_t>(1 + r.below(p.clients));
        uint32_t x = r.below(total);
        for (auto const& [k, v] : w) { if (x < v) { o.kind = k; break; } x -= v; }
        o.a = static_cast<uint32_t>(r.next()); o.b = static_cast<uint32_t>(r.next()); o.c = static_cast<uint32_t>(r.next()); o.d = static_cast<uint32_t>(r.next());
        if (focus == 1 && r.chance(1, 2)) { o.a = fa; }
        if (focus == 2 && r.chance(1, 2)) { o.b = fb + r.below(3); o.a = fa; }
        if (r.chance(1, 3)) o.flags |= 2;
        if (r.chance(1, 2)) o.flags |= 1;
        if (r.chance(1, 3)) o.flags |= 8;
        if (alloc_ok && r.below(100) < pr.alloc_pct) {
            if (ladders && r.chance(1, 2)) o.flags |= 4; else o.fail_alloc = static_cast<uint16_t>(1 + r.below(r.chance(1, 2) ? 2 : 7));
        }
        if (elem_ok && r.below(100) < pr.elem_pct) o.fail_elem = static_cast<uint16_t>(1 + r.below(r.chance(1, 2) ? 2 : 14));
        pl.ops.push_back(o);
    }
    // rare operations that take long, and extreme numbers; drawn apart from everything above
    Rng q(p.seed ^ 0xE07A);
    p.wide = !(pr.mask & kStepBound) && q.chance(1, 4);
    // spread evenly: each configuration gets one within every `one_in` of its runs
    auto rare = [&](OpKind k, uint32_t one_in) {
        if (!one_in || (index / cfgs.size() + index % cfgs.size() * 11 + seed * 7 + k) % one_in) return;
        Op o;
        o.kind = k; o.uid = static_cast<uint32_t>(pl.ops.size()) + 1; o.client = static_cast<uint8_t>(1 + q.below(p.clients));
        o.a = static_cast<uint32_t>(q.next()); o.b = static_cast<uint32_t>(q.next()); o.c = static_cast<uint32_t>(q.next()); o.d = static_cast<uint32_t>(q.next());
        pl.ops.insert(pl.ops.begin() + q.below(static_cast<uint32_t>(pl.ops.size()) + 1), o);
    };
    if (!(f & fInverted) && p.differential != 2 && !pr.race) {
        rare(kHoard, pr.hoard);
        rare(kChurn, pr.churn);
        if (f & fHuge) rare(kLarge, pr.large);
    }
    return pl;
}

// -------------------------------------------------------------------------------------------------------- execution
static Report* g_report;           // of this worker

static void child_run(Plan const& pl, uint32_t mask) {
    oracle_mask = mask;
    rt_begin_run(pl.p, g_report, pl.sw.data(), static_cast<uint32_t>(pl.sw.size()));
    registry()[pl.p.config].run(pl.ops.data(), pl.ops.size());
    finish_run();
}
struct Outcome_ { bool violated = false; std::string cls, msg; uint64_t hash = 0, transcript = 0, signature = 0; uint32_t nsw = 0; bool truncated = false; };
static Outcome_ execute(Plan const& pl, uint32_t mask) {
    memset(g_report, 0, offsetof(Report, sw));
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); _exit(2); }
    if (!pid) { child_run(pl, mask); _exit(0); }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Outcome_ o;
    if (!g_report->done) {
        o.violated = true; o.cls = "crash";
        o.msg = WIFSIGNALED(st) ? "the run was killed by signal " + std::to_string(WTERMSIG(st)) : "the run ended unexpectedly with status " + std::to_string(WEXITSTATUS(st));
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { fprintf(stderr, "a run was killed from outside\n"); _exit(2); }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { fprintf(stderr, "the simulator could not start\n"); _exit(2); }
    } else {
        o.violated = g_report->violated; o.cls = g_report->cls; o.msg = g_report->msg;
    }
    o.hash = g_report->hash; o.transcript = g_report->transcript; o.signature = g_report->signature; o.nsw = g_report->nswitch;
    o.truncated = o.nsw > kMaxSwitches;
    return o;
}
static std::vector<Switch> recorded() { return std::vector<Switch>(g_report->sw, g_report->sw + std::min(g_report->nswitch, kMaxSwitches)); }

struct Totals {
    int64_t runs, nontrivial;
    int64_t ctr[kCounters];
    uint64_t opseen[4];
    int64_t per_config[32];
    int64_t strat[kStrategies];
    int64_t determinism_checked;
};
static void add(Totals& t, Plan const& pl) {
    t.runs++;
    for (int i = 0; i < kCounters; ++i) {
        if (i == kMaxDepth || i == kMaxSize) t.ctr[i] = std::max(t.ctr[i], g_report->ctr[i]); else t.ctr[i] += g_report->ctr[i];
    }
    for (int i = 0; i < 4; ++i) t.opseen[i] |= g_report->opseen[i];
    t.per_config[pl.p.config]++;
    t.strat[pl.p.strategy]++;
}
// the complete judgement of one plan: one run, or several that must agree
static Outcome_ judge(Plan const& pl, uint32_t mask, Totals* t, std::vector<Switch>* rec) {
    Outcome_ o = execute(pl, mask);
    if (rec) *rec = recorded();
    if (t) add(*t, pl);
    if (o.violated || !pl.p.differential) return o;
    if (pl.p.differential == 1) {
        static const uint32_t variants[3][3] = {{0, 0, 0}, {1, 7, 1}, {2, 0, 1}};
        for (int v = 0; v < 3; ++v) {
            Plan q = pl;
            q.p.fill = (pl.p.fill + 1 + static_cast<uint32_t>(v)) % 4; q.p.layout = variants[v][1] ? (pl.p.layout ? 0 : 13) : v == 2 ? (pl.p.layout % 3 == 1 ? 15 : 13) : pl.p.layout; q.p.reuse = v == 0 ? pl.p.reuse : !pl.p.reuse;
            Outcome_ x = execute(q, mask);
            if (t) { add(*t, q); t->ctr[kDifferential]++; }
            if (x.violated) { x.cls = "memory-" + x.cls; x.msg = "only with other memory contents or addresses: " + x.msg; return x; }
            if (x.transcript != o.transcript) { o.violated = true; o.cls = "memory-dependence"; o.msg = "results differ between runs that only differ in the contents of fresh memory, addresses or the reuse of freed memory"; return o; }
        }
    } else {
        Plan q = pl;
        q.sw.clear(); q.p.replay = 0; q.p.strategy = kOpBoundary; q.p.seed = pl.p.seed;
        Plan z = q;
        // serial: every client runs to completion before the next one starts
        z.p.replay = 1;
        Outcome_ x = execute(z, mask);
        if (t) { add(*t, z); t->ctr[kDifferential]++; }
        if (x.violated) { x.cls = "serial-" + x.cls; return x; }
        if (x.transcript != o.transcript) { o.violated = true; o.cls = "not-serial"; o.msg = "a client's results depend on how the other clients' operations interleave with its own"; return o; }
    }
    return o;
}

// ---------------------------------------------------------------------------------------------------- minimisation
static Plan minimise(Plan pl, uint32_t mask, std::string const& cls, double deadline, int& tried) {
    auto fails = [&](Plan const& q) { ++tried; Outcome_ o = judge(q, mask, nullptr, nullptr); return o.violated && o.cls == cls; };
    auto ddmin = [&](auto get, auto set) {
        size_t chunk = std::max<size_t>(1, get(pl).size() / 2);
        while (now() < deadline) {
            bool any = false;
            for (size_t i = 0; i < get(pl).size() && now() < deadline;) {
                auto v = get(pl);
                size_t e = std::min(v.size(), i + chunk);
                v.erase(v.begin() + static_cast<long>(i), v.begin() + static_cast<long>(e));
                Plan q = pl; set(q, v);
                if (fails(q)) { pl = q; any = true; } else i += chunk;
            }
            if (chunk == 1 && !any) break;
            if (chunk > 1) chunk = std::max<size_t>(1, chunk / 2);
        }
    };
    auto ops_get = [](Plan& q) -> std::vector<Op>& { return q.ops; };
    auto ops_set = [](Plan& q, std::vector<Op> const& v) { q.ops = v; };
    auto sw_get = [](Plan& q) -> std::vector<Switch>& { return q.sw; };
    auto sw_set = [](Plan& q, std::vector<Switch> const& v) { q.sw = v; };
    { Plan q = pl; q.sw.clear(); if (fails(q)) pl = q; }
    ddmin(ops_get, ops_set);
    ddmin(sw_get, sw_set);
    for (uint32_t b : {0u, 1u, 2u, 3u, 5u, 8u, 12u, 20u, 40u}) { if (b >= pl.p.bulk) break; Plan q = pl; q.p.bulk = b; if (fails(q)) { pl = q; break; } }
    for (size_t i = 0; i < pl.ops.size() && now() < deadline; ++i) {
        if (pl.ops[i].fail_alloc) { Plan q = pl; q.ops[i].fail_alloc = 0; if (fails(q)) pl = q; }
        if (pl.ops[i].fail_elem) { Plan q = pl; q.ops[i].fail_elem = 0; if (fails(q)) pl = q; }
        for (uint8_t bit : {1, 2, 4, 8}) if (pl.ops[i].flags & bit) { Plan q = pl; q.ops[i].flags = static_cast<uint8_t>(q.ops[i].flags & ~bit); if (fails(q)) pl = q; }
        for (uint32_t Op::* fld : {&Op::a, &Op::b, &Op::c, &Op::d}) {
            for (uint32_t v : {0u, pl.ops[i].*fld % 16, pl.ops[i].*fld % 1024}) {
                if (pl.ops[i].*fld == v) break;
                Plan q = pl; q.ops[i].*fld = v;
                if (fails(q)) { pl = q; break; }
            }
        }
    }
    for (int i = 0; i < 4 && now() < deadline; ++i) {
        Plan q = pl;
        if (i == 0) q.p.fill = 0; else if (i == 1) q.p.layout = 0; else if (i == 2) q.p.reuse = 0; else q.p.audit = 0;
        if (fails(q)) pl = q;
    }
    ddmin(ops_get, ops_set);
    if (!pl.sw.empty()) ddmin(sw_get, sw_set);
    return pl;
}

// ----------------------------------------------------------------------------------------------------------- files
#define SIM_PARAMS(X) X(clients) X(strategy) X(rate) X(fill) X(layout) X(reuse) X(race) X(keyspace) X(bulk) X(audit) X(differential) X(wide) X(tight) X(replay)
static bool write_plan(const char* path, const char* prop, Plan const& pl, Outcome_ const& o, uint32_t mask) {
    FILE* f = fopen(path, "w");
    if (!f) { perror(path); return false; }
    fprintf(f, "bpptree-sim-replay 1\nproperty %s\nconfig %s\nmask %u\nclass %s\nhash %016llx\nmessage %s\nseed %llu\n", prop, registry()[pl.p.config].name, mask, o.cls.c_str(),
            static_cast<unsigned long long>(o.hash), o.msg.c_str(), static_cast<unsigned long long>(pl.p.seed));
#define X(n) fprintf(f, "param " #n " %u\n", pl.p.n);
    SIM_PARAMS(X)
#undef X
    fprintf(f, "# op uid kind client flags a b c d fail_alloc fail_elem\n");
    for (auto const& x : pl.ops) fprintf(f, "op %u %s %u %u %u %u %u %u %u %u\n", x.uid, kOpName[x.kind], x.client, x.flags, x.a, x.b, x.c, x.d, x.fail_alloc, x.fail_elem);
    fprintf(f, "# switch operation event to-client\n");
    for (auto const& s : pl.sw) fprintf(f, "switch %u %u %u\n", s.uid, s.ev, s.to);
    return fclose(f) == 0;
}
static bool read_plan(const char* path, Plan& pl, std::string& prop, std::string& cls, uint64_t& hash, uint32_t& mask) {
    FILE* f = fopen(path, "r");
    if (!f) { perror(path); return false; }
    char line[2048]; bool config = false;
    while (fgets(line, sizeof line, f)) {
        char a[1024] = "", b[64] = ""; unsigned long long h; unsigned v;
        if (sscanf(line, "property %63s", b) == 1) prop = b;
        else if (sscanf(line, "config %63s", b) == 1) { for (size_t i = 0; i < registry().size(); ++i) if (!strcmp(registry()[i].name, b)) { pl.p.config = static_cast<uint32_t>(i); config = true; } }
        else if (sscanf(line, "mask %u", &v) == 1) mask = v;
        else if (sscanf(line, "class %63s", b) == 1) cls = b;
        else if (sscanf(line, "hash %llx", &h) == 1) hash = h;
        else if (sscanf(line, "seed %llu", &h) == 1) pl.p.seed = h;
        else if (sscanf(line, "param %63s %u", b, &v) == 2) {
#define X(n) if (!strcmp(b, #n)) pl.p.n = v;
            SIM_PARAMS(X)
#undef X
        } else if (!strncmp(line, "op ", 3)) {
            Op o; unsigned cl, fl, fa, fe;
            if (sscanf(line, "op %u %63s %u %u %u %u %u %u %u %u", &o.uid, a, &cl, &fl, &o.a, &o.b, &o.c, &o.d, &fa, &fe) != 10) { fclose(f); return false; }
            o.client = static_cast<uint8_t>(cl); o.flags = static_cast<uint8_t>(fl); o.fail_alloc = static_cast<uint16_t>(fa); o.fail_elem = static_cast<uint16_t>(fe);
            bool known = false;
            for (uint16_t k = 0; k < kOpKinds; ++k) if (!strcmp(kOpName[k], a)) { o.kind = k; known = true; }
            if (!known) { fclose(f); return false; }
            pl.ops.push_back(o);
        } else { Switch s; if (sscanf(line, "switch %u %u %u", &s.uid, &s.ev, &s.to) == 3) pl.sw.push_back(s); }
    }
    fclose(f);
    if (!config) fprintf(stderr, "%s: configuration not built into this simulator\n", path);
    return config;
}

// ------------------------------------------------------------------------------------------------------------ main
constexpr int kFound = 6;           // violating runs a worker may report
struct Common {
    int64_t best;                  // lowest index of a violating run
    int64_t found[64][kFound];     // violating runs per worker, -1: none
    int64_t diverged[64];          // runs that did not repeat exactly (a fault of the simulator, unless the code under test is broken)
    Totals tot[64];
    uint64_t nsig[64];
};

// repeats a violating run, minimises it and writes its replay file; false when it does not repeat exactly
static bool report_violation(Profile const& pr, std::string const& prop, std::vector<size_t> const& cfgs, uint64_t seed, int64_t index, std::string const& out, double until, std::string& path) {
    Plan pl = make_plan(pr, cfgs, seed, static_cast<uint64_t>(index));
    std::vector<Switch> rec;
    Outcome_ a = judge(pl, pr.mask, nullptr, &rec), b = judge(pl, pr.mask, nullptr, nullptr);
    if (!a.violated || !b.violated || a.cls != b.cls || a.hash != b.hash) { fprintf(stderr, "run %lld did not repeat: %s / %s\n", static_cast<long long>(index), a.cls.c_str(), b.cls.c_str()); return false; }
    printf("run %lld (seed %llu): %s: %s\n", static_cast<long long>(index), static_cast<unsigned long long>(seed), a.cls.c_str(), a.msg.c_str());
    // from the most to the least convenient form: minimised, recorded schedule, seeded schedule
    std::vector<Plan> forms;
    Plan q = pl;
    q.p.replay = 1; q.sw = rec;
    Outcome_ c = judge(q, pr.mask, nullptr, nullptr);
    if (c.violated && c.cls == a.cls) {
        int tried = 0;
        size_t n0 = q.ops.size(), s0 = q.sw.size();
        Plan small = minimise(q, pr.mask, a.cls, until, tried);
        printf("minimised from %zu operations and %zu context switches to %zu and %zu (%d runs)\n", n0, s0, small.ops.size(), small.sw.size(), tried);
        forms.push_back(small);
        forms.push_back(q);
    }
    forms.push_back(pl);
    for (auto const& f : forms) {
        Outcome_ d = judge(f, pr.mask, nullptr, nullptr), e = judge(f, pr.mask, nullptr, nullptr);
        if (!d.violated || !e.violated || d.cls != a.cls || e.cls != a.cls || d.hash != e.hash) { fprintf(stderr, "one form of run %lld does not repeat, trying the next\n", static_cast<long long>(index)); continue; }
        path = out + "/" + prop + "-" + d.cls + ".replay";
        if (!write_plan(path.c_str(), prop.c_str(), f, d, pr.mask)) return false;
        printf("%s: %s\n", d.cls.c_str(), d.msg.c_str());
        return true;
    }
    return false;
}

static int cmd_run(int argc, char** argv) {
    std::string prop = "C01", out = ".", configs;
    uint64_t seed = 1; int64_t runs = 1000; int workers = 8; double limit = 60, shrink = 60; int64_t first = 0;
    for (int i = 2; i + 1 < argc; i += 2) {
        std::string k = argv[i]; const char* v = argv[i + 1];
        if (k == "--prop") prop = v; else if (k == "--seed") seed = strtoull(v, nullptr, 10); else if (k == "--runs") runs = atoll(v); else if (k == "--first") first = atoll(v);
        else if (k == "--workers") workers = atoi(v); else if (k == "--limit") limit = atof(v); else if (k == "--out") out = v; else if (k == "--configs") configs = v; else if (k == "--shrink") shrink = atof(v);
        else { fprintf(stderr, "unknown option %s\n", k.c_str()); return 2; }
    }
    Profile const* pr = nullptr;
    for (auto const& p : profiles()) if (prop == p.prop) pr = &p;
    if (!pr) { fprintf(stderr, "unknown property\n"); return 2; }
    std::vector<size_t> cfgs;
    for (size_t i = 0; i < registry().size(); ++i) if (configs.empty() || ("," + configs + ",").find("," + std::string(registry()[i].name) + ",") != std::string::npos) cfgs.push_back(i);
    if (cfgs.empty() || registry().size() > 32) { fprintf(stderr, "no configuration\n"); return 2; }
    workers = std::min(workers, 64);
    rt_init();
    auto* cm = shared<Common>(1);
    cm->best = INT64_MAX;
    for (auto& w : cm->found) for (auto& x : w) x = -1;
    constexpr size_t kSigs = 1u << 18;
    auto* sigs = shared<uint64_t>(kSigs * static_cast<size_t>(workers));
    double t0 = now();
    for (int w = 0; w < workers; ++w) {
        if (fork()) continue;
        g_report = shared<Report>(1);
        Totals& t = cm->tot[w];
        std::unordered_set<uint64_t> seen;
        int nfound = 0;
        for (int64_t i = w; i < runs; i += workers) {
            // once some run has failed the workers go on for a while: more candidates for the report
            int64_t b = __atomic_load_n(&cm->best, __ATOMIC_RELAXED);
            if (b < i && i - b > 400) break;
            if (now() - t0 > limit) break;
            Plan pl = make_plan(*pr, cfgs, seed, static_cast<uint64_t>(first + i));
            Outcome_ o = judge(pl, pr->mask, &t, nullptr);
            if (g_report->ctr[kSwitches] > 2 || g_report->ctr[kOps] > 3) { if (seen.insert(o.hash).second && seen.size() <= kSigs) sigs[static_cast<size_t>(w) * kSigs + seen.size() - 1] = o.hash; t.nontrivial++; }
            if (o.violated) {
                cm->found[w][nfound++] = first + i;
                int64_t cur = __atomic_load_n(&cm->best, __ATOMIC_RELAXED);
                while (i < cur && !__atomic_compare_exchange_n(&cm->best, &cur, i, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {}
                if (nfound == kFound) break;
                continue;
            }
            if (i / workers % 64 == 3) {               // determinism: the same seed gives the same event log
                Outcome_ a = execute(pl, pr->mask), b = execute(pl, pr->mask);
                t.determinism_checked++;
                if (a.hash != b.hash || a.transcript != b.transcript || a.violated != b.violated) { cm->diverged[w]++; fprintf(stderr, "NONDETERMINISTIC run %lld\n", static_cast<long long>(first + i)); }
            }
        }
        cm->nsig[w] = std::min(seen.size(), kSigs);
        _exit(0);
    }
    int bad = 0;
    for (int st; wait(&st) > 0;) if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = WIFEXITED(st) ? WEXITSTATUS(st) : 5;
    double t1 = now();
    Totals sum{};
    std::unordered_set<uint64_t> all;
    for (int w = 0; w < workers; ++w) {
        Totals const& t = cm->tot[w];
        sum.runs += t.runs; sum.nontrivial += t.nontrivial; sum.determinism_checked += t.determinism_checked;
        for (int i = 0; i < kCounters; ++i) if (i == kMaxDepth || i == kMaxSize) sum.ctr[i] = std::max(sum.ctr[i], t.ctr[i]); else sum.ctr[i] += t.ctr[i];
        for (int i = 0; i < 4; ++i) sum.opseen[i] |= t.opseen[i];
        for (int i = 0; i < 16; ++i) sum.per_config[i] += t.per_config[i];
        for (uint32_t i = 0; i < kStrategies; ++i) sum.strat[i] += t.strat[i];
        for (uint64_t i = 0; i < cm->nsig[w]; ++i) all.insert(sigs[static_cast<size_t>(w) * kSigs + i]);
    }
    std::string stats = out + "/stats.json";
    FILE* f = fopen(stats.c_str(), "w");
    if (!f) { perror(stats.c_str()); return 2; }
    fprintf(f, "{\"property\": \"%s\", \"seed\": %llu, \"planned\": %lld, \"runs\": %lld, \"distinct\": %zu, \"nontrivial\": %lld, \"wall\": %.3f, \"determinism_checked\": %lld,\n \"counters\": {", prop.c_str(), static_cast<unsigned long long>(seed),
            static_cast<long long>(runs), static_cast<long long>(sum.runs), all.size(), static_cast<long long>(sum.nontrivial), t1 - t0, static_cast<long long>(sum.determinism_checked));
    bool comma = false;
    for (int i = 0; i < kCounters; ++i) if (*kCounterName[i]) { fprintf(f, "%s\"%s\": %lld", comma ? ", " : "", kCounterName[i], static_cast<long long>(sum.ctr[i])); comma = true; }
    fprintf(f, "},\n \"runs_per_configuration\": {");
    for (size_t i = 0; i < cfgs.size(); ++i) fprintf(f, "%s\"%s: %s\": %lld", i ? ", " : "", registry()[cfgs[i]].name, registry()[cfgs[i]].what, static_cast<long long>(sum.per_config[cfgs[i]]));
    fprintf(f, "},\n \"scheduler_strategies\": {\"operation_boundaries\": %lld, \"random\": %lld, \"at_synchronisation\": %lld, \"priority_change_points\": %lld},\n \"operation_kinds\": [", static_cast<long long>(sum.strat[0]), static_cast<long long>(sum.strat[1]), static_cast<long long>(sum.strat[2]), static_cast<long long>(sum.strat[3]));
    comma = false;
    for (int k = 0; k < kOpKinds; ++k) if (sum.opseen[k >> 6] >> (k & 63) & 1) { fprintf(f, "%s\"%s\"", comma ? ", " : "", kOpName[k]); comma = true; }
    fprintf(f, "],\n \"samples\": [");
    for (int i = 0; i < 2; ++i) {
        Plan pl = make_plan(*pr, cfgs, seed, static_cast<uint64_t>(first) + static_cast<uint64_t>(i) * 7 + 1);
        fprintf(f, "%s{\"run\": %lld, \"configuration\": \"%s\", \"clients\": %u, \"strategy\": %u, \"initial_elements\": %u, \"operations\": [", i ? ", " : "", static_cast<long long>(first) + i * 7 + 1, registry()[pl.p.config].name, pl.p.clients, pl.p.strategy, pl.p.bulk);
        for (size_t j = 0; j < pl.ops.size() && j < 12; ++j) fprintf(f, "%s\"client %u %s %u %u %u %u%s\"", j ? ", " : "", pl.ops[j].client, kOpName[pl.ops[j].kind], pl.ops[j].a, pl.ops[j].b, pl.ops[j].c, pl.ops[j].d, pl.ops[j].flags & 4 ? " alloc-failure at every allocation" : pl.ops[j].fail_alloc ? " alloc-failure" : pl.ops[j].fail_elem ? " element-failure" : "");
        fprintf(f, "]}");
    }
    fprintf(f, "]}\n");
    fclose(f);
    if (bad) { fprintf(stderr, "a worker failed (%d)\n", bad); return 2; }
    int64_t diverged = 0;
    for (int64_t x : cm->diverged) diverged += x;
    if (cm->best == INT64_MAX) { if (diverged) { fprintf(stderr, "%lld runs did not repeat exactly\n", static_cast<long long>(diverged)); return 2; } return 0; }
    // ------------------------------------------------------------------------------------------------- violation
    g_report = shared<Report>(1);
    std::vector<int64_t> cand;
    for (auto const& w : cm->found) for (int64_t x : w) if (x >= 0) cand.push_back(x);
    std::sort(cand.begin(), cand.end());
    if (cand.size() > 12) cand.resize(12);
    std::string path;
    double until = now() + shrink;
    for (int64_t index : cand) {
        if (report_violation(*pr, prop, cfgs, seed, index, out, std::max(until, now() + 5), path)) { printf("REPLAY %s\n", path.c_str()); return 1; }
        if (now() > until + 60) break;
    }
    fprintf(stderr, "no violating run repeats exactly\n");
    return 2;
}

static int cmd_replay(int argc, char** argv) {
    if (argc < 3) return 2;
    Plan pl; std::string prop, cls; uint64_t hash = 0; uint32_t mask = 0;
    if (!read_plan(argv[2], pl, prop, cls, hash, mask)) return 2;
    rt_init();
    g_report = shared<Report>(1);
    Outcome_ o = judge(pl, mask, nullptr, nullptr);
    if (!o.violated) { printf("no violation\n"); return 0; }
    printf("%s: %s\n", o.cls.c_str(), o.msg.c_str());
    bool exact = o.cls == cls && o.hash == hash;
    if (!exact) printf("recorded: %s with another event log\n", cls.c_str());
    return exact ? 1 : 3;
}

int main(int argc, char** argv) {
    // one address space layout for all processes, so that even the effects of wild pointers repeat
    int old = personality(0xffffffff);
    if (old != -1 && !(old & ADDR_NO_RANDOMIZE) && !getenv("SIMRUN_LAYOUT") && personality(static_cast<unsigned long>(old) | ADDR_NO_RANDOMIZE) != -1) {
        setenv("SIMRUN_LAYOUT", "1", 1);
        execv("/proc/self/exe", argv);
    }
    if (argc > 1 && !strcmp(argv[1], "run")) return cmd_run(argc, argv);
    if (argc > 1 && !strcmp(argv[1], "replay")) return cmd_replay(argc, argv);
    if (argc > 1 && !strcmp(argv[1], "list")) { for (auto const& c : registry()) printf("%s: %s\n", c.name, c.what); return 0; }
    fprintf(stderr, "usage: simrun run|replay|list ...\n");
    return 2;
}
