// Simulator runtime: the seams between the library under test and everything that is nondeterministic around it.
// The library is compiled with -fsanitize=thread but linked against rt.cpp instead of libtsan, so every memory access,
// atomic operation and fence of the real library code calls into this runtime; operator new/delete are replaced too.
#pragma once
#include <cstddef>
#include <cstdint>

extern "C" {
// 0: harness code, nothing is simulated
// 1: library code, memory checked, no scheduling, no faults (audits, construction of arguments)
// 2: library code under the scheduler: every event is a scheduling point and faults may fire
extern int sim_mode;
}

namespace sim {

constexpr int kMaxFibers = 6;      // 0 is the main client (setup and teardown), 1.. are the client threads

struct Rng {                       // splitmix64
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    uint32_t below(uint32_t n) { return n ? static_cast<uint32_t>((next() >> 32) * n >> 32) : 0; }
    bool chance(uint32_t num, uint32_t den) { return below(den) < num; }
};

struct Op {
    uint16_t kind = 0;
    uint8_t client = 0;
    uint8_t flags = 0;             // bit 0: repeat a failed operation without the fault
    uint32_t uid = 0;              // stable identity, survives minimisation
    uint32_t a = 0, b = 0, c = 0, d = 0;
    uint16_t fail_alloc = 0;       // k > 0: the k-th node allocation of this operation fails
    uint16_t fail_elem = 0;        // k > 0: the k-th construction of an element from values throws
};

struct Switch { uint32_t uid; uint32_t ev; uint32_t to; };   // at event ev of operation uid continue with client `to`

enum Strategy : uint32_t { kOpBoundary, kRandom, kSync, kPct, kStrategies };

struct Params {                    // everything besides ops and switches that a run depends on
    uint32_t config = 0;
    uint32_t clients = 1;
    uint64_t seed = 0;             // drives schedule decisions (unless replayed) and audit sampling
    uint32_t strategy = 0;
    uint32_t rate = 100;           // kRandom/kSync: one in `rate` events switches; kPct: events between change points
    uint32_t fill = 0;             // content of fresh memory: 0 zero, 1 0xff, 2 pseudo-random, 3 stale node images
    uint32_t layout = 0;           // seed of address spacing, 0: compact
    uint32_t reuse = 0;            // 1: freed memory is reused at once (LIFO)
    uint32_t race = 0;             // detect data races
    uint32_t keyspace = 64;        // workload shape
    uint32_t bulk = 40;
    uint32_t audit = 0;            // one in `audit` operations audits all trees of the client, 0: every one
    uint32_t prop = 0;
    uint32_t differential = 0;     // 1: same results whatever the memory; 2: same results whatever the schedule
    uint32_t wide = 0;             // 1: keys and values from the whole range of their types
    uint32_t tight = 0;            // every client starts with little more than one copy of a common tree
    uint32_t replay = 0;           // take switches from the plan instead of from the scheduler
};

enum Counter {
    kSteps, kEvents, kSwitches, kPreempt, kOps, kOpsFailed, kAllocs, kFrees, kAtomics,
    kFaultAlloc, kFaultElem, kFaultElemCopy, kFaultUpdater, kFaultMisuse, kFaultDrop, kFaultDup, kFaultDelay, kFaultCrash, kFaultDirty, kFaultLayout, kFaultReuse,
    kCowNodes, kRaceChecks, kAudits, kAuditElems, kRetries, kMaxDepth, kMaxSize, kShared, kInPlace, kCowOps, kSplits, kCollapses,
    kAliasArgs, kIterChecks, kProxyHeld, kMsgs, kDepthLimit, kDifferential, kFreeByOther, kUnused,
    kCounters
};
extern const char* const kCounterName[kCounters];

constexpr uint32_t kMaxSwitches = 1u << 16;

// Result area of one run, in memory shared with the coordinator
struct Report {
    int32_t violated;
    char cls[48];                  // violation class; stays the same under minimisation and replay
    char msg[800];
    uint64_t hash;                 // of the complete event log
    uint64_t transcript;           // of all operation results (independent of addresses)
    uint64_t signature;            // of the interleaving: order of synchronisation events between clients
    uint32_t nswitch;
    uint32_t done;
    uint32_t cur_uid;              // operation in progress (diagnosis of crashes)
    uint32_t cur_client;
    int64_t ctr[kCounters];
    uint64_t opseen[4];            // bit per operation kind executed
    Switch sw[kMaxSwitches];
};

extern Report* rep;
extern Params par;

[[noreturn]] void violation(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void finish_run();
void count(Counter c, int64_t n = 1);
void count_max(Counter c, int64_t v);
void transcript(uint64_t v);
extern int quiet_transcript;

void rt_init();                    // once per process, before forking runs
void rt_begin_run(const Params& p, Report* r, const Switch* sw, uint32_t nsw);

// fibers
void run_clients(int n, void (*body)(int client, void* arg), void* arg);   // clients 1..n, returns when all are done
int current_client();
void op_begin(const Op& op);       // also a scheduling point
void op_end();
bool fault_alloc_fired();          // during the current operation
bool fault_elem_fired();
void disarm_faults();
void elem_constructed_from_values();   // fault points: may throw ElemError
void elem_copied();
struct ElemError { int code; };

// happens-before edges made by the harness's own (correct) communication between clients
struct Clock { uint32_t c[kMaxFibers]; };
void hb_release(Clock& k);
void hb_acquire(Clock const& k);

// memory
void* tracked_alloc(size_t n);     // for tree objects: lives in the simulated heap but is not counted as node
void tracked_free(void* p);
int64_t op_allocs();               // library allocations since op_begin / reset_op_allocs
int64_t op_frees();
void reset_op_allocs();
int64_t op_steps();                // memory accesses the running client made inside library code during this operation
int64_t live_blocks();             // library allocations currently alive
int64_t live_bytes();
bool in_arena(const void* p);

struct Mode {                      // scoped sim_mode
    int old;
    explicit Mode(int m) : old(sim_mode) { sim_mode = m; }
    ~Mode() { sim_mode = old; }
    Mode(const Mode&) = delete;
};

} // namespace sim
