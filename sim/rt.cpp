// Not instrumented. See rt.h.
#include "ops.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <initializer_list>
#include <new>
#include <csignal>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <cxxabi.h>

extern "C" { int sim_mode = 0; }

namespace sim {

const char* const kCounterName[kCounters] = {
    "logical_steps", "scheduling_points", "context_switches", "preemptions_inside_operations", "operations", "operations_failed",
    "node_allocations", "frees", "atomic_operations",
    "alloc_failure", "element_construction_failure", "element_copy_failure", "updater_exception", "misuse_rejected", "message_drop", "message_dup",
    "message_delay", "client_crash", "dirty_memory", "address_layout", "memory_reuse",
    "cow_nodes", "race_checks", "audits", "audited_elements", "retries_after_fault", "max_depth_reached", "max_size_reached",
    "shared_object_uses", "in_place_modifications", "copying_modifications", "splits", "root_collapses", "aliasing_arguments",
    "held_iterator_checks", "held_proxy_uses", "messages", "depth_limit_hits", "differential_runs", "frees_of_nodes_allocated_by_another_client", ""};

Report* rep = nullptr;
Params par;
int quiet_transcript = 0;

// ---------------------------------------------------------------------------------------------------------- memory
constexpr uintptr_t kArena = 0x100000000000ULL;
constexpr size_t kArenaSize = 96u << 20;
constexpr uintptr_t kState = 0x110000000000ULL;    // one byte per arena byte: 0 no object, 1 live, 2 freed
constexpr uintptr_t kShadow = 0x120000000000ULL;   // race shadow, 8 cells of 8 bytes per 8 arena bytes
constexpr uintptr_t kGShadow = 0x140000000000ULL;  // race shadow of .data/.bss
constexpr uintptr_t kStacks = 0x150000000000ULL;
constexpr size_t kStackSize = 512u << 10;
constexpr size_t kRed = 32;

extern "C" char __data_start, _end;
static uintptr_t g_lo, g_hi;

struct Cell {                       // one remembered access
    uint32_t clk;                   // 0: empty
    uint8_t fiber, mask, write, atomic;
};
constexpr int kCells = 8;

struct Hdr { uint64_t magic; uint32_t size; uint32_t kind; uint32_t owner; uint32_t serial; };   // inside the red zone, 24 bytes
constexpr uint64_t kLive = 0x51ab1e0ddba11eafULL, kDead = 0xdeadbeefdeadbeefULL;

static uintptr_t bump, bump_down;              // the arena is used from both ends
static Rng layout_rng, fill_rng;
static uint32_t serial;
static int64_t g_live_blocks, g_live_bytes;
static uint8_t* stale_image; static uint32_t stale_len;
struct FreeList { void* head; };
static FreeList freelist[128];      // by (size+15)/16 when reuse is on

static inline bool in_arena_(uintptr_t a) { return a - kArena < kArenaSize; }
bool in_arena(const void* p) { return in_arena_(reinterpret_cast<uintptr_t>(p)); }
static inline uint8_t& state(uintptr_t a) { return *reinterpret_cast<uint8_t*>(kState + (a - kArena)); }

// ---------------------------------------------------------------------------------------------------------- fibers
struct VC { uint32_t c[kMaxFibers]; };
struct Fiber {
    void* sp;
    int id;
    bool done, started;
    VC vc, acq_pending, rel_fence;
    bool has_rel_fence;
    char eh[16];                    // __cxa_get_globals contents
    int mode;
    uint32_t uid, ev;               // operation and event number inside it
    uint16_t fail_alloc, fail_elem, n_alloc, n_elem;
    bool fired_alloc, fired_elem;
    int64_t op_allocs, op_frees;
    uint64_t op_steps;
    uint32_t prio;
    uint64_t transcript;            // results of this client's operations, in its own order
};
static Fiber fibers[kMaxFibers];
static Fiber* cur;
static int nclients;                // fibers 1..nclients run
static bool scheduling;             // clients are running
static void (*body_fn)(int, void*);
static void* body_arg;
static Rng sched_rng;
static int64_t countdown;
static uint32_t prio_low;
static const Switch* plan_sw; static uint32_t plan_nsw;
// replayed switches are found through a small open-addressing table (uid,ev) -> to
static uint64_t* sw_key; static uint32_t* sw_val; static uint32_t sw_mask;

extern "C" void sim_switch(void** save, void* load);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sim_switch,.-sim_switch
)");

static inline void mix(uint64_t v) { rep->hash = (rep->hash ^ v) * 0x9E3779B97F4A7C15ULL; rep->hash ^= rep->hash >> 29; }
void transcript(uint64_t v) {
    if (quiet_transcript) return;
    uint64_t& t = cur->transcript;
    t = (t ^ v) * 0x9E3779B97F4A7C15ULL; t ^= t >> 31;
}
void count(Counter c, int64_t n) { rep->ctr[c] += n; }
void count_max(Counter c, int64_t v) { if (rep->ctr[c] < v) rep->ctr[c] = v; }

void violation(const char* cls, const char* fmt, ...) {
    sim_mode = 0;
    if (!rep->violated) {
        rep->violated = 1;
        snprintf(rep->cls, sizeof rep->cls, "%s", cls);
        va_list ap; va_start(ap, fmt);
        vsnprintf(rep->msg, sizeof rep->msg, fmt, ap);
        va_end(ap);
    }
    finish_run();
}
void finish_run() {
    for (int i = 0; i < kMaxFibers; ++i) rep->transcript = (rep->transcript ^ fibers[i].transcript) * 0x9E3779B97F4A7C15ULL + static_cast<uint64_t>(i);
    rep->done = 1;
    _exit(0);
}

static void switch_to(Fiber* to) {
    if (to == cur) return;
    Fiber* from = cur;
    memcpy(from->eh, abi::__cxa_get_globals(), 16);
    from->mode = sim_mode;
    cur = to;
    rep->cur_uid = to->uid; rep->cur_client = static_cast<uint32_t>(to->id);
    memcpy(abi::__cxa_get_globals(), to->eh, 16);
    sim_mode = to->mode;
    count(kSwitches);
    sim_switch(&from->sp, to->sp);
}

static void record_switch(uint32_t uid, uint32_t ev, int to) {
    if (rep->nswitch < kMaxSwitches) rep->sw[rep->nswitch] = Switch{uid, ev, static_cast<uint32_t>(to)};
    rep->nswitch++;
    mix(0x5157ULL << 32 | static_cast<uint64_t>(uid) << 8 | static_cast<uint64_t>(to));
}
static int lookup(uint32_t uid, uint32_t ev) {
    if (!sw_mask) return 0;
    uint64_t k = (static_cast<uint64_t>(uid) << 32 | ev) + 1;
    uint64_t h = k * 0x9E3779B97F4A7C15ULL >> 32;
    for (;; ++h) {
        uint64_t s = sw_key[h & sw_mask];
        if (s == k) return static_cast<int>(sw_val[h & sw_mask]);
        if (!s) return 0;
    }
}
static int runnable_other(int exclude) {         // random runnable client other than `exclude`, 0 if none
    int n = 0, pick[kMaxFibers];
    for (int i = 1; i <= nclients; ++i) if (i != exclude && !fibers[i].done) pick[n++] = i;
    return n ? pick[sched_rng.below(static_cast<uint32_t>(n))] : 0;
}
static int highest_prio() {
    int best = 0;
    for (int i = 1; i <= nclients; ++i) if (!fibers[i].done && (!best || fibers[i].prio > fibers[best].prio)) best = i;
    return best;
}
static void rearm() {
    if (par.strategy == kOpBoundary) { countdown = INT64_MAX; return; }
    uint32_t r = par.rate ? par.rate : 1;
    countdown = 1 + sched_rng.below(2 * r);
}

// where: 0 inside an operation, 1 operation boundary, 2 client finished
static void schedule_point(int where, uint32_t uid, uint32_t ev) {
    int to = 0;
    if (par.replay) {
        to = lookup(uid, ev);
        if (to > nclients || (to && fibers[to].done)) to = 0;
        if (where == 2 && !to) for (int i = 1; i <= nclients; ++i) if (!fibers[i].done) { to = i; break; }
    } else if (where == 2) {
        to = par.strategy == kPct ? highest_prio() : runnable_other(cur->id);
    } else if (par.strategy == kPct) {
        if (where == 0) { cur->prio = --prio_low; rearm(); }
        else if (sched_rng.chance(1, 16)) cur->prio = --prio_low;
        to = highest_prio();
    } else if (where == 1) {
        to = sched_rng.chance(1, par.strategy == kOpBoundary ? 2 : 3) ? runnable_other(cur->id) : 0;
    } else {
        rearm();
        to = runnable_other(cur->id);
    }
    if (to && to != cur->id) {
        record_switch(uid, ev, to);
        if (where == 0) count(kPreempt);
        switch_to(&fibers[to]);
    }
}

// one simulated event of the running client; sync: atomic operation, allocation or free
static inline void event(bool sync) {
    Fiber* f = cur;
    ++f->ev;
    if (++f->op_steps > 40000000) violation("no-progress", "operation %u of client %d made no progress within 40000000 steps", f->uid, f->id);
    rep->ctr[kSteps]++;
    if (!scheduling) return;
    if (par.replay) {
        if (sw_mask) { int to = lookup(f->uid, f->ev); if (to) schedule_point(0, f->uid, f->ev); }
        return;
    }
    if (par.strategy == kSync && !sync) return;
    rep->ctr[kEvents]++;
    if (--countdown <= 0) schedule_point(0, f->uid, f->ev);
}

static void fiber_main();
static void start_stack(Fiber& f) {
    uintptr_t top = kStacks + (static_cast<uintptr_t>(f.id) + 1) * kStackSize - 64;
    auto* sp = reinterpret_cast<uintptr_t*>(top);
    *--sp = 0;                                          // keeps the stack aligned as after a call
    *--sp = reinterpret_cast<uintptr_t>(&fiber_main);
    for (int i = 0; i < 6; ++i) *--sp = 0;
    f.sp = sp;
}
static void fiber_main() {
    Fiber* f = cur;
    body_fn(f->id, body_arg);
    sim_mode = 0;
    f->done = true;
    schedule_point(2, 0xffffffu, static_cast<uint32_t>(f->id));
    // the last one returns to the main client
    switch_to(&fibers[0]);
    abort();
}

static inline void vc_join(VC& a, const VC& b) { for (int i = 0; i < kMaxFibers; ++i) if (a.c[i] < b.c[i]) a.c[i] = b.c[i]; }

void run_clients(int n, void (*body)(int, void*), void* arg) {
    nclients = n; body_fn = body; body_arg = arg;
    prio_low = 1000000;
    for (int i = 1; i <= n; ++i) {
        Fiber& f = fibers[i];
        f.id = i; f.done = false; f.mode = 0;
        memset(f.eh, 0, sizeof f.eh);
        vc_join(f.vc, fibers[0].vc);
        f.vc.c[i]++;
        f.prio = 2000000 + sched_rng.below(1000000);
        start_stack(f);
    }
    fibers[0].vc.c[0]++;
    scheduling = true;
    rearm();
    int first = 0;
    if (par.replay) { first = lookup(0xfffffeu, 0); if (first > n) first = 0; }
    else first = par.strategy == kPct ? highest_prio() : runnable_other(0);
    if (!first) first = 1;
    record_switch(0xfffffeu, 0, first);
    switch_to(&fibers[first]);
    scheduling = false;
    for (int i = 1; i <= n; ++i) vc_join(fibers[0].vc, fibers[i].vc);
    fibers[0].vc.c[0]++;
}
int current_client() { return cur->id; }

void op_begin(const Op& op) {
    Fiber* f = cur;
    f->uid = op.uid; f->ev = 0;
    rep->cur_uid = op.uid; rep->cur_client = static_cast<uint32_t>(f->id);
    f->fail_alloc = op.fail_alloc; f->fail_elem = op.fail_elem;
    f->n_alloc = f->n_elem = 0; f->fired_alloc = f->fired_elem = false;
    f->op_allocs = f->op_frees = 0; f->op_steps = 0;
    mix(0x0BULL << 56 | static_cast<uint64_t>(op.uid) << 16 | op.kind);
    count(kOps);
    rep->opseen[(op.kind >> 6) & 3] |= 1ULL << (op.kind & 63);
    if (scheduling) schedule_point(1, op.uid, 0);
}
void op_end() { Fiber* f = cur; f->fail_alloc = f->fail_elem = 0; }
bool fault_alloc_fired() { return cur->fired_alloc; }
bool fault_elem_fired() { return cur->fired_elem; }
void disarm_faults() { cur->fail_alloc = cur->fail_elem = 0; }
static void elem_fault(Counter c) {
    if (sim_mode != 2) return;
    Fiber* f = cur;
    ++f->n_elem;
    if (f->fail_elem && f->n_elem == f->fail_elem) { f->fired_elem = true; count(c); throw ElemError{1}; }
}
void elem_constructed_from_values() { elem_fault(kFaultElem); }
void elem_copied() { elem_fault(kFaultElemCopy); }

void arm_alloc(uint32_t k) { Fiber* f = cur; f->fail_alloc = static_cast<uint16_t>(k); f->n_alloc = 0; f->fired_alloc = false; }
void arm_elem(uint32_t k) { Fiber* f = cur; f->fail_elem = static_cast<uint16_t>(k); f->n_elem = 0; f->fired_elem = false; }

// element life cycle
static int64_t g_elems;
void elem_born() { ++g_elems; }
void elem_died() { --g_elems; }
void elem_reset() { g_elems = 0; }
int64_t elems_alive() { return g_elems; }
void elem_misuse(const char* what) { sim_mode = 0; violation("element-lifetime", "%s (operation %u of client %d)", what, cur->uid, cur->id); }

const char* const kOpName[] = {
#define X(n) #n,
    SIM_OPS(X)
#undef X
};
uint32_t oracle_mask = 0;

// ------------------------------------------------------------------------------------------- happens-before, races
void hb_release(Clock& k) { for (int i = 0; i < kMaxFibers; ++i) if (k.c[i] < cur->vc.c[i]) k.c[i] = cur->vc.c[i]; cur->vc.c[cur->id]++; }
void hb_acquire(Clock const& k) { for (int i = 0; i < kMaxFibers; ++i) if (cur->vc.c[i] < k.c[i]) cur->vc.c[i] = k.c[i]; }

// release clocks of atomic locations: hash table keyed by address
struct SyncVar { uintptr_t addr; VC vc; };
constexpr uint32_t kSync_ = 1u << 20;
static SyncVar* syncs;
static SyncVar* sync_find(uintptr_t a, bool add) {
    for (uintptr_t h = a >> 2;; ++h) {                 // neighbours stay neighbours
        SyncVar& s = syncs[h & (kSync_ - 1)];
        if (s.addr == a) return &s;
        if (!s.addr) { if (!add) return nullptr; s.addr = a; return &s; }
    }
}
static SyncVar& sync_of(uintptr_t a) { return *sync_find(a, true); }
static void sync_forget(uintptr_t a, size_t n) {       // memory was freed: its locations start afresh
    if (!par.reuse) return;                            // addresses never come back
    for (uintptr_t x = a; x < a + n; ++x) if (SyncVar* s = sync_find(x, false)) s->vc = VC{};
}

static const char* acc(const Cell& c) { return c.atomic ? (c.write ? "atomic write" : "atomic read") : (c.write ? "write" : "read"); }

static inline void race_granule(uintptr_t shadow_base, uintptr_t off, uint8_t mask, bool write, bool atomic, uintptr_t addr, bool is_free) {
    Cell* cells = reinterpret_cast<Cell*>(shadow_base + (off >> 3) * (kCells * sizeof(Cell)));
    int self = cur->id;
    int victim = -1;
    for (int i = 0; i < kCells; ++i) {
        Cell& c = cells[i];
        if (!c.clk) { if (victim < 0) victim = i; continue; }
        bool hb = c.fiber == self || c.clk <= cur->vc.c[c.fiber];
        if ((c.mask & mask) && (write || c.write) && !(atomic && c.atomic) && !hb) {
            uintptr_t base = 0; uint32_t size = 0, ser = 0;
            if (in_arena_(addr)) {
                uintptr_t a = addr;                     // find the block for the report
                while (a > kArena && state(a)) --a;
                auto* h = reinterpret_cast<Hdr*>(a + 1 - kRed);
                base = a + 1; size = h->size; ser = h->serial;
            }
            if (!base) { violation("race", "data race on global %p: %s by client %d, %s by client %d (operation %u)", reinterpret_cast<void*>(addr), is_free ? "free" : write ? "write" : "read", self, acc(c), c.fiber, cur->uid); }
            violation("race", "data race: %s by client %d conflicts with unsynchronised %s by client %d (operation %u; byte %d of block #%u, size %u)",
                      is_free ? "free" : write ? (atomic ? "atomic write" : "write") : (atomic ? "atomic read" : "read"), self, acc(c), c.fiber,
                      cur->uid, base ? static_cast<int>(addr - base) : -1, ser, size);
        }
        // a cell this access makes redundant: same strength or weaker, same bytes, ordered before
        if (hb && (c.mask & ~mask) == 0 && (write || !c.write) && (!atomic || c.atomic)) { if (victim < 0 || cells[victim].clk) victim = i; }
    }
    if (victim < 0) {                                   // all cells are needed: drop one that is ordered before us, else the oldest by position
        for (int i = 0; i < kCells && victim < 0; ++i) if (cells[i].clk <= cur->vc.c[cells[i].fiber]) victim = i;
        if (victim < 0) victim = static_cast<int>((off >> 3) % kCells);
    }
    cells[victim] = Cell{cur->vc.c[self], static_cast<uint8_t>(self), mask, write, atomic};
}
static void race_access(uintptr_t a, size_t n, bool write, bool atomic, bool is_free = false) {
    uintptr_t base, off;
    if (in_arena_(a)) { base = kShadow; off = a - kArena; }
    else if (a - g_lo < g_hi - g_lo) { base = kGShadow; off = a - (g_lo & ~7ULL); }
    else return;
    rep->ctr[kRaceChecks]++;
    while (n) {
        size_t lo = off & 7, m = 8 - lo < n ? 8 - lo : n;
        race_granule(base, off, static_cast<uint8_t>(((1u << m) - 1) << lo), write, atomic, a, is_free);
        off += m; a += m; n -= m;
    }
}
static void race_reset(uintptr_t a, size_t n) {
    uintptr_t lo = (a - kArena) & ~7ULL, hi = (a - kArena + n + 7) & ~7ULL;
    memset(reinterpret_cast<void*>(kShadow + lo * kCells), 0, (hi - lo) * kCells);
}

[[gnu::noinline]] static void bad_access(uintptr_t a, size_t n, bool write) {
    uint8_t s = state(a), e = state(a + n - 1);
    bool freed = s == 2 || e == 2;
    violation(freed ? "use-after-free" : "out-of-bounds", "%s of %zu bytes %s (operation %u of client %d)", write ? "write" : "read", n,
              freed ? "in freed memory" : "outside any live object", cur->uid, cur->id);
}

static inline void on_access(uintptr_t a, size_t n, bool write, bool atomic) {
    if (in_arena_(a)) {
        if (state(a) != 1 || state(a + n - 1) != 1) bad_access(a, n, write);
        if (sim_mode == 2) {
            mix((a - kArena) << 8 | static_cast<uint64_t>(n) << 2 | static_cast<uint64_t>(write) << 1 | atomic);
            event(atomic);
            // the other clients may have freed the object while this one was preempted right before the access
            if (state(a) != 1 || state(a + n - 1) != 1) bad_access(a, n, write);
        }
        if (par.race) race_access(a, n, write, atomic);
    } else if (sim_mode == 2) {
        if (a - g_lo < g_hi - g_lo) {
            if (a == reinterpret_cast<uintptr_t>(&sim_mode)) return;     // the harness's own scope guard
            event(atomic);
            if (par.race) race_access(a, n, write, atomic);
        } else if (++cur->op_steps > 40000000) {
            violation("no-progress", "operation %u of client %d made no progress within 40000000 steps", cur->uid, cur->id);
        }
    }
}
static void on_range(const void* p, size_t n, bool write) {
    if (!sim_mode || !n) return;
    if (sim_mode == 2) cur->op_steps += n / 16;
    on_access(reinterpret_cast<uintptr_t>(p), n, write, false);
}

// ---------------------------------------------------------------------------------------------------- allocation
static void fill_block(uint8_t* p, size_t n, uint32_t ser) {
    switch (par.fill) {
        case 0: memset(p, 0, n); break;
        case 1: memset(p, 0xff, n); break;
        case 2: for (size_t i = 0; i < n; ++i) p[i] = static_cast<uint8_t>(fill_rng.next() >> 32); break;
        default:
            for (size_t i = 0; i < n; ++i) p[i] = stale_len ? stale_image[(i + (ser % 3 == 2 ? 8 : 0)) % stale_len] : 0xA5;
            break;
    }
}
static void* arena_alloc(size_t n, uint32_t kind, size_t align = 16) {
    if (!n) n = 1;
    uint32_t cls = static_cast<uint32_t>((n + 15) / 16);
    uintptr_t u = 0;
    if (par.reuse && cls < 128 && freelist[cls].head && reinterpret_cast<uintptr_t>(freelist[cls].head) % align == 0) {
        u = reinterpret_cast<uintptr_t>(freelist[cls].head);
        memcpy(&freelist[cls].head, reinterpret_cast<void*>(u), 8);
        count(kFaultReuse);
        if (par.race) race_reset(u, n);
    } else {
        uintptr_t pad = par.layout ? 16 * layout_rng.below(24) : 0;
        // later blocks at higher addresses, at lower addresses, or either
        if (par.layout % 3 == 1 || (par.layout % 3 == 2 && layout_rng.chance(1, 2))) {
            u = (bump_down - pad - n - 16) & ~static_cast<uintptr_t>(align < 16 ? 15 : align - 1);
            bump_down = (u - kRed) & ~static_cast<uintptr_t>(15);
        } else {
            u = (bump + pad + kRed + align - 1) & ~static_cast<uintptr_t>(align - 1);
            bump = (u + n + 16 + 15) & ~static_cast<uintptr_t>(15);
        }
        if (bump + (1 << 16) > bump_down) finish_run();  // budget of a run, never a verdict
        if (par.fill) fill_block(reinterpret_cast<uint8_t*>(u), n, serial);
        if (par.fill) count(kFaultDirty);
        if (par.layout) count(kFaultLayout);
    }
    auto* h = reinterpret_cast<Hdr*>(u - kRed);
    *h = Hdr{kLive, static_cast<uint32_t>(n), kind, static_cast<uint32_t>(cur->id), serial++};
    memset(reinterpret_cast<void*>(kState + (u - kArena)), 1, n);
    if (kind == 0) {
        ++g_live_blocks; g_live_bytes += static_cast<int64_t>(n);
        cur->op_allocs++;
        count(kAllocs);
    }
    if (par.race) race_access(u, n, true, false);
    return reinterpret_cast<void*>(u);
}
static void arena_free(void* p, size_t size, bool sized) {
    auto u = reinterpret_cast<uintptr_t>(p);
    auto* h = reinterpret_cast<Hdr*>(u - kRed);
    if (h->magic == kDead) violation("double-free", "block #%u freed twice (operation %u of client %d)", h->serial, cur->uid, cur->id);
    if (h->magic != kLive) violation("bad-free", "freeing an address that was never allocated (operation %u of client %d)", cur->uid, cur->id);
    if (sized && size != h->size) violation("bad-free", "block of %u bytes freed as %zu bytes", h->size, size);
    if (sim_mode == 2) { mix((u - kArena) << 8 | 0xF7); event(true); if (h->magic != kLive) violation("double-free", "block #%u freed twice", h->serial); }
    uint32_t n = h->size;
    if (par.race) race_access(u, n, true, false, true);
    h->magic = kDead;
    memset(reinterpret_cast<void*>(kState + (u - kArena)), 2, n);
    if (par.fill == 3 && h->kind == 0 && n <= 1024) { memcpy(stale_image, p, n); stale_len = n; }
    sync_forget(u, n);
    if (h->kind == 0) {
        --g_live_blocks; g_live_bytes -= n;
        cur->op_frees++;
        count(kFrees);
        if (h->owner != static_cast<uint32_t>(cur->id) && h->owner) count(kFreeByOther);
    }
    uint32_t cls = (n + 15) / 16;
    if (par.reuse && cls < 128) {       // content stays: the next owner sees the stale bytes
        memcpy(p, &freelist[cls].head, n < 8 ? n : 8);
        if (n >= 8) freelist[cls].head = p;
    } else {
        memset(p, 0xDD, n);
    }
}
void* tracked_alloc(size_t n) { return arena_alloc(n, 1); }
void tracked_free(void* p) { arena_free(p, 0, false); }
int64_t op_allocs() { return cur->op_allocs; }
int64_t op_frees() { return cur->op_frees; }
int64_t op_steps() { return static_cast<int64_t>(cur->op_steps); }
void reset_op_allocs() { cur->op_allocs = cur->op_frees = 0; }
int64_t live_blocks() { return g_live_blocks; }
int64_t live_bytes() { return g_live_bytes; }

static void* lib_new(size_t n, size_t align = 16) {
    Fiber* f = cur;
    if (sim_mode == 2) {
        mix(0xA110C00ULL << 16 | n);
        event(true);
        f->n_alloc++;
        if (f->fail_alloc && f->n_alloc == f->fail_alloc) { f->fired_alloc = true; count(kFaultAlloc); return nullptr; }
    }
    return arena_alloc(n, 0, align);
}

// ----------------------------------------------------------------------------------------------------- life cycle
static void on_signal(int sig, siginfo_t* si, void*) {
    sim_mode = 0;
    const char* cls = sig == SIGVTALRM ? "hang" : sig == SIGABRT ? "abort" : "crash";
    if (rep && !rep->violated) {
        rep->violated = 1;
        snprintf(rep->cls, sizeof rep->cls, "%s", cls);
        bool stack = si && sig == SIGSEGV && reinterpret_cast<uintptr_t>(si->si_addr) - kStacks < 16 * kStackSize;
        snprintf(rep->msg, sizeof rep->msg, "%s in operation %u of client %u", sig == SIGVTALRM ? "no progress (CPU time limit of a run)" : sig == SIGABRT ? "abort" :
                 stack ? "stack overflow" : sig == SIGSEGV ? "segmentation fault" : sig == SIGFPE ? "arithmetic trap" : "fatal signal", rep->cur_uid, rep->cur_client);
    }
    if (rep) rep->done = 1;
    _exit(0);
}
static void on_terminate() {
    sim_mode = 0;
    if (std::current_exception()) violation("terminate", "std::terminate: an exception could not propagate (operation %u of client %u)", rep->cur_uid, rep->cur_client);
    violation("terminate", "std::terminate (operation %u of client %u)", rep->cur_uid, rep->cur_client);
}

static void map_at(uintptr_t a, size_t n) {
    void* p = mmap(reinterpret_cast<void*>(a), n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != reinterpret_cast<void*>(a)) { perror("mmap"); _exit(3); }
}
void rt_init() {
    map_at(kArena, kArenaSize);
    map_at(kState, kArenaSize);
    map_at(kShadow, kArenaSize * kCells);
    g_lo = reinterpret_cast<uintptr_t>(&__data_start); g_hi = reinterpret_cast<uintptr_t>(&_end);
    map_at(kGShadow, ((g_hi - g_lo + 16) & ~7ULL) * kCells);
    map_at(kStacks, kStackSize * kMaxFibers);
    for (int i = 0; i < kMaxFibers; ++i) mprotect(reinterpret_cast<void*>(kStacks + static_cast<uintptr_t>(i) * kStackSize), 4096, PROT_NONE);
    void* m = mmap(nullptr, sizeof(SyncVar) * kSync_, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    syncs = static_cast<SyncVar*>(m);
    stale_image = static_cast<uint8_t*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    cur = &fibers[0];
    std::set_terminate(on_terminate);
}
// Called in a process forked for this run: memory is as rt_init left it.
void rt_begin_run(const Params& p, Report* r, const Switch* sw, uint32_t nsw) {
    par = p; rep = r;
    bump = kArena + 4096; bump_down = kArena + kArenaSize - 4096;
    layout_rng = Rng(p.layout * 77ULL + 5); fill_rng = Rng(p.seed ^ 0xF111);
    sched_rng = Rng(p.seed * 0x2545F4914F6CDD1DULL + 99);
    rep->hash = 1469598103934665603ULL; rep->transcript = 7;
    cur = &fibers[0]; cur->id = 0; cur->vc.c[0] = 1;
    plan_sw = sw; plan_nsw = nsw;
    if (p.replay && nsw) {
        uint32_t cap = 16; while (cap < nsw * 2) cap *= 2;
        sw_key = static_cast<uint64_t*>(calloc(cap, 8)); sw_val = static_cast<uint32_t*>(calloc(cap, 4)); sw_mask = cap - 1;
        for (uint32_t i = 0; i < nsw; ++i) {
            uint64_t k = (static_cast<uint64_t>(sw[i].uid) << 32 | sw[i].ev) + 1, h = k * 0x9E3779B97F4A7C15ULL >> 32;
            while (sw_key[h & sw_mask] && sw_key[h & sw_mask] != k) ++h;
            sw_key[h & sw_mask] = k; sw_val[h & sw_mask] = sw[i].to;
        }
    }
    static char altstack[1 << 16];
    stack_t ss{}; ss.ss_sp = altstack; ss.ss_size = sizeof altstack; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_sigaction = on_signal; sa.sa_flags = SA_ONSTACK | SA_SIGINFO;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM}) sigaction(s, &sa, nullptr);
    itimerval tv{}; tv.it_value.tv_sec = 12; setitimer(ITIMER_VIRTUAL, &tv, nullptr);
}

// ------------------------------------------------------------------------------------------------------- atomics
enum { relaxed, consume, acquire, release, acq_rel, seq_cst };
static void atomic_event(uintptr_t a, size_t n, int mo, bool rd, bool wr) {
    if (!sim_mode) return;
    on_access(a, n, wr, true);
    rep->ctr[kAtomics]++;
    if (sim_mode == 2) { rep->signature = (rep->signature ^ ((a - kArena) << 4 | static_cast<uint64_t>(cur->id))) * 0x100000001B3ULL; rep->signature ^= rep->signature >> 33; }
    if (!par.race) return;
    SyncVar& s = sync_of(a);
    bool acq = mo == acquire || mo == consume || mo == acq_rel || mo == seq_cst, rel = mo == release || mo == acq_rel || mo == seq_cst;
    Fiber* f = cur;
    if (rd) vc_join(acq ? f->vc : f->acq_pending, s.vc);
    if (wr) {
        if (!rd) memset(&s.vc, 0, sizeof s.vc);         // a plain store ends the release sequence, a read-modify-write continues it
        if (rel) { vc_join(s.vc, f->vc); f->vc.c[f->id]++; }
        else if (f->has_rel_fence) vc_join(s.vc, f->rel_fence);
    }
}
static void fence_event(int mo) {
    if (!sim_mode) return;
    if (sim_mode == 2) event(true);
    Fiber* f = cur;
    if (mo == acquire || mo == consume || mo == acq_rel || mo == seq_cst) vc_join(f->vc, f->acq_pending);
    if (mo == release || mo == acq_rel || mo == seq_cst) { f->rel_fence = f->vc; f->has_rel_fence = true; f->vc.c[f->id]++; }
}
} // namespace sim

using namespace sim;

void* operator new(size_t n) {
    void* p = sim_mode ? lib_new(n) : malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim_mode ? lib_new(n) : malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
static void del(void* p, size_t n, bool sized) noexcept {
    if (!p) return;
    if (in_arena(p)) arena_free(p, n, sized); else free(p);
}
void operator delete(void* p) noexcept { del(p, 0, false); }
void operator delete[](void* p) noexcept { del(p, 0, false); }
void operator delete(void* p, size_t n) noexcept { del(p, n, true); }
void operator delete[](void* p, size_t n) noexcept { del(p, n, true); }
void operator delete(void* p, const std::nothrow_t&) noexcept { del(p, 0, false); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { del(p, 0, false); }
void* operator new(size_t n, std::align_val_t al) {
    auto a = static_cast<size_t>(al);
    void* p = sim_mode ? lib_new(n, a < 16 ? 16 : a) : aligned_alloc(a, (n + a - 1) / a * a);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new[](size_t n, std::align_val_t al) { return operator new(n, al); }
void operator delete(void* p, std::align_val_t) noexcept { del(p, 0, false); }
void operator delete[](void* p, std::align_val_t) noexcept { del(p, 0, false); }
void operator delete(void* p, size_t n, std::align_val_t) noexcept { del(p, n, true); }
void operator delete[](void* p, size_t n, std::align_val_t) noexcept { del(p, n, true); }

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N) \
    void __tsan_read##N(void* p) { if (sim_mode) on_access(reinterpret_cast<uintptr_t>(p), N, false, false); } \
    void __tsan_write##N(void* p) { if (sim_mode) on_access(reinterpret_cast<uintptr_t>(p), N, true, false); } \
    void __tsan_unaligned_read##N(void* p) { if (sim_mode) on_access(reinterpret_cast<uintptr_t>(p), N, false, false); } \
    void __tsan_unaligned_write##N(void* p) { if (sim_mode) on_access(reinterpret_cast<uintptr_t>(p), N, true, false); } \
    void __tsan_read_write##N(void* p) { if (sim_mode) on_access(reinterpret_cast<uintptr_t>(p), N, true, false); } \
    void __tsan_unaligned_read_write##N(void* p) { if (sim_mode) on_access(reinterpret_cast<uintptr_t>(p), N, true, false); } \
    void __tsan_volatile_read##N(void* p) { if (sim_mode) on_access(reinterpret_cast<uintptr_t>(p), N, false, false); } \
    void __tsan_volatile_write##N(void* p) { if (sim_mode) on_access(reinterpret_cast<uintptr_t>(p), N, true, false); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { on_range(p, n, false); }
void __tsan_write_range(void* p, size_t n) { on_range(p, n, true); }
void __tsan_vptr_update(void* p, void*) { on_range(p, 8, true); }
void __tsan_vptr_read(void* p) { on_range(p, 8, false); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { on_range(s, n, false); on_range(d, n, true); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { on_range(s, n, false); on_range(d, n, true); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { on_range(d, n, true); return memset(d, c, n); }

#define AT(B, T) \
    T __tsan_atomic##B##_load(const volatile T* p, int mo) { atomic_event(reinterpret_cast<uintptr_t>(p), sizeof(T), mo, true, false); return *p; } \
    void __tsan_atomic##B##_store(volatile T* p, T v, int mo) { atomic_event(reinterpret_cast<uintptr_t>(p), sizeof(T), mo, false, true); *p = v; } \
    T __tsan_atomic##B##_exchange(volatile T* p, T v, int mo) { atomic_event(reinterpret_cast<uintptr_t>(p), sizeof(T), mo, true, true); T o = *p; *p = v; return o; } \
    T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int mo) { atomic_event(reinterpret_cast<uintptr_t>(p), sizeof(T), mo, true, true); T o = *p; *p = static_cast<T>(o + v); return o; } \
    T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int mo) { atomic_event(reinterpret_cast<uintptr_t>(p), sizeof(T), mo, true, true); T o = *p; *p = static_cast<T>(o - v); return o; } \
    T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int mo) { atomic_event(reinterpret_cast<uintptr_t>(p), sizeof(T), mo, true, true); T o = *p; *p = static_cast<T>(o & v); return o; } \
    T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int mo) { atomic_event(reinterpret_cast<uintptr_t>(p), sizeof(T), mo, true, true); T o = *p; *p = static_cast<T>(o | v); return o; } \
    T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int mo) { atomic_event(reinterpret_cast<uintptr_t>(p), sizeof(T), mo, true, true); T o = *p; *p = static_cast<T>(o ^ v); return o; } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo) { \
        bool eq = *p == *e; atomic_event(reinterpret_cast<uintptr_t>(p), sizeof(T), eq ? mo : fmo, true, eq); \
        if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo) { return __tsan_atomic##B##_compare_exchange_strong(p, e, v, mo, fmo); } \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo) { __tsan_atomic##B##_compare_exchange_strong(p, &e, v, mo, fmo); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { fence_event(mo); }
void __tsan_atomic_signal_fence(int) {}
}
