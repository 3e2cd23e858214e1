// Vocabulary of the simulated clients. Arguments a..d of an operation are raw random numbers; they are resolved against
// the state in which the operation executes, so that every subsequence of a plan is again a valid plan.
#pragma once
#include "rt.h"

namespace sim {

#define SIM_OPS(X) \
    /* modifications, flag bit 1: functional form on a persistent tree instead of in place on a transient one */ \
    X(PushBack) X(PushFront) X(PopBack) X(PopFront) \
    X(InsIt) X(AsgIt) X(UpdIt) X(EraIt) \
    X(InsertV) X(AssignV) X(InsertOrAssign) X(EraseKey) X(UpdateKey) \
    X(InsIdx) X(AsgIdx) X(EraIdx) X(UpdIdx) \
    X(PxKey) X(PxIdx) X(PxIt) X(PxRead) X(PxCopy) X(PxSwap) \
    X(Clear) X(Sort) X(Algo) X(Alias) X(Bulk) X(Drain) X(Sweep) X(Cost) X(Effort) X(Hoard) X(Churn) X(Large) \
    /* operations that have to be rejected */ \
    X(XMissAssign) X(XMissErase) X(XMissUpdate) X(XMissAt) X(XUpdThrow) X(XUpdMismatch) X(XProxyMismatch) X(XEmptyMinMax) X(XCompare) X(XFill) \
    /* copies, conversions, moves */ \
    X(Snap) X(SnapMove) X(Trans) X(TransMove) X(CopyT) X(CopyP) X(AsgT) X(AsgP) X(SelfT) X(SelfP) X(MoveT) X(MoveP) \
    X(MoveAsgT) X(MoveAsgP) X(SwapT) X(SwapP) X(DropT) X(DropP) X(NewT) X(NewP) \
    /* communication between clients */ \
    X(Send) X(Recv) X(Publish) X(Attach) X(Detach) X(PubRead) X(PubCopy) X(PubTrans) X(PubMod) X(Crash) \
    /* iterators held across other operations */ \
    X(ItTake) X(ItCheck) X(ItAssign) X(ItUpdate) X(ItInsert) X(ItErase) X(ItStep) \
    /* proxy references held across other operations */ \
    X(PrTake) X(PrRead) X(PrWrite) \
    /* reads */ \
    X(Read) X(Nav) X(Lookup) X(Range) X(Compare)

enum OpKind : uint16_t {
#define X(n) k##n,
    SIM_OPS(X)
#undef X
    kOpKinds
};
extern const char* const kOpName[];

// oracles
enum Mask : uint32_t { kReverse = 1, kEnds = 2, kIndex = 4, kKeys = 8, kSums = 16, kMinMax = 32, kNavigate = 64, kAllocBound = 128, kLeaks = 256, kIters = 512, kProxies = 1024, kStable = 2048, kUnaffected = 4096, kStepBound = 8192 };
constexpr uint32_t kAllReads = kReverse | kEnds | kIndex | kKeys | kSums | kMinMax | kNavigate;
extern uint32_t oracle_mask;

enum Feature : uint32_t { fOrdered = 1, fIndexed = 2, fSummed = 4, fMin = 8, fMax = 16, fSafety = 32, fAllocFaults = 64, fElemFaults = 128, fPair = 256, fNumeric = 512, fInverted = 1024, fShallow = 2048, fLeakProbe = 4096, fHuge = 8192 };

struct ConfigInfo {
    const char* name;
    const char* what;
    uint32_t features;
    void (*run)(const Op* ops, size_t n);
};
struct Register { explicit Register(ConfigInfo const& c); };

// element life cycle bookkeeping (not instrumented)
void elem_born();
void elem_died();
void elem_reset();
int64_t elems_alive();
[[noreturn]] void elem_misuse(const char* what);

void arm_alloc(uint32_t k);        // the k-th library allocation from now on fails, 0: none
void arm_elem(uint32_t k);

struct UpdError { int code; };
} // namespace sim
