// Simulation core: one seed -> one execution. No wall clock, no real randomness,
// no real heap for anything the containers under test own.
#ifndef SIM_CORE_HPP
#define SIM_CORE_HPP
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <csetjmp>
#include <exception>
#include <new>
#include <string>
#include <vector>
#include <functional>

namespace sim {

// ---------------------------------------------------------------- PRNG ----
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 0) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    uint32_t below(uint32_t n) { return n ? uint32_t((next() >> 11) % n) : 0; }
    bool chance(uint32_t num, uint32_t den) { return below(den) < num; }
};

inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL;
    return h ^ (h >> 32);
}

// ------------------------------------------------------------- faults -----
enum FaultKind : uint8_t {
    F_ALLOC, F_DEFAULT, F_VALUE, F_COPY, F_MOVE, F_COPYASG, F_MOVEASG,
    F_COMPARE, F_EQUAL, F_PRED, F_ITER, F_FUNCTOR, F_COUNT
};
extern const char* const fault_names[F_COUNT];
enum FaultMode : uint8_t {
    FM_NONE = 0,
    FM_ONCE = 1,      // the k-th eligible fault point of the call fails
    FM_PERSIST = 2,   // it and every later eligible point of the call fail
    FM_OOM_WINDOW = 3,// allocation fails from here until `window` more calls have passed
    FM_TOTAL = 4      // every eligible point fails from the first on (k ignored)
};

struct SimFault : std::exception {
    uint64_t id; FaultKind kind;
    SimFault(uint64_t i, FaultKind k) : id(i), kind(k) {}
    const char* what() const noexcept override { return "sim::SimFault"; }
};
struct SimBadAlloc : std::bad_alloc {
    uint64_t id;
    explicit SimBadAlloc(uint64_t i) : id(i) {}
    const char* what() const noexcept override { return "sim::SimBadAlloc"; }
};

// ---------------------------------------------------------- violations ----
// Every oracle reports one of these kinds; a property owns a set of kinds.
enum VKind : uint8_t {
    V_NONE,
    V_MODEL,        // contents / observers disagree with the reference model
    V_RETURN,       // a call's return value disagrees with the reference model
    V_LIFETIME,     // construct over live, destroy/use of dead, byte corruption, leak of elements
    V_ALLOC,        // allocator discipline: bad dealloc, leak, guard overrun, unequal allocator
    V_PROPAGATE,    // get_allocator() is not what propagation prescribes
    V_STRONG,       // strong guarantee broken (reserve & co)
    V_PUSH,         // failed end insertion changed the container
    V_BASIC,        // container invalid after failed call
    V_NEUTRAL,      // injected exception swallowed or replaced
    V_STABLE,       // address stability broken
    V_ALIAS,        // aliased argument call gives wrong result
    V_CAPACITY,     // capacity / no-allocation promise broken
    V_LIMIT,        // length_error / out_of_range misbehaviour
    V_NOTHROW,      // nothrow operation let an exception out or terminated
    V_STREAM,       // input range not consumed exactly once and in order
    V_CALLBACK,     // callback given dead/moved-from value, or wrong count, or hidden copies
    V_SCHED,        // interleaving changed a result
    V_TRANSFER,     // copy/move/swap conservation
    V_NOEXC,        // no-exceptions build differs
    V_UNEXPECTED,   // exception without an injected fault
    V_CRASH,        // signal (SIGSEGV, SIGABRT, ...) during a call
    V_HANG,         // step budget exhausted
    V_MEMORY,       // access to memory the containers do not own
    V_COST,         // more work than the documented complexity allows
    V_COUNT
};
extern const char* const vkind_names[V_COUNT];

struct Violation {
    VKind kind = V_NONE;
    int op_index = -1;
    std::string text;
};

// ----------------------------------------------------------- registry -----
// External record of which addresses currently hold a living element.
enum EState : uint8_t { E_FREE = 0, E_TOMB = 1, E_LIVE = 2, E_MOVED = 3 };
enum EVia : uint8_t { VIA_DIRECT = 0, VIA_ALLOC = 1 };

struct ERec { uintptr_t addr; int32_t key; int32_t tag; EState st; EVia via; uint16_t type; uint32_t epoch; };

class Registry {
public:
    static constexpr uint32_t CAP = 1u << 16;
    void reset() { ++epoch_; live_ = 0; used_ = 0; }
    ERec* find(uintptr_t a) {
        uint32_t i = hash(a);
        for (;;) {
            ERec& r = t_[i];
            if (r.epoch != epoch_ || r.st == E_FREE) return nullptr;
            if (r.addr == a && r.st >= E_LIVE) return &r;
            i = (i + 1) & (CAP - 1);
        }
    }
    ERec* insert(uintptr_t a) {
        uint32_t i = hash(a); ERec* slot = nullptr;
        for (;;) {
            ERec& r = t_[i];
            if (r.epoch != epoch_ || r.st == E_FREE) {
                if (!slot) { slot = &r; ++used_; }
                break;
            }
            if (r.st == E_TOMB) { if (!slot) slot = &r; }
            i = (i + 1) & (CAP - 1);
        }
        slot->addr = a; slot->epoch = epoch_; slot->st = E_LIVE; slot->via = VIA_DIRECT;
        ++live_;
        return slot;
    }
    void erase(ERec* r) { r->st = E_TOMB; --live_; }
    uint32_t live() const { return live_; }
    bool crowded() const { return used_ > CAP / 4; }
    // forgets where elements used to be; false if too many are alive
    bool tidy() {
        std::vector<ERec> keep; for_each([&](ERec& r) { keep.push_back(r); });
        if (keep.size() > CAP / 8) return false;
        ++epoch_; used_ = 0; live_ = 0;
        for (auto& k : keep) { ERec* r = insert(k.addr); uint32_t e = r->epoch; *r = k; r->epoch = e; }
        return true;
    }
    // any live element inside [lo,hi)
    template <class F> void for_each(F f) {
        for (uint32_t i = 0; i < CAP; ++i)
            if (t_[i].epoch == epoch_ && t_[i].st >= E_LIVE) f(t_[i]);
    }
private:
    static uint32_t hash(uintptr_t a) { uint64_t x = a; x *= 0x9E3779B97F4A7C15ULL; return uint32_t(x >> 48) & (CAP - 1); }
    ERec t_[CAP] = {};
    uint32_t epoch_ = 1, live_ = 0, used_ = 0;
};

// -------------------------------------------------------------- arena -----
struct Block {
    uint32_t off;      // offset of user memory in the arena
    uint32_t bytes;    // user bytes
    uint32_t count;    // elements
    uint32_t esize;
    int32_t  group;    // allocator equality group (-1: harness object)
    bool     live;
    uint32_t serial;
    int8_t   task;     // simulated task that obtained it
    uint32_t room;     // bytes between its guards when it was first placed
};

class Arena {
public:
    static constexpr size_t SIZE = 24u << 20;
    static constexpr uint32_t GUARD = 32;
    void init();
    void reset();
    void* alloc(size_t bytes, size_t count, size_t esize, size_t align, int group);
    int find(const void* p) const;           // index of block whose user start is p, else -1
    int containing(const void* p) const;     // index of block containing p
    bool guards_ok(const Block& b) const;
    bool reuse = false;                      // hand out released memory again, the most recently released first
    uint32_t objects = 0;                    // container objects placed so far
    void released(int i);
    const char* base() const { return base_; }
    char* at(const Block& b) const { return base_ + b.off; }
    std::vector<Block> blocks;
    uint32_t live_blocks = 0;
    bool inside(const void* p) const { return (const char*)p >= base_ && (const char*)p < base_ + SIZE; }
    size_t used() const { return bump_; }
    uint32_t serial = 0;
private:
    char* base_ = nullptr;
    size_t bump_ = 0;
    size_t high_ = 0;
    std::vector<int> free_;
};

// -------------------------------------------------------------- world -----
struct Stats {
    uint64_t runs = 0, ops = 0, ops_skipped = 0, ops_failed = 0, fault_points = 0;
    uint64_t fired[F_COUNT] = {};
    uint64_t fired_mode[5] = {};
    uint64_t armed_not_fired = 0;
    uint64_t length_errors = 0, range_errors = 0;
    uint64_t allocs = 0, reused = 0, events = 0, checks = 0, switches = 0;
    uint64_t foreign[V_COUNT] = {};
    uint64_t known = 0;           // calls that showed a known finding
};

class World {
public:
    Registry reg;
    Arena arena;
    Stats st;

    // current fault plan
    bool     window = false;      // inside a call under test
    uint32_t mask = 0;            // eligible kinds
    FaultMode mode = FM_NONE;
    int64_t  fault_at = -1;       // k
    int64_t  counted = 0;         // eligible points seen in this call
    bool     firing = false;      // persistent mode active
    int      oom_left = 0;        // calls for which allocation still fails
    uint64_t fired_in_op = 0;     // faults thrown in this call
    uint64_t last_fault_id = 0;
    uint64_t fault_serial = 0;
    FaultKind last_fault_kind = F_COUNT;
    bool     count_by_kind = false;
    uint64_t kind_count[F_COUNT] = {};

    // per-run trace hash: every event an execution makes observable to the environment
    uint64_t hash = 0;
    uint64_t events = 0;
    uint64_t event_limit = 20000000;

    // per-call counters used by oracles
    uint64_t op_allocs = 0, op_alloc_attempts = 0, op_deallocs = 0, op_ctor = 0, op_copies = 0, op_moves = 0, op_assigns = 0, op_dtors = 0, op_news = 0;
    uint64_t op_alloc_max = 0;     // largest count requested in this call
    uint64_t op_alloc_elems = 0, op_calls = 0; // sum of the counts obtained; comparisons and predicate calls
    int      harness = 0;          // >0: inside harness code (its own memory is not counted)
    bool     run_fault = false;    // a fault fired earlier in this run

    // violation handling
    Violation viol;
    sigjmp_buf* escape = nullptr;
    int op_index = -1;
    const char* phase = "";
    uint64_t enabled = ~0ull;      // kinds the current property owns (bitmask)

    int task = -1;                 // simulated task that is running
    bool relabel = false;          // a violation now means: only when tasks are interleaved
    uint64_t episode = 0;          // calls started so far

    // scheduler hook: called at every callback event when set
    void (*yield_hook)(void*) = nullptr;
    void* yield_arg = nullptr;

    void begin_run();
    void ev(uint32_t tag, uint64_t v) {
        hash = mix(hash, (uint64_t(tag) << 56) ^ v);
        if (++events > event_limit) violate(V_HANG, "step budget exhausted");
    }
    void yield() { if (yield_hook) yield_hook(yield_arg); }
    struct Own { Own() ; ~Own(); };

    // A fault point.
    void point(FaultKind k) {
        if (!window) return;
        ++st.fault_points;
        op_calls += k == F_COMPARE || k == F_EQUAL || k == F_PRED;
        if (count_by_kind) ++kind_count[k];
        if (oom_left > 0 && k == F_ALLOC) { fire(k, FM_OOM_WINDOW); }
        if (mode == FM_NONE) { ++counted; return; }
        if (!(mask & (1u << k))) return;
        int64_t idx = counted++;
        if (firing || mode == FM_TOTAL) fire(k, mode);
        if (idx == fault_at) {
            if (mode == FM_PERSIST) firing = true;
            fire(k, mode);
        }
    }
    [[noreturn]] void fire(FaultKind k, FaultMode m);
    // the property about memory claims wrong addresses, the others what they are used for
    VKind pk(const void* p, VKind k) const { if (!watch_memory || !arena.inside(p)) return k; const int b = arena.containing(p); return b < 0 || !arena.blocks[size_t(b)].live ? V_MEMORY : k; }
    VKind mk(VKind k) const { return watch_memory ? V_MEMORY : k; }
    [[noreturn]] void violate(VKind k, const char* fmt, ...) __attribute__((format(printf, 3, 4)));

    // A violation that leaves the run in a state the oracles can go on with: if the property being
    // decided does not own it, it is only counted, so that it cannot hide one that the property owns.
    bool watch_memory = false;     // every access of library code is checked
    uint32_t own_cls = 0;          // classes of calls the property owns as a whole
    bool op_owned = false;         // the call's class belongs to the property
    bool limits = false, past_limit = false; // the property is about max_size(); the call asks for more than that
    template <class... A> void soft(VKind k, const char* fmt, A... a) {
        if ((!op_owned || k == V_COST) && !(enabled >> k & 1)) { ++st.foreign[k]; return; }
        violate(k, fmt, a...);
    }
    // a defect listed in known_findings.json under this name (check.py says which are)
    bool known(const char* id) {
        static const char* const list = getenv("SIM_KNOWN");
        const char* const at = list ? strstr(list, id) : nullptr;
        if (at) ++st.known;
        return at;
    }
    void op_begin() {
        op_allocs = op_alloc_attempts = op_deallocs = op_ctor = op_copies = op_moves = op_assigns = op_dtors = op_news = 0; op_alloc_max = op_alloc_elems = op_calls = 0;
        counted = 0; firing = false; fired_in_op = 0; ++episode;
        if (count_by_kind) memset(kind_count, 0, sizeof kind_count);
    }
    int64_t rel(const void* p) const {
        return arena.inside(p) ? int64_t((const char*)p - arena.base()) : -1;
    }
};

struct Via {
    const char* con_lo = nullptr; const char* con_hi = nullptr;
    const char* des_lo = nullptr; const char* des_hi = nullptr;
};
extern Via via;
constexpr int OPC = 12; // per-call counters of World, from op_allocs on
// what belongs to the task that is running, for the scheduler to exchange
struct TaskState {
    bool window, firing, count_by_kind, run_fault; uint32_t mask; FaultMode mode; int64_t fault_at, counted; int oom_left, op_index, harness, task;
    uint64_t fired_in_op, last_fault_id, fault_serial, ops[OPC], episode; FaultKind last_fault_kind; const char* phase; Via v;
    void take(const World& w) { v = via; window = w.window; firing = w.firing; count_by_kind = w.count_by_kind; run_fault = w.run_fault; mask = w.mask; mode = w.mode; fault_at = w.fault_at; counted = w.counted; oom_left = w.oom_left; op_index = w.op_index; harness = w.harness; task = w.task;
        fired_in_op = w.fired_in_op; last_fault_id = w.last_fault_id; fault_serial = w.fault_serial; last_fault_kind = w.last_fault_kind; phase = w.phase; episode = w.episode;
        const uint64_t* q = &w.op_allocs; for (int i = 0; i < OPC; ++i) ops[i] = q[i]; }
    void give(World& w) const { via = v; w.window = window; w.firing = firing; w.count_by_kind = count_by_kind; w.run_fault = run_fault; w.mask = mask; w.mode = mode; w.fault_at = fault_at; w.counted = counted; w.oom_left = oom_left; w.op_index = op_index; w.harness = harness; w.task = task;
        w.fired_in_op = fired_in_op; w.last_fault_id = last_fault_id; w.fault_serial = fault_serial; w.last_fault_kind = last_fault_kind; w.phase = phase; w.episode = episode;
        uint64_t* q = &w.op_allocs; for (int i = 0; i < OPC; ++i) q[i] = ops[i]; }
};

extern World W;
// installed while a run of a build instrumented for it executes: sees every load and store of library code
extern void (*g_access_hook)(const void*, unsigned, bool);
void check_access(const void* p, unsigned n, bool write);
inline World::Own::Own() { ++W.harness; }
inline World::Own::~Own() { --W.harness; }

} // namespace sim
#endif
