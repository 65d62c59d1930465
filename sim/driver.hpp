// Programs (explicit operation + fault records), profiles and the driver interface.
#ifndef SIM_DRIVER_HPP
#define SIM_DRIVER_HPP
#include "env.hpp"
#include <algorithm>
#include <stdexcept>
#include <string>
#include <vector>
#include <memory>
#include <map>
#include <unordered_set>

namespace sim {

struct Op {
    uint16_t code = 0;
    int32_t c = 0, a = 0, b = 0, d = 0, e = 0;
    uint8_t fmode = FM_NONE;
    uint32_t fmask = 0;
    int32_t fat = 0;
    int32_t fwin = 0;
    uint8_t task = 0;          // simulated task that makes the call
};
constexpr uint32_t REUSE = 256;  // bit of Program::flags: the simulated heap hands released memory out again
struct Program {
    std::vector<Op> ops;
    int64_t max_elems = 0;     // 0: unlimited
    bool big = false;          // generated with large amounts (only guides the search)
    std::vector<int> hot;      // calls in prepared states (only guides the search)
    uint32_t flags = 0;        // driver specific
    std::vector<int32_t> sched;// switch decisions (fiber driver)
};

// operation classes
enum : uint32_t {
    OC_CTOR = 1, OC_ASSIGN = 2, OC_END = 4, OC_MID = 8, OC_ERASE = 16, OC_RESIZE = 32, OC_CAP = 64,
    OC_SWAP = 128, OC_ALIAS = 256, OC_STREAM = 512, OC_LOOKUP = 1024, OC_COMPARE = 2048, OC_CLEAR = 4096,
    OC_ACCESS = 8192, OC_DESTROY = 1u << 14, OC_MOVE = 1u << 15, OC_COPY = 1u << 16, OC_POP = 1u << 17, OC_PRED = 1u << 18,
    OC_KEYED = 1u << 19, OC_HINT = 1u << 20, OC_HET = 1u << 21, OC_BURST = 1u << 22, OC_ANY = 1u << 30
};
struct OpInfo { const char* name; uint32_t cls; int weight; };

struct Profile {
    std::string prop;
    uint64_t kinds = 0;             // violation kinds owned by the property
    uint32_t boost = 0;             // op classes to emphasise
    int boost_factor = 5;
    uint32_t fault_ops = OC_ANY;    // classes on which faults are placed
    uint32_t fault_mask = (1u << F_COUNT) - 1;
    int fault_pct = 0;              // share of runs with faults
    bool sweep = false;             // fault runs: sweep all points of one call
    uint32_t modes = (1u << FM_ONCE);
    int huge_pct = 30;              // share of boundary amounts that may be far above every limit
    int limit_pct = 0;              // share of runs with a small max_size
    int min_ops = 6, max_ops = 28;
    uint32_t only = OC_ANY;         // restrict generated classes (OC_ANY: all)
    bool fibers = false;
    uint32_t big_den = 60;          // one program in so many uses large amounts
};

struct OpCount { uint64_t kind[F_COUNT]; };

struct RunObs {
    std::vector<OpCount>* counts = nullptr;      // per op fault points (dry run)
    std::unordered_set<uint64_t>* sigs = nullptr;// coverage signatures
    uint64_t obs = 0;                            // hash of everything the caller can see
    std::vector<uint64_t>* op_obs = nullptr;     // obs after each op, with the trace so far
    std::vector<uint64_t>* plain_obs = nullptr;  // obs after each op
    int stop_op = -1;                            // op at which an expected error ended the run (noexc comparison)
    bool stop_on_error = false;                  // stop at first length_error/out_of_range
    bool isolated = true;                        // global liveness checks apply
    bool verbose = false;
};

enum Outcome { O_OK, O_FAULT, O_LENGTH, O_RANGE, O_OTHER };
extern const char* const outcome_names[5];

class Driver {
public:
    virtual ~Driver() {}
    virtual std::string name() const = 0;
    virtual const OpInfo* ops(int& n) const = 0;
    virtual void gen(Rng& r, const Profile& p, Program& out) = 0;
    virtual void exec(const Program& p, RunObs& o) = 0;   // a whole run (begin..end), violations leave by W.violate
    virtual bool body(const Program& p, RunObs& o) = 0;     // the calls of the program; false: stopped at an expected error
    virtual void conclude(const Program& p, RunObs& o) = 0; // recovery use, destruction, leak checks
    virtual uint64_t read_task(int which) = 0;
    virtual void each_object(const std::function<void(const void*, size_t)>& f) = 0;
    virtual bool applies(const Profile&) const { return true; }
    virtual std::string family() const = 0;
    virtual bool forked() const { return false; }          // every execution in a process of its own
    virtual int map_op(int, int i) const { return i; }     // call number of a task -> index in the program
    virtual void resched(Rng&, Program&) {}
};

struct Config { std::string name; std::function<std::unique_ptr<Driver>()> make; };
std::vector<Config>& configs();
struct Reg { Reg(const char* n, std::function<std::unique_ptr<Driver>()> f) { configs().push_back({n, f}); } };

template <class F>
inline Outcome guarded(const Op& op, bool faults_on, F f, std::string* what = nullptr) {
    W.op_begin();
    W.mode = faults_on ? FaultMode(op.fmode) : FM_NONE;
    W.mask = op.fmask; W.fault_at = op.fat;
    if (faults_on && op.fmode == FM_OOM_WINDOW) { W.mode = FM_NONE; W.mask = 0; W.oom_left = op.fwin + 1; }
    Outcome r;
    W.window = true;
    try { f(); W.window = false; r = O_OK; }
    catch (const SimFault& x) { W.window = false; r = O_FAULT; if (x.id + W.fired_in_op <= W.last_fault_id || x.id > W.last_fault_id) r = O_OTHER; }
    catch (const SimBadAlloc& x) { W.window = false; r = O_FAULT; if (x.id + W.fired_in_op <= W.last_fault_id || x.id > W.last_fault_id) r = O_OTHER; }
    catch (const std::length_error& x) { W.window = false; r = O_LENGTH; ++W.st.length_errors; if (what) *what = x.what(); }
    catch (const std::out_of_range& x) { W.window = false; r = O_RANGE; ++W.st.range_errors; if (what) *what = x.what(); }
    catch (const std::exception& x) { W.window = false; r = O_OTHER; if (what) *what = x.what(); }
    catch (...) { W.window = false; r = O_OTHER; }
    if (W.oom_left > 0) --W.oom_left;
    if (op.fmode != FM_NONE && faults_on && !W.fired_in_op) ++W.st.armed_not_fired;
    W.mode = FM_NONE; W.firing = false;
    W.ev(0xE0, uint64_t(r));
    return r;
}

// the laws of random access iterators, for every way of writing them and for mixed constness
template <class Q, class Bad> void iterator_laws(Q& c, size_t n, Bad bad) {
    using D = std::ptrdiff_t;
    auto b = c.begin(); auto cb = c.cbegin(); using I = decltype(b); using CI = decltype(cb);
    const CI conv = b; if (!(conv == cb) || conv != b || b != cb) bad("iterator conversion", 0);
    { I z; z = c.end(); if (z != c.end()) bad("iterator assignment", n); CI y; y = z; if (y != c.cend()) bad("iterator assignment", n); }
    for (size_t k = 0; k <= n; k += 1 + n / 6) {
        I it = b + D(k); const CI ci = cb + D(k);
        if (!(D(k) + b == it) || !(D(k) + cb == ci)) bad("k + iterator", k);
        if (it - cb != D(k) || ci - b != D(k) || b - ci != -D(k)) bad("mixed iterator difference", k);
        if (!(it == ci) || it != ci || it < ci || ci < it || it > ci || ci > it || !(it <= ci) || !(ci >= it)) bad("mixed iterator comparison", k);
        if (k && (!(b < ci) || !(cb < it) || !(it > cb) || ci <= b || !(it >= cb) || cb >= it)) bad("mixed iterator order", k);
        if (!((it - D(k)) == b) || !((ci - D(k)) == cb)) bad("iterator - k", k);
        if (k < n) {
            if (it.operator->() != &*it || ci.operator->() != &*ci || &*it != &*ci) bad("iterator ->", k);
            CI p = ci; const CI q = p++; if (q != ci || p - ci != 1) bad("const iterator ++", k);
            const CI r = p--; if (r - ci != 1 || p != ci) bad("const iterator --", k);
            if (&ci[D(n - 1 - k)] != &*(cb + D(n - 1))) bad("const iterator []", k);
            if (&it[-D(k)] != &*b) bad("iterator [-k]", k);
        }
    }
}

inline int32_t umod(int32_t x, int32_t m) { if (m <= 0) return 0; int32_t r = x % m; return r < 0 ? r + m : r; }

} // namespace sim
#endif
