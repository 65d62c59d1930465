// What each property owns and how its runs are generated.
#ifndef SIM_PROPS_HPP
#define SIM_PROPS_HPP
#include "driver.hpp"
namespace sim {
enum Fam : uint32_t { FA_SEQ = 1, FA_ORD = 2, FA_UNO = 4, FA_STATIC = 8, FA_HEAP = 16 };
struct Prop {
    Profile pf;
    uint32_t fams = FA_SEQ | FA_ORD | FA_UNO;
    bool heap_only = false;
    uint32_t own_cls = 0;        // every violation during a call of these classes belongs to the property
    bool own_cls_fault = false;  // ... only if a failure was injected into that call
    uint64_t kinds_after_fault = 0; // kinds owned once a failure was injected in the run
};
constexpr uint64_t KB(VKind k) { return 1ull << k; }
inline bool make_prop(const std::string& id, Prop& p) {
    const uint64_t common = KB(V_CRASH) | KB(V_HANG) | KB(V_UNEXPECTED);
    Profile& f = p.pf; f.prop = id; f.kinds = common;
    const uint32_t ALLF = (1u << F_COUNT) - 1;
    auto modes = [](std::initializer_list<FaultMode> l) { uint32_t m = 0; for (auto x : l) m |= 1u << x; return m; };
    f.fault_mask = ALLF;
    if (id == "C01") { p.fams = FA_SEQ; f.kinds |= KB(V_MODEL) | KB(V_RETURN) | KB(V_TRANSFER) | KB(V_ALIAS) | KB(V_LIFETIME) | KB(V_BASIC) | KB(V_LIMIT); f.fault_pct = 0; f.limit_pct = 8; f.min_ops = 8; f.max_ops = 40; }
    else if (id == "C02") { p.fams = FA_ORD; f.kinds |= KB(V_MODEL) | KB(V_RETURN) | KB(V_TRANSFER) | KB(V_ALIAS) | KB(V_LIFETIME) | KB(V_BASIC) | KB(V_LIMIT); f.limit_pct = 5; f.min_ops = 8; f.max_ops = 40; }
    else if (id == "C03") { p.fams = FA_UNO; f.kinds |= KB(V_MODEL) | KB(V_RETURN) | KB(V_TRANSFER) | KB(V_ALIAS) | KB(V_LIFETIME) | KB(V_BASIC) | KB(V_LIMIT); f.limit_pct = 5; f.min_ops = 8; f.max_ops = 40; }
    else if (id == "C04") { f.kinds |= KB(V_LIFETIME); f.fault_pct = 80; f.sweep = true; f.modes = modes({FM_ONCE, FM_PERSIST}); f.limit_pct = 5; }
    else if (id == "C05") { p.heap_only = true; f.kinds |= KB(V_ALLOC) | KB(V_PROPAGATE); f.fault_pct = 60; f.sweep = true; f.modes = modes({FM_ONCE, FM_PERSIST, FM_OOM_WINDOW}); f.boost = OC_CTOR | OC_ASSIGN | OC_MOVE | OC_COPY | OC_SWAP | OC_CAP; f.boost_factor = 2; f.limit_pct = 5; }
    else if (id == "C06") { p.heap_only = true; f.kinds |= KB(V_STRONG); p.own_cls = OC_CAP; f.fault_pct = 85; f.sweep = true; f.fault_ops = OC_CAP; f.boost = OC_CAP; f.boost_factor = 5; f.modes = modes({FM_ONCE, FM_PERSIST, FM_OOM_WINDOW}); f.limit_pct = 15; }
    else if (id == "C07") { p.fams = FA_SEQ | FA_UNO; f.kinds |= KB(V_PUSH); p.own_cls = OC_END; p.own_cls_fault = true; p.kinds_after_fault = KB(V_LIFETIME) | KB(V_BASIC) | KB(V_MODEL); f.fault_pct = 95; f.sweep = true; f.fault_ops = OC_END; f.boost = OC_END; f.boost_factor = 4; f.modes = modes({FM_ONCE, FM_PERSIST, FM_OOM_WINDOW}); }
    else if (id == "C08") { f.kinds |= KB(V_BASIC) | KB(V_NEUTRAL); p.kinds_after_fault = KB(V_LIFETIME) | KB(V_MODEL) | KB(V_RETURN) | KB(V_TRANSFER) | KB(V_ALLOC) | KB(V_CAPACITY) | KB(V_LIMIT) | KB(V_NOTHROW) | KB(V_CALLBACK) | KB(V_PROPAGATE); f.fault_pct = 97; f.sweep = true; f.modes = modes({FM_ONCE, FM_PERSIST, FM_OOM_WINDOW, FM_TOTAL}); f.limit_pct = 10; }
    else if (id == "C09") { f.kinds |= KB(V_STABLE) | KB(V_TRANSFER); f.fault_pct = 30; f.sweep = true; f.boost = OC_END | OC_CAP | OC_MOVE | OC_SWAP | OC_ERASE; f.boost_factor = 2; }
    else if (id == "C10") { f.kinds |= KB(V_ALIAS); p.own_cls = OC_ALIAS; f.boost = OC_ALIAS; f.boost_factor = 8; f.fault_pct = 10; f.sweep = true; f.fault_ops = OC_ALIAS; }
    else if (id == "C11") { f.kinds |= KB(V_CAPACITY); f.fault_pct = 40; f.fault_mask = 1u << F_ALLOC; f.modes = modes({FM_ONCE, FM_OOM_WINDOW, FM_PERSIST}); f.boost = OC_CAP | OC_END | OC_MID | OC_CLEAR | OC_ASSIGN; f.boost_factor = 2; }
    else if (id == "C12") { f.kinds |= KB(V_LIMIT); f.huge_pct = 90; f.limit_pct = 90; f.fault_pct = 0; f.boost = OC_RESIZE | OC_MID | OC_END | OC_CAP | OC_ASSIGN | OC_LOOKUP; f.boost_factor = 2; f.max_ops = 36; }
    else if (id == "C13") { f.kinds |= KB(V_NOTHROW); p.own_cls = OC_DESTROY | OC_CLEAR | OC_POP | OC_ERASE | OC_SWAP | OC_MOVE; p.own_cls_fault = true; f.fault_pct = 100; f.modes = modes({FM_TOTAL}); f.fault_ops = OC_DESTROY | OC_CLEAR | OC_POP | OC_ERASE | OC_RESIZE | OC_SWAP | OC_MOVE | OC_ACCESS | OC_CTOR; f.boost = OC_DESTROY | OC_CLEAR | OC_POP | OC_ERASE | OC_SWAP | OC_MOVE; f.boost_factor = 3; }
    else if (id == "C14") { f.kinds |= KB(V_NOEXC); f.limit_pct = 50; f.min_ops = 8; f.max_ops = 36; }
    else if (id == "C15") { f.kinds |= KB(V_STREAM); p.own_cls = OC_STREAM; p.kinds_after_fault = KB(V_LIFETIME) | KB(V_BASIC) | KB(V_MODEL); f.boost = OC_STREAM; f.boost_factor = 6; f.fault_pct = 40; f.sweep = true; f.fault_ops = OC_STREAM; f.fault_mask = (1u << F_ITER) | (1u << F_COPY) | (1u << F_ALLOC) | (1u << F_MOVE) | (1u << F_COPYASG) | (1u << F_MOVEASG); f.limit_pct = 10; }
    else if (id == "C16") { f.kinds |= KB(V_CALLBACK); p.own_cls = OC_PRED | OC_LOOKUP; f.boost = OC_PRED | OC_LOOKUP | OC_COMPARE | OC_KEYED | OC_ERASE; f.boost_factor = 3; f.fault_pct = 15; f.sweep = true; }
    else if (id == "C17") { f.kinds = KB(V_SCHED); f.fibers = true; f.min_ops = 4; f.max_ops = 16; f.fault_pct = 25; }
    else if (id == "C18") { f.kinds |= KB(V_TRANSFER); p.own_cls = OC_COPY | OC_MOVE | OC_SWAP; f.boost = OC_COPY | OC_MOVE | OC_SWAP; f.boost_factor = 5; f.fault_pct = 30; f.sweep = true; f.fault_ops = OC_COPY | OC_MOVE | OC_SWAP; f.modes = modes({FM_ONCE, FM_OOM_WINDOW}); }
    else if (id == "C19") { f.kinds |= KB(V_MEMORY); f.fault_pct = 50; f.sweep = true; f.modes = modes({FM_ONCE, FM_PERSIST, FM_OOM_WINDOW}); f.limit_pct = 10; f.min_ops = 8; f.max_ops = 36; }
    else if (id == "C20") { f.kinds |= KB(V_COST); f.fault_pct = 15; f.sweep = true; f.limit_pct = 5; f.boost = OC_BURST | OC_LOOKUP | OC_COMPARE; f.boost_factor = 2; f.big_den = 3; f.min_ops = 6; f.max_ops = 24; }
    else return false;
    return true;
}
} // namespace sim
#endif
