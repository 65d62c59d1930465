#ifndef SIM_ASSOC_CODES_HPP
#define SIM_ASSOC_CODES_HPP
#include "driver.hpp"
namespace sim {
enum AssocOp : uint16_t {
    A_c_default, A_c_comp, A_c_alloc, A_c_comp_alloc, A_c_range_in, A_c_range_fwd, A_c_range_mv, A_c_ilist, A_c_copy, A_c_copy_alloc, A_c_move, A_c_move_alloc,
    A_a_eq_copy, A_a_eq_move, A_a_eq_ilist, A_a_self_copy, A_a_self_move,
    A_emplace, A_emplace_pw, A_emplace_hint, A_insert_c, A_insert_m, A_insert_p, A_insert_hint_c, A_insert_hint_m, A_insert_hint_p,
    A_insert_in, A_insert_fwd, A_insert_mv, A_insert_inmv, A_insert_ilist,
    A_ioa_c, A_ioa_m, A_ioa_het, A_ioa_hint_c, A_ioa_hint_m, A_ioa_hint_het, A_te_c, A_te_m, A_te_het, A_te_hint_c, A_te_hint_m, A_te_hint_het, A_sub_c, A_sub_m, A_sub_het,
    A_al_insert, A_al_insert_hint, A_al_emplace, A_al_ioa, A_al_te, A_al_erase,
    A_erase_pos, A_erase_range, A_erase_key, A_erase_het, A_erase_if, A_erase_loop,
    A_reserve, A_shrink, A_clear, A_swap, A_swap_free, A_self_swap, A_destroy,
    A_lookup, A_lookup_het, A_at, A_at_het, A_compare, A_access, A_mutate, A_burst, A_compare_near,
    A_COUNT
};
extern const OpInfo assoc_ops[A_COUNT];      // ordered containers
extern const OpInfo assoc_ops_uno[A_COUNT];  // unordered containers: insertion is at the end
}
#endif
