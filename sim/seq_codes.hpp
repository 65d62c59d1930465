#ifndef SIM_SEQ_CODES_HPP
#define SIM_SEQ_CODES_HPP
#include "driver.hpp"
namespace sim {
enum SeqOp : uint16_t {
    S_c_default, S_c_alloc, S_c_n, S_c_n_alloc, S_c_fill, S_c_fill_alloc, S_c_range_in, S_c_range_fwd, S_c_range_ra, S_c_range_alloc,
    S_c_range_mv, S_c_ilist, S_c_ilist_alloc, S_c_copy, S_c_copy_alloc, S_c_move, S_c_move_alloc,
    S_a_fill, S_a_range_in, S_a_range_fwd, S_a_range_mv, S_a_range_inmv, S_a_ilist, S_a_eq_copy, S_a_eq_move, S_a_eq_ilist, S_a_self_copy, S_a_self_move,
    S_push_back_c, S_push_back_m, S_emplace_back, S_push_front_c, S_push_front_m, S_emplace_front, S_pop_back, S_pop_front,
    S_emplace, S_insert_c, S_insert_m, S_insert_fill, S_insert_in, S_insert_fwd, S_insert_ra, S_insert_mv, S_insert_inmv, S_insert_ilist,
    S_al_push_back, S_al_emplace_back, S_al_push_front, S_al_emplace_front, S_al_emplace, S_al_insert, S_al_insert_fill, S_al_resize, S_al_resize_front, S_al_resize_back,
    S_erase_pos, S_erase_range, S_erase_value, S_erase_if,
    S_resize, S_resize_fill, S_resize_front, S_resize_front_fill, S_resize_back, S_resize_back_fill,
    S_reserve, S_reserve_front, S_reserve_back, S_shrink, S_clear, S_swap, S_swap_free, S_self_swap, S_destroy, S_compare, S_access, S_at_bad, S_mutate, S_a_other, S_insert_other, S_algo, S_burst, S_compare_near, S_drain,
    S_COUNT
};
extern const OpInfo seq_ops[S_COUNT];
}
#endif
