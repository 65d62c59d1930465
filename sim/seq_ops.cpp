#include "driver.hpp"
#include "seq_codes.hpp"
namespace sim {
const char* const outcome_names[5] = {"ok", "fault", "length_error", "out_of_range", "other"};
std::vector<Config>& configs() { static std::vector<Config> v; return v; }
#define O(n, c, w) {#n, (c), w}
const OpInfo seq_ops[S_COUNT] = {
    O(c_default, OC_CTOR, 1), O(c_alloc, OC_CTOR, 3), O(c_n, OC_CTOR | OC_RESIZE, 2), O(c_n_alloc, OC_CTOR | OC_RESIZE, 2), O(c_fill, OC_CTOR, 2), O(c_fill_alloc, OC_CTOR, 2),
    O(c_range_in, OC_CTOR | OC_STREAM, 2), O(c_range_fwd, OC_CTOR | OC_STREAM, 2), O(c_range_ra, OC_CTOR | OC_STREAM, 1), O(c_range_alloc, OC_CTOR | OC_STREAM, 2),
    O(c_range_mv, OC_CTOR | OC_STREAM, 2), O(c_ilist, OC_CTOR, 1), O(c_ilist_alloc, OC_CTOR, 1), O(c_copy, OC_CTOR | OC_COPY, 4), O(c_copy_alloc, OC_CTOR | OC_COPY, 4),
    O(c_move, OC_CTOR | OC_MOVE, 4), O(c_move_alloc, OC_CTOR | OC_MOVE, 5),
    O(a_fill, OC_ASSIGN, 4), O(a_range_in, OC_ASSIGN | OC_STREAM, 3), O(a_range_fwd, OC_ASSIGN | OC_STREAM, 4), O(a_range_mv, OC_ASSIGN | OC_STREAM, 3), O(a_range_inmv, OC_ASSIGN | OC_STREAM, 2),
    O(a_ilist, OC_ASSIGN, 2), O(a_eq_copy, OC_ASSIGN | OC_COPY, 6), O(a_eq_move, OC_ASSIGN | OC_MOVE, 6), O(a_eq_ilist, OC_ASSIGN, 2), O(a_self_copy, OC_ASSIGN | OC_COPY, 1), O(a_self_move, OC_ASSIGN | OC_MOVE, 1),
    O(push_back_c, OC_END, 6), O(push_back_m, OC_END, 6), O(emplace_back, OC_END, 6), O(push_front_c, OC_END, 6), O(push_front_m, OC_END, 6), O(emplace_front, OC_END, 6),
    O(pop_back, OC_POP, 5), O(pop_front, OC_POP, 5),
    O(emplace, OC_MID, 7), O(insert_c, OC_MID, 7), O(insert_m, OC_MID, 7), O(insert_fill, OC_MID, 8), O(insert_in, OC_MID | OC_STREAM, 4), O(insert_fwd, OC_MID | OC_STREAM, 7),
    O(insert_ra, OC_MID | OC_STREAM, 3), O(insert_mv, OC_MID | OC_STREAM, 5), O(insert_inmv, OC_MID | OC_STREAM, 3), O(insert_ilist, OC_MID, 4),
    O(al_push_back, OC_END | OC_ALIAS, 2), O(al_emplace_back, OC_END | OC_ALIAS, 2), O(al_push_front, OC_END | OC_ALIAS, 2), O(al_emplace_front, OC_END | OC_ALIAS, 2),
    O(al_emplace, OC_MID | OC_ALIAS, 2), O(al_insert, OC_MID | OC_ALIAS, 3), O(al_insert_fill, OC_MID | OC_ALIAS, 3), O(al_resize, OC_RESIZE | OC_ALIAS, 2), O(al_resize_front, OC_RESIZE | OC_ALIAS, 2), O(al_resize_back, OC_RESIZE | OC_ALIAS, 2),
    O(erase_pos, OC_ERASE, 8), O(erase_range, OC_ERASE, 7), O(erase_value, OC_ERASE, 2), O(erase_if, OC_ERASE | OC_PRED, 3),
    O(resize, OC_RESIZE, 5), O(resize_fill, OC_RESIZE, 5), O(resize_front, OC_RESIZE, 4), O(resize_front_fill, OC_RESIZE, 4), O(resize_back, OC_RESIZE, 4), O(resize_back_fill, OC_RESIZE, 4),
    O(reserve, OC_CAP, 6), O(reserve_front, OC_CAP, 5), O(reserve_back, OC_CAP, 5), O(shrink_to_fit, OC_CAP, 5), O(clear, OC_CLEAR, 2), O(swap, OC_SWAP, 6), O(swap_free, OC_SWAP, 3), O(self_swap, OC_SWAP, 1),
    O(destroy, OC_DESTROY, 1), O(compare, OC_COMPARE, 2), O(access, OC_ACCESS, 1), O(at_bad, OC_ACCESS, 1), O(mutate, OC_ACCESS, 3),
    O(a_other, OC_ASSIGN, 3), O(insert_other, OC_MID, 5), O(algo, OC_ACCESS, 2), O(burst, OC_END | OC_BURST, 0), O(compare_near, OC_COMPARE, 2), O(drain, OC_POP, 2),
};
#undef O
}
