#include "assoc_codes.hpp"
namespace sim {
#define O(n, c, w) {#n, (c), w}
#define LIST \
    O(c_default, OC_CTOR, 1), O(c_comp, OC_CTOR, 2), O(c_alloc, OC_CTOR, 2), O(c_comp_alloc, OC_CTOR, 3), O(c_range_in, OC_CTOR | OC_STREAM, 3), O(c_range_fwd, OC_CTOR | OC_STREAM, 3), O(c_range_mv, OC_CTOR | OC_STREAM, 3), \
    O(c_ilist, OC_CTOR, 2), O(c_copy, OC_CTOR | OC_COPY, 3), O(c_copy_alloc, OC_CTOR | OC_COPY, 3), O(c_move, OC_CTOR | OC_MOVE, 3), O(c_move_alloc, OC_CTOR | OC_MOVE, 4), \
    O(a_eq_copy, OC_ASSIGN | OC_COPY, 6), O(a_eq_move, OC_ASSIGN | OC_MOVE, 6), O(a_eq_ilist, OC_ASSIGN, 2), O(a_self_copy, OC_ASSIGN | OC_COPY, 1), O(a_self_move, OC_ASSIGN | OC_MOVE, 1), \
    O(emplace, OC_MID1 | OC_KEYED, 7), O(emplace_pw, OC_MID1 | OC_KEYED, 4), O(emplace_hint, OC_MID1 | OC_HINT | OC_KEYED, 5), O(insert_c, OC_MID1 | OC_KEYED, 8), O(insert_m, OC_MID1 | OC_KEYED, 8), O(insert_p, OC_MID1 | OC_HET | OC_KEYED, 4), \
    O(insert_hint_c, OC_MID1 | OC_HINT | OC_KEYED, 6), O(insert_hint_m, OC_MID1 | OC_HINT | OC_KEYED, 6), O(insert_hint_p, OC_MID1 | OC_HINT | OC_HET | OC_KEYED, 4), \
    O(insert_in, OC_MID | OC_STREAM, 4), O(insert_fwd, OC_MID | OC_STREAM, 5), O(insert_mv, OC_MID | OC_STREAM, 4), O(insert_inmv, OC_MID | OC_STREAM, 3), O(insert_ilist, OC_MID, 3), \
    O(ioa_c, OC_MID1 | OC_KEYED, 4), O(ioa_m, OC_MID1 | OC_KEYED, 4), O(ioa_het, OC_MID1 | OC_HET | OC_KEYED, 3), O(ioa_hint_c, OC_MID1 | OC_HINT | OC_KEYED, 3), O(ioa_hint_m, OC_MID1 | OC_HINT | OC_KEYED, 3), O(ioa_hint_het, OC_MID1 | OC_HINT | OC_HET | OC_KEYED, 3), \
    O(te_c, OC_MID1 | OC_KEYED, 4), O(te_m, OC_MID1 | OC_KEYED, 4), O(te_het, OC_MID1 | OC_HET | OC_KEYED, 3), O(te_hint_c, OC_MID1 | OC_HINT | OC_KEYED, 3), O(te_hint_m, OC_MID1 | OC_HINT | OC_KEYED, 3), O(te_hint_het, OC_MID1 | OC_HINT | OC_HET | OC_KEYED, 3), \
    O(sub_c, OC_MID1 | OC_KEYED, 3), O(sub_m, OC_MID1 | OC_KEYED, 3), O(sub_het, OC_MID1 | OC_HET | OC_KEYED, 3), \
    O(al_insert, OC_MID1 | OC_ALIAS, 2), O(al_insert_hint, OC_MID1 | OC_ALIAS | OC_HINT, 2), O(al_emplace, OC_MID1 | OC_ALIAS, 2), O(al_ioa, OC_MID1 | OC_ALIAS, 2), O(al_te, OC_MID1 | OC_ALIAS, 2), O(al_erase, OC_ERASE | OC_ALIAS, 2), \
    O(erase_pos, OC_ERASE, 7), O(erase_range, OC_ERASE, 6), O(erase_key, OC_ERASE | OC_KEYED, 5), O(erase_het, OC_ERASE | OC_HET | OC_KEYED, 3), O(erase_if, OC_ERASE | OC_PRED, 3), O(erase_loop, OC_ERASE, 3), \
    O(reserve, OC_CAP, 6), O(shrink_to_fit, OC_CAP, 5), O(clear, OC_CLEAR, 2), O(swap, OC_SWAP, 6), O(swap_free, OC_SWAP, 3), O(self_swap, OC_SWAP, 1), O(destroy, OC_DESTROY, 1), \
    O(lookup, OC_LOOKUP, 5), O(lookup_het, OC_LOOKUP | OC_HET, 4), O(at, OC_LOOKUP | OC_ACCESS, 3), O(at_het, OC_LOOKUP | OC_ACCESS | OC_HET, 2), O(compare, OC_COMPARE, 2), O(access, OC_ACCESS, 1), O(mutate, OC_ACCESS, 2), O(burst, OC_MID1 | OC_KEYED | OC_BURST, 0), O(compare_near, OC_COMPARE, 2),
#define OC_MID1 OC_MID
const OpInfo assoc_ops[A_COUNT] = { LIST };
#undef OC_MID1
#define OC_MID1 (OC_MID | OC_END)
const OpInfo assoc_ops_uno[A_COUNT] = { LIST };
#undef O
}
