#include "cfg.hpp"
namespace sim {
SEQ_N(sfl::small_vector, "small_vector", SK_SMALL, EK_TM, PolNoProp, 3)
}
