#include "cfg.hpp"
namespace sim {
SEQ_N(sfl::segmented_vector, "segmented_vector", SK_SEGV, EK_TM, PolNoProp, 3)
}
