#include "cfg.hpp"
namespace sim {
SEQ_N(sfl::small_vector, "small_vector", SK_SMALL, EK_CO, PolMix2, 2)
}
