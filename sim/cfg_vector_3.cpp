#include "cfg.hpp"
namespace sim {
SEQ_A(sfl::vector, "vector", SK_VECTOR, EK_MO, PolMix1)
}
