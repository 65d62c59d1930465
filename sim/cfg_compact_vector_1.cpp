#include "cfg.hpp"
namespace sim {
SEQ_A(sfl::compact_vector, "compact_vector", SK_COMPACT, EK_NT, PolAllProp)
}
