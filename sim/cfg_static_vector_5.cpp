#include "cfg.hpp"
namespace sim {
SEQ_S(sfl::static_vector, "static_vector", SK_STATIC, EK_MT, 5)
}
