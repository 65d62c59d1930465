#include "cfg.hpp"
namespace sim {
SEQ_N(sfl::segmented_devector, "segmented_devector", SK_SEGD, EK_NT, PolAllProp, 4)
}
