#include "cfg.hpp"
namespace sim {
SEQ_N(sfl::segmented_devector, "segmented_devector", SK_SEGD, EK_CO, PolMix2, 2)
}
