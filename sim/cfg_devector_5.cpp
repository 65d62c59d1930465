#include "cfg.hpp"
namespace sim {
SEQ_A(sfl::devector, "devector", SK_DEVECTOR, EK_NT, PolMix2)
}
