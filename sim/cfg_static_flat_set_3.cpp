#include "cfga.hpp"
namespace sim {
STATIC_SET(static_flat_set, true, false, EK_MO, true, 3)
}
