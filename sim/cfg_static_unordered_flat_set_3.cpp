#include "cfga.hpp"
namespace sim {
STATIC_SET(static_unordered_flat_set, false, false, EK_MO, true, 3)
}
