#include "cfga.hpp"
namespace sim {
SMALL_SET(small_unordered_flat_set, false, false, EK_TM, PolNoProp, false, 3)
}
