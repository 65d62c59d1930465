#include "cfga.hpp"
namespace sim {
SMALL_SET(small_flat_set, true, false, EK_OA, PolAllProp, false, 3)
}
