#include "cfga.hpp"
namespace sim {
SMALL_MAP(small_flat_map, true, false, EK_TM, EK_TM, PolNoProp, false, 3)
}
