#include "cfga.hpp"
namespace sim {
SMALL_MAP(small_unordered_flat_map, false, false, EK_TM, EK_TM, PolNoProp, false, 3)
}
