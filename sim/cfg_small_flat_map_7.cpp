#include "cfga.hpp"
namespace sim {
SMALL_MAP(small_flat_map, true, false, EK_MT, EK_CO, PolNoProp, true, 2)
}
