#include "cfga.hpp"
namespace sim {
SMALL_MAP(small_flat_multimap, true, true, EK_MT, EK_CO, PolNoProp, true, 2)
}
