#include "cfga.hpp"
namespace sim {
SMALL_MAP(small_unordered_flat_multimap, false, true, EK_MT, EK_CO, PolNoProp, true, 2)
}
