#include "cfga.hpp"
namespace sim {
SMALL_SET(small_flat_multiset, true, true, EK_CO, PolNoProp, true, 2)
}
