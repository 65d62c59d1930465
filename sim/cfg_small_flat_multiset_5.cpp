#include "cfga.hpp"
namespace sim {
SMALL_SET(small_flat_multiset, true, true, EK_TR, PolMin, true, 4)
}
