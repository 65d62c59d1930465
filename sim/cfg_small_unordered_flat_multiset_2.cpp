#include "cfga.hpp"
namespace sim {
SMALL_SET(small_unordered_flat_multiset, false, true, EK_TM, PolNoProp, false, 3)
}
