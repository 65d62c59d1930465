#include "cfga.hpp"
namespace sim {
SMALL_MAP(small_unordered_flat_multimap, false, true, EK_TM, EK_TM, PolNoProp, false, 3)
}
