#include "cfga.hpp"
namespace sim {
SMALL_MAP(small_flat_multimap, true, true, EK_TM, EK_TM, PolNoProp, false, 3)
}
