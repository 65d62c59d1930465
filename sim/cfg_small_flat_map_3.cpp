#include "cfga.hpp"
namespace sim {
SMALL_MAP(small_flat_map, true, false, EK_MO, EK_MO, PolMix1, true, 5)
}
