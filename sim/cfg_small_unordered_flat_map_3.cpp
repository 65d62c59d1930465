#include "cfga.hpp"
namespace sim {
SMALL_MAP(small_unordered_flat_map, false, false, EK_MO, EK_MO, PolMix1, true, 5)
}
