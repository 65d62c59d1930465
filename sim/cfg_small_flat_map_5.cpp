#include "cfga.hpp"
namespace sim {
SMALL_MAP(small_flat_map, true, false, EK_TR, EK_TR, PolMin, true, 4)
}
