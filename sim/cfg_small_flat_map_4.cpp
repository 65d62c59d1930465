#include "cfga.hpp"
namespace sim {
SMALL_MAP(small_flat_map, true, false, EK_NT, EK_NT, PolMix2, true, 0)
}
