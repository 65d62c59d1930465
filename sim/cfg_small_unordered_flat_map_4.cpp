#include "cfga.hpp"
namespace sim {
SMALL_MAP(small_unordered_flat_map, false, false, EK_NT, EK_NT, PolMix2, true, 0)
}
