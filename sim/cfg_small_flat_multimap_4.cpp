#include "cfga.hpp"
namespace sim {
SMALL_MAP(small_flat_multimap, true, true, EK_NT, EK_NT, PolMix2, true, 0)
}
