#include "cfga.hpp"
namespace sim {
SMALL_MAP(small_flat_multimap, true, true, EK_MO, EK_MO, PolMix1, true, 5)
}
