#include "cfga.hpp"
namespace sim {
SMALL_SET(small_unordered_flat_multiset, false, true, EK_MO, PolMix1, true, 5)
}
