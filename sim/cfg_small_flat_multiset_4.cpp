#include "cfga.hpp"
namespace sim {
SMALL_SET(small_flat_multiset, true, true, EK_NT, PolMix2, true, 0)
}
