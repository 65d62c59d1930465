#include "cfga.hpp"
namespace sim {
SMALL_SET(small_flat_set, true, false, EK_NT, PolMix2, true, 0)
}
