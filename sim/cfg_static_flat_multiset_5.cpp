#include "cfga.hpp"
namespace sim {
STATIC_SET(static_flat_multiset, true, true, EK_CO, false, 6)
}
