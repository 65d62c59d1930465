#include "cfga.hpp"
namespace sim {
STATIC_MAP(static_flat_map, true, false, EK_MO, EK_MO, true, 3)
}
