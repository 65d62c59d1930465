#include "cfga.hpp"
namespace sim {
STATIC_MAP(static_flat_map, true, false, EK_TM, EK_TM, false, 8)
}
