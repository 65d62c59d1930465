#include "cfga.hpp"
namespace sim {
STATIC_MAP(static_flat_map, true, false, EK_TR, EK_TR, true, 12)
}
