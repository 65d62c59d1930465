#include "cfga.hpp"
namespace sim {
STATIC_MAP(static_flat_map, true, false, EK_NT, EK_NT, true, 12)
}
