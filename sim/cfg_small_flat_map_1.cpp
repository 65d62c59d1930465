#include "cfga.hpp"
namespace sim {
SMALL_MAP(small_flat_map, true, false, EK_NT, EK_NT, PolAllProp, true, 4)
}
