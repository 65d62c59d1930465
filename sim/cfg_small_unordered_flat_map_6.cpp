#include "cfga.hpp"
namespace sim {
SMALL_MAP(small_unordered_flat_map, false, false, EK_TR, EK_OA, PolAllProp, false, 3)
}
