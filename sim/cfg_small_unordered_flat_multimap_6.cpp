#include "cfga.hpp"
namespace sim {
SMALL_MAP(small_unordered_flat_multimap, false, true, EK_TR, EK_OA, PolAllProp, false, 3)
}
