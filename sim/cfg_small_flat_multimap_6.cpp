#include "cfga.hpp"
namespace sim {
SMALL_MAP(small_flat_multimap, true, true, EK_TR, EK_OA, PolAllProp, false, 3)
}
