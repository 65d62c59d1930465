#include "cfga.hpp"
namespace sim {
STATIC_MAP(static_flat_multimap, true, true, EK_TR, EK_OA, false, 6)
}
