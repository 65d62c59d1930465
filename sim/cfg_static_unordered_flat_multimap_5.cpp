#include "cfga.hpp"
namespace sim {
STATIC_MAP(static_unordered_flat_multimap, false, true, EK_TR, EK_OA, false, 6)
}
