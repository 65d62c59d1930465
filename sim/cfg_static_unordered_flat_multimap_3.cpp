#include "cfga.hpp"
namespace sim {
STATIC_MAP(static_unordered_flat_multimap, false, true, EK_MO, EK_MO, true, 3)
}
