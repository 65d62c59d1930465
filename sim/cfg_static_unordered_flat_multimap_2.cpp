#include "cfga.hpp"
namespace sim {
STATIC_MAP(static_unordered_flat_multimap, false, true, EK_TM, EK_TM, false, 8)
}
