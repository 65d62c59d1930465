#include "cfga.hpp"
namespace sim {
STATIC_MAP(static_flat_multimap, true, true, EK_TM, EK_TM, false, 8)
}
