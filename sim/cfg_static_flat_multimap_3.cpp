#include "cfga.hpp"
namespace sim {
STATIC_MAP(static_flat_multimap, true, true, EK_MO, EK_MO, true, 3)
}
