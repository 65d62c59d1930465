#include "cfga.hpp"
namespace sim {
STATIC_MAP(static_flat_multimap, true, true, EK_NT, EK_NT, true, 12)
}
