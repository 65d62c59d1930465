#include "cfga.hpp"
namespace sim {
STATIC_MAP(static_unordered_flat_map, false, false, EK_NT, EK_NT, true, 12)
}
