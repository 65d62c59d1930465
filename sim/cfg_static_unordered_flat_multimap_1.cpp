#include "cfga.hpp"
namespace sim {
STATIC_MAP(static_unordered_flat_multimap, false, true, EK_NT, EK_NT, true, 12)
}
