#include "cfga.hpp"
namespace sim {
STATIC_SET(static_unordered_flat_multiset, false, true, EK_TM, false, 8)
}
