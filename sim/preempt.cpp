// Called by compiler instrumentation at every basic block of the library and before every load and store it makes.
#include "core.hpp"
namespace sim { void (*g_store_hook)(void*) = nullptr; }
using sim::W;
extern "C" {
void __sanitizer_cov_trace_pc() { if (W.yield_hook && W.window && !W.harness) W.yield(); }
#define ST(n) void __sanitizer_cov_store##n(void* p) { if (sim::g_store_hook && W.window && !W.harness) sim::g_store_hook(p); if (sim::g_access_hook && !W.harness) sim::g_access_hook(p, n, true); }
#define LD(n) void __sanitizer_cov_load##n(void* p) { if (sim::g_access_hook && !W.harness) sim::g_access_hook(p, n, false); }
ST(1) ST(2) ST(4) ST(8) ST(16) LD(1) LD(2) LD(4) LD(8) LD(16)
}
