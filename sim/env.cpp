#include "env.hpp"
namespace sim {
Via via;
size_t g_max_elems = size_t(1) << 40;
const char ELEM_READ[] = "read";

void* sim_allocate(size_t n, size_t esize, size_t align, int id) {
    W.ev(20, n * 131 + esize); W.yield();
    ++W.op_alloc_attempts; ++W.st.allocs;
    if (n > W.op_alloc_max) W.op_alloc_max = n;
    if (n > (1u << 17)) W.violate(n > g_max_elems ? V_LIMIT : V_ALLOC, "allocation of %zu elements requested", n);
    W.point(F_ALLOC);
    ++W.op_allocs; W.op_alloc_elems += n;
    return W.arena.alloc(n * esize, n, esize, align, id);
}
void sim_deallocate(void* p, size_t n, size_t esize, int id) {
    W.ev(21, n * 131 + esize); W.yield();
    ++W.op_deallocs;
    if (!p) W.violate(V_ALLOC, "null pointer deallocated");
    int bi = W.arena.find(p);
    if (bi < 0) W.violate(V_ALLOC, "deallocation of a pointer that was never allocated (arena offset %lld, %zu elements)", (long long)W.rel(p), n);
    Block& b = W.arena.blocks[bi];
    if (b.group == -1) W.violate(V_ALLOC, "deallocation of memory that does not belong to the allocator (container object)");
    if (!b.live) W.violate(V_ALLOC, "block #%u deallocated twice", b.serial);
    if (b.count != n || b.esize != esize) W.violate(V_ALLOC, "block of %u x %u bytes deallocated as %zu x %zu", b.count, b.esize, n, esize);
    if (b.group != id) W.violate(V_ALLOC, "block allocated by allocator %d deallocated through unequal allocator %d", b.group, id);
    if (!W.arena.guards_ok(b)) W.violate(W.mk(V_ALLOC), "memory next to block #%u was overwritten", b.serial);
    // no living element may remain inside
    const char* lo = (const char*)p; const char* hi = lo + b.bytes;
    for (const char* q = lo; q < hi; q += 4) {
        if (W.reg.find((uintptr_t)q)) W.violate(V_LIFETIME, "block #%u deallocated with a living element inside", b.serial);
    }
    --W.arena.live_blocks;
    memset(p, 0xDD, b.bytes);
    W.arena.released(bi);
}
} // namespace sim
