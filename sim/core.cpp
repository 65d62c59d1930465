#include "env.hpp"
#include <sys/mman.h>
#include <algorithm>
#include <unistd.h>
namespace sim {

World W;
void (*g_access_hook)(const void*, unsigned, bool) = nullptr;

const char* const fault_names[F_COUNT] = {"alloc","default_ctor","value_ctor","copy_ctor","move_ctor","copy_assign","move_assign","compare","equal","predicate","iterator","functor"};
const char* const vkind_names[V_COUNT] = {"none","model","return","lifetime","alloc","propagate","strong","push","basic","neutral","stable","alias","capacity","limit","nothrow","stream","callback","sched","transfer","noexc","unexpected","crash","hang","memory","cost"};

void Arena::init() {
    if (base_) return;
    void* want = (void*)0x510000000000ULL;
    void* p = mmap(want, SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
    base_ = (char*)p;
    memset(base_, 0xEE, SIZE);
    high_ = 0;
}
void Arena::reset() {
    if (bump_) memset(base_, 0xEE, bump_);
    bump_ = 64;
    blocks.clear(); free_.clear(); reuse = false; objects = 0;
    live_blocks = 0;
    serial = 0;
}
void* Arena::alloc(size_t bytes, size_t count, size_t esize, size_t align, int group) {
    if (align < 8) align = 8;
    objects += group == -1;
    if (reuse) for (size_t i = free_.size(); i-- > 0;) {
        Block& b = blocks[size_t(free_[i])];
        if ((b.group == -1) != (group == -1) || b.room < bytes || b.room > 2 * bytes || b.off % align) continue;
        if (group != -1) for (uint32_t k = 0; k < b.bytes; ++k) if ((unsigned char)base_[b.off + k] != 0xDD) W.violate(W.mk(V_ALLOC), "released block #%u was written to", b.serial);
        free_.erase(free_.begin() + long(i));
        memset(base_ + b.off, 0xCD, b.room); memset(base_ + b.off + bytes, 0x5A, GUARD);
        b.bytes = (uint32_t)bytes; b.count = (uint32_t)count; b.esize = (uint32_t)esize;
        b.group = group; b.live = true; b.task = int8_t(W.task); b.serial = serial++;
        ++live_blocks; ++W.st.reused;
        return base_ + b.off;
    }
    size_t off = (bump_ + GUARD + align - 1) / align * align;
    if (off + bytes + GUARD > SIZE) W.violate(V_HANG, "the run used up the simulated heap of %zu bytes", size_t(SIZE));
    memset(base_ + off - GUARD, 0xA5, GUARD);
    memset(base_ + off, 0xCD, bytes);
    memset(base_ + off + bytes, 0x5A, GUARD);
    bump_ = off + bytes + GUARD;
    Block b; b.off = (uint32_t)off; b.bytes = (uint32_t)bytes; b.count = (uint32_t)count; b.esize = (uint32_t)esize;
    World::Own own;
    b.group = group; b.live = true; b.task = int8_t(W.task); b.serial = serial++; b.room = b.bytes;
    blocks.push_back(b);
    ++live_blocks;
    return base_ + off;
}
void Arena::released(int i) {
    World::Own own;
    blocks[size_t(i)].live = false;
    if (reuse) free_.push_back(i);
}
int Arena::containing(const void* p) const {
    if (!inside(p)) return -1;
    uint32_t o = uint32_t((const char*)p - base_);
    // blocks are in increasing offset order
    size_t lo = 0, hi = blocks.size();
    while (lo < hi) { size_t m = (lo + hi) / 2; if (blocks[m].off <= o) lo = m + 1; else hi = m; }
    if (lo == 0) return -1;
    const Block& b = blocks[lo - 1];
    if (o >= b.off && o < b.off + std::max<uint32_t>(b.bytes, 1)) return int(lo - 1);
    return -1;
}
int Arena::find(const void* p) const {
    int i = containing(p);
    if (i < 0) return -1;
    return base_ + blocks[i].off == (const char*)p ? i : -1;
}
bool Arena::guards_ok(const Block& b) const {
    const unsigned char* g = (const unsigned char*)base_ + b.off;
    for (uint32_t i = 1; i <= GUARD; ++i) if (g[-(int)i] != 0xA5) return false;
    for (uint32_t i = 0; i < GUARD; ++i) if (g[b.bytes + i] != 0x5A) return false;
    return true;
}

// Every byte of the simulated heap belongs to a living block (a container object or storage obtained from an allocator) or
// to nobody; accesses of library code have to stay inside the former.
void check_access(const void* p, unsigned n, bool write) {
    if (!W.arena.inside(p)) return;
    const uint32_t o = uint32_t((const char*)p - W.arena.base());
    const int b = W.arena.containing(p);
    if (b < 0) W.violate(V_MEMORY, "the library %s %u bytes at arena offset %u, which belongs to no block", write ? "writes" : "reads", n, o);
    const Block& bl = W.arena.blocks[size_t(b)];
    if (!bl.live) W.violate(V_MEMORY, "the library %s %u bytes of block #%u, which is no longer allocated", write ? "writes" : "reads", n, bl.serial);
    if (o + n > bl.off + bl.bytes) W.violate(V_MEMORY, "the library %s %u bytes at the end of block #%u, beyond its %u bytes", write ? "writes" : "reads", n, bl.serial, bl.bytes);
}

void World::begin_run() {
    arena.init();
    arena.reset();
    reg.reset();
    window = false; mode = FM_NONE; mask = 0; fault_at = -1; counted = 0; firing = false; oom_left = 0;
    harness = 0; run_fault = false; via = Via();
    fired_in_op = 0; last_fault_id = 0; fault_serial = 0; last_fault_kind = F_COUNT;
    hash = 0x1234567; events = 0;
    viol = Violation(); op_index = -1; phase = "";
    yield_hook = nullptr; yield_arg = nullptr; task = -1; relabel = false; episode = 0;
    op_begin();
}

void World::fire(FaultKind k, FaultMode m) {
    ++fired_in_op; run_fault = true;
    ++st.fired[k];
    ++st.fired_mode[m];
    last_fault_kind = k;
    last_fault_id = ++fault_serial;
    ev(0xF0 + k, last_fault_id);
    if (k == F_ALLOC) throw SimBadAlloc(last_fault_id);
    throw SimFault(last_fault_id, k);
}

void World::violate(VKind k, const char* fmt, ...) {
    char buf[1024];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    if (limits && past_limit && k != V_UNEXPECTED) k = V_LIMIT;
    if (viol.kind == V_NONE) { viol.kind = relabel ? V_SCHED : k; viol.op_index = op_index; viol.text = std::string(relabel && k != V_SCHED ? "only when interleaved: " : "") + phase + (*phase ? ": " : "") + buf; }
    window = false;
    if (escape) siglongjmp(*escape, 1);
    fprintf(stderr, "violation outside a run: %s\n", buf);
    _exit(3);
}

} // namespace sim

// every plain heap request made by the code under test is counted
void* operator new(std::size_t n) { if (sim::W.window && !sim::W.harness) ++sim::W.op_news; void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, std::size_t) noexcept { free(p); }
void operator delete[](void* p, std::size_t) noexcept { free(p); }
