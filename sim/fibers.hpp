// Several simulated tasks in one process: a seeded scheduler switches between them at every callback
// and, with instrumentation (preempt.cpp), at every basic block of the library.
#ifndef SIM_FIBERS_HPP
#define SIM_FIBERS_HPP
#include "driver.hpp"
#include <sys/mman.h>
#include <unistd.h>
#include <ucontext.h>
#include <cxxabi.h>
namespace __cxxabiv1 { struct __cxa_eh_globals { void* caughtExceptions; unsigned int uncaughtExceptions; }; extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept; }
extern "C" { extern char __bss_start, _end, __data_start, _edata; }
namespace sim {
#ifdef SIM_PREEMPT
extern void (*g_store_hook)(void*);
#else
static void (*g_store_hook)(void*) = nullptr;
#endif

class Fibers {
public:
    static constexpr int MAX = 4;
    static constexpr size_t STACK = 512 << 10;
    struct Fiber { ucontext_t ctx; TaskState st; __cxxabiv1::__cxa_eh_globals eh; std::function<void()> fn; bool done = false; };
    Fiber f[MAX]; int n = 0, cur = -1;
    ucontext_t home;
    const std::vector<int32_t>* sched = nullptr; size_t at = 0; int64_t gap = 0;
    uint64_t sched_hash = 7, switches = 0, points = 0;
    std::unordered_set<uint64_t>* sigs = nullptr;
    std::map<uintptr_t, std::pair<int, uint64_t>> global_stores;

    static char* stacks() { static char* s = nullptr; if (!s) { void* m = mmap(nullptr, STACK * MAX, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (m == MAP_FAILED) _exit(3); s = (char*)m; } return s; }
    static Fibers*& self() { static Fibers* p = nullptr; return p; }
    void add(int task, std::function<void()> fn) {
        Fiber& x = f[n]; x.fn = fn; x.done = false; x.eh.caughtExceptions = nullptr; x.eh.uncaughtExceptions = 0;
        const int t = W.task; W.task = task; x.st.take(W); x.st.v = Via(); W.task = t;
        getcontext(&x.ctx); x.ctx.uc_stack.ss_sp = stacks() + size_t(n) * STACK; x.ctx.uc_stack.ss_size = STACK; x.ctx.uc_link = nullptr;
        makecontext(&x.ctx, (void (*)())&Fibers::entry, 0);
        ++n;
    }
    static void entry() {
        Fibers& s = *self(); s.f[s.cur].fn();
        s.f[s.cur].done = true;
        s.leave(s.next(s.cur));
    }
    int next(int from) { // the following unfinished task
        for (int i = 1; i <= n; ++i) { int k = (from + i) % n; if (!f[k].done) return k; }
        return -1;
    }
    void pick_gap() { gap = at < sched->size() ? (*sched)[at] >> 2 : INT64_MAX; }
    void enter(int k) {
        cur = k; f[k].st.give(W); auto* g = __cxxabiv1::__cxa_get_globals(); *g = f[k].eh;
    }
    void leave(int to) { // out of a finished task
        if (to < 0) { setcontext(&home); }
        enter(to); setcontext(&f[to].ctx);
    }
    void yield() {
        ++points;
        if (gap-- > 0) return;
        int want = (*sched)[at] & 3; ++at; pick_gap();
        int to = -1; { int k = (cur + 1 + want) % n; to = f[k].done ? next(cur) : k; }
        if (to < 0 || to == cur) return;
        ++switches; ++W.st.switches; W.ev(30, uint64_t(to));
        sched_hash = mix(sched_hash, uint64_t(cur) * 4 + uint64_t(to)); sched_hash = mix(sched_hash, uint64_t(f[to].st.op_index) * 1000 + uint64_t(W.op_index)); sched_hash = mix(sched_hash, points);
        if (sigs && W.phase && f[to].st.phase) { World::Own own; std::hash<std::string> h; sigs->insert(mix(h(W.phase), mix(h(f[to].st.phase), uint64_t(W.window) * 2 + f[to].st.window))); }
        int from = cur; f[from].st.take(W); f[from].eh = *__cxxabiv1::__cxa_get_globals();
        enter(to);
        swapcontext(&f[from].ctx, &f[to].ctx);
    }
    static void hook(void* a) { if (!W.harness) static_cast<Fibers*>(a)->yield(); }
    static void store(void* p) {
        Fibers& s = *self(); if (s.cur < 0) return;
        const uintptr_t a = uintptr_t(p);
        if (W.arena.inside(p)) {
            int b = W.arena.containing(p); if (b < 0) return;
            if (W.arena.blocks[size_t(b)].task != W.task) W.violate(V_SCHED, "task %d writes into block #%d, which belongs to %s", W.task, b, W.arena.blocks[size_t(b)].task == SHARED ? "an object the tasks only read" : "another task");
        } else if ((a >= uintptr_t(&__data_start) && a < uintptr_t(&_edata)) || (a >= uintptr_t(&__bss_start) && a < uintptr_t(&_end))) {
            World::Own own; auto it = s.global_stores.find(a);
            const uint64_t ep = (uint64_t(W.task) << 32) | W.episode;
            if (it == s.global_stores.end()) s.global_stores[a] = {W.task, ep};
            else if (it->second.second != ep) W.violate(V_SCHED, "calls of tasks %d and %d write the same static variable", it->second.first, W.task);
        }
    }
    static constexpr int SHARED = 9;
    void run(const std::vector<int32_t>& sc) {
        sched = &sc; at = 0; pick_gap(); self() = this;
        W.yield_hook = &Fibers::hook; W.yield_arg = this; g_store_hook = &Fibers::store; W.relabel = true;
        TaskState main; main.take(W);
        volatile bool back = false;
        getcontext(&home);
        if (!back) { back = true; enter(0); setcontext(&f[0].ctx); }
        main.give(W); cur = -1; W.yield_hook = nullptr; g_store_hook = nullptr;
        auto* g = __cxxabiv1::__cxa_get_globals(); g->caughtExceptions = nullptr; g->uncaughtExceptions = 0;
    }
};

// A program: the calls of 2 or 3 tasks and the switch decisions. flags bit 0: tasks 0.. only read the containers built by
// the calls marked task 3, while task 2 works on containers of its own; otherwise every task has its own containers.
class FiberDriver : public Driver {
public:
    FiberDriver(std::string n, std::function<std::unique_ptr<Driver>()> mk) : name_(n) { for (auto& d : d_) d = mk(); Fibers::stacks(); }
    std::string name() const override { return name_; }
    std::string family() const override { return d_[0]->family(); }
    const OpInfo* ops(int& n) const override { return d_[0]->ops(n); }
    bool forked() const override { return true; }
    int map_op(int task, int i) const override { if (task == Fibers::SHARED) task = 3; if (task < 0 || task > 3 || i < 0 || size_t(i) >= map_[task].size()) return -1; return map_[task][size_t(i)]; }
    void gen(Rng& r, const Profile& pf, Program& out) override {
        const bool readers = r.chance(1, 4), three = r.chance(1, 3);
        out.flags = uint32_t(readers) | uint32_t(three) << 1;
        int nops; const OpInfo* t = ops(nops); (void)t;
        auto part = [&](int task) {
            Program q; d_[0]->gen(r, pf, q); out.max_elems = q.max_elems;
            for (auto& o : q.ops) {
                o.task = uint8_t(task);
                if (r.chance(1, 6)) { o.fmode = uint8_t(FM_ONCE + r.below(2)); o.fmask = r.chance(1, 2) ? (1u << F_COUNT) - 1 : 1u << r.below(F_COUNT); o.fat = int32_t(r.below(10)); }
                out.ops.push_back(o);
            }
        };
        if (readers) { part(3); if (three) part(2); } else { part(0); part(1); if (three) part(2); }
        resched(r, out);
    }
    void resched(Rng& r, Program& out) override {
        // bursts of switches a few steps apart, anywhere in the run, between stretches without any
        static const int means[] = {1, 3, 8, 30, 120, 500};
        out.sched.clear(); int bursts = 1 + int(r.below(8));
        for (int u = 0; u < bursts; ++u) {
            const int mean = means[r.below(6)]; int k = 2 + int(r.below(40));
            for (int i = 0; i < k; ++i) { int g = i ? int(r.below(uint32_t(mean * 2) + 1)) : int(r.below(r.chance(1, 2) ? 400 : 5000)); out.sched.push_back(g * 4 + int(r.below(3))); }
        }
    }
    void exec(const Program& p, RunObs& o) override {
        Program q[4]; for (auto& m : map_) m.clear();
        for (auto& x : q) x.max_elems = p.max_elems;
        for (size_t i = 0; i < p.ops.size(); ++i) { int t = p.ops[i].task & 3; q[t].ops.push_back(p.ops[i]); map_[t].push_back(int(i)); }
        const bool readers = p.flags & 1; const int own_lo = readers ? 2 : 0, own_hi = (p.flags & 2) ? 3 : 2;
        uint64_t h = 11; std::vector<uint64_t> alone[4], together[4];
        sigjmp_buf* esc = W.escape;
        for (int t = own_lo; t < own_hi; ++t) { // each task alone
            W.begin_run(); W.escape = esc; W.task = t;
            RunObs ro; ro.plain_obs = &alone[t]; ro.sigs = o.sigs; d_[t]->exec(q[t], ro); alone[t].push_back(ro.obs);
            h = mix(h, W.hash);
        }
        W.begin_run();
        Fibers& fb = *new Fibers; fb.sigs = o.sigs; RunObs ro[4], rs;
        struct Snap { const void* p; std::vector<char> b; }; std::vector<Snap> snaps; uint64_t ref[2] = {}, got[2] = {};
        const int nread = readers ? 2 : 0; uint64_t live0 = 0;
        if (readers) {
            W.task = Fibers::SHARED; rs.isolated = false; d_[0]->body(q[3], rs); h = mix(h, W.hash);
            for (int i = 0; i < nread; ++i) { W.task = i; ref[i] = d_[0]->read_task(i); }
            W.phase = "readers";
            auto keep = [&](const void* m, size_t n) { snaps.push_back({m, std::vector<char>((const char*)m, (const char*)m + n)}); };
            d_[0]->each_object(keep);
            for (auto& b : W.arena.blocks) if (b.group != -1 && b.live && b.task == Fibers::SHARED) keep(W.arena.at(b), b.bytes);
            live0 = W.reg.live();
            for (int i = 0; i < nread; ++i) fb.add(i, [&, i] { W.phase = "reader"; for (int k = 0; k < 2; ++k) { got[i] = d_[0]->read_task(i); if (got[i] != ref[i]) W.violate(V_SCHED, "reader %d of a shared container saw something else than alone", i); } });
        }
        for (int t = own_lo; t < own_hi; ++t) {
            ro[t].isolated = false; ro[t].plain_obs = &together[t]; ro[t].sigs = o.sigs;
            fb.add(t, [&, t] { d_[t]->exec(q[t], ro[t]); together[t].push_back(ro[t].obs); });
        }
        fb.run(p.sched);
        W.phase = "comparison"; W.op_index = -1;
        for (int t = own_lo; t < own_hi; ++t) {
            W.task = t;
            for (size_t i = 0; i < alone[t].size() && i < together[t].size(); ++i) if (alone[t][i] != together[t][i]) { W.op_index = int(i); W.violate(V_SCHED, "call %zu of task %d has another result when interleaved than alone", i, t); }
            if (alone[t].size() != together[t].size()) W.violate(V_SCHED, "task %d made %zu calls alone and %zu interleaved", t, alone[t].size(), together[t].size());
        }
        W.task = Fibers::SHARED;
        for (auto& s : snaps) if (memcmp(s.p, s.b.data(), s.b.size()) != 0) W.violate(V_SCHED, "const access changed the memory of a shared container");
        if (W.reg.live() != live0) W.violate(V_SCHED, "%d elements more than before are alive after all tasks ended", int(W.reg.live()) - int(live0));
        if (readers) { d_[0]->conclude(q[3], rs); }
        W.hash = mix(mix(W.hash, h), fb.sched_hash);
        for (int t = own_lo; t < own_hi; ++t) o.obs = mix(o.obs, ro[t].obs);
    }
    bool body(const Program& p, RunObs& o) override { exec(p, o); return true; }
    void conclude(const Program&, RunObs&) override {}
    uint64_t read_task(int) override { return 0; }
    void each_object(const std::function<void(const void*, size_t)>&) override {}
private:
    std::string name_; std::unique_ptr<Driver> d_[3]; std::vector<int> map_[4];
};
}
#endif
