// Driver for the sequence containers: executes a program against real containers
// and a std::vector<Val> model, with every oracle evaluated after every call.
#ifndef SIM_SEQ_HPP
#define SIM_SEQ_HPP
#include "driver.hpp"
#include "seq_codes.hpp"
#include <sfl/vector.hpp>
#include <sfl/small_vector.hpp>
#include <sfl/static_vector.hpp>
#include <sfl/compact_vector.hpp>
#include <sfl/devector.hpp>
#include <sfl/segmented_vector.hpp>
#include <sfl/segmented_devector.hpp>

namespace sim {

enum SeqKind { SK_VECTOR, SK_SMALL, SK_STATIC, SK_COMPACT, SK_DEVECTOR, SK_SEGV, SK_SEGD };



template <class C, class E, class P, SeqKind K, size_t N>
class SeqDriver : public Driver {
public:
    static constexpr bool has_alloc = K != SK_STATIC;
    static constexpr bool has_front = K == SK_DEVECTOR || K == SK_SEGD;
    static constexpr bool segmented = K == SK_SEGV || K == SK_SEGD;
    static constexpr bool one_ended = K == SK_VECTOR || K == SK_SMALL || K == SK_STATIC || K == SK_SEGV;
    static constexpr bool copyable = E::copyable;
    static constexpr bool nt = E::nothrow_move;
    // devector shifts elements in place by moving or assigning them
    static constexpr bool push_claimed = nt || (K != SK_DEVECTOR && copyable);
    static constexpr int NC = 3;
    static constexpr int MAXSZ = segmented ? 48 : 36, BIGSZ = 700;
    using CI = typename C::const_iterator;
    using VV = std::vector<Val>;

    explicit SeqDriver(std::string name, std::string fam) : name_(std::move(name)), fam_(std::move(fam)) {}
    std::string name() const override { return name_; }
    std::string family() const override { return fam_; }
    const OpInfo* ops(int& n) const override { n = S_COUNT; return seq_ops; }

    static bool supported(int code) {
        switch (code) {
        case S_c_alloc: case S_c_n_alloc: case S_c_fill_alloc: case S_c_range_alloc: case S_c_ilist_alloc: case S_c_copy_alloc: case S_c_move_alloc:
            if (!has_alloc) return false; break;
        case S_push_front_c: case S_push_front_m: case S_emplace_front: case S_pop_front: case S_al_push_front: case S_al_emplace_front:
        case S_al_resize_front: case S_al_resize_back: case S_resize_front: case S_resize_front_fill: case S_resize_back: case S_resize_back_fill:
        case S_reserve_front: case S_reserve_back:
            if (!has_front) return false; break;
        case S_reserve: if (has_front || K == SK_STATIC || K == SK_COMPACT) return false; break;
        case S_shrink: if (K == SK_STATIC || K == SK_COMPACT) return false; break;
        case S_burst: case S_drain: if (K == SK_COMPACT) return false; break;
        default: break;
        }
        if (!copyable) switch (code) {
        case S_c_fill: case S_c_fill_alloc: case S_c_range_in: case S_c_range_fwd: case S_c_range_ra: case S_c_range_alloc: case S_c_ilist: case S_c_ilist_alloc:
        case S_c_copy: case S_c_copy_alloc: case S_a_fill: case S_a_range_in: case S_a_range_fwd: case S_a_ilist: case S_a_eq_copy: case S_a_eq_ilist: case S_a_self_copy:
        case S_push_back_c: case S_push_front_c: case S_insert_c: case S_insert_fill: case S_insert_in: case S_insert_fwd: case S_insert_ra: case S_insert_ilist:
        case S_al_push_back: case S_al_emplace_back: case S_al_push_front: case S_al_emplace_front: case S_al_emplace: case S_al_insert: case S_al_insert_fill:
        case S_al_resize: case S_al_resize_front: case S_al_resize_back: case S_a_other: case S_insert_other: case S_resize_fill: case S_resize_front_fill: case S_resize_back_fill:
            return false;
        default: break;
        }
        return true;
    }

    // ------------------------------------------------------------ generation
    // Calls that leave a two-ended container with chosen amounts of room at both ends, then insertions that have to
    // move the elements inside the storage.
    void shape(Rng& r, const Profile& pf, Program& out, int c, uint32_t keyspace) {
        auto add = [&](int code, int a, int b) {
            if (!supported(code)) return;
            Op op; op.code = uint16_t(code); op.c = c; op.a = a; op.b = b; op.d = int32_t(r.below(1u << 16)); op.e = int32_t((int(out.ops.size() + 1) << 8) | int(r.below(keyspace)));
            out.ops.push_back(op);
        };
        const int S = int(r.below(11)), extra = 1 + int(r.below(24)), gap = int(r.below(3)), kind = int(r.below(3));
        add(S_clear, 0, 0);
        if (r.chance(1, 2)) add(S_shrink, 0, 0);
        if (kind != 1) add(S_reserve_back, 0, S + extra);
        if (kind != 0) add(S_reserve_front, 0, kind == 1 ? S + extra : S + int(r.below(3)));
        const bool back = kind != 1;
        for (int k = 0; k < S + gap; ++k) add(back ? (r.chance(1, 2) ? S_push_back_m : S_emplace_back) : (r.chance(1, 2) ? S_push_front_m : S_emplace_front), 0, 0);
        for (int k = 0; k < gap; ++k) add(back ? S_pop_front : S_pop_back, 0, 0);
        static const int ins[] = {S_emplace, S_insert_m, S_insert_mv, S_insert_mv, S_insert_fwd, S_insert_fwd, S_insert_fill, S_insert_fill, S_insert_c, S_push_front_m, S_push_back_m, S_emplace_front, S_emplace_back};
        const int more = 1 + int(r.below(3));
        for (int k = 0; k < more; ++k) {
            int code = ins[r.below(sizeof ins / sizeof *ins)]; if (!supported(code)) code = S_insert_mv;
            out.hot.push_back(int(out.ops.size()));
            add(code, int(r.below(uint32_t(S + 1))), 1 + int(r.below(r.chance(1, 2) ? 4 : 13)));
        }
        (void)pf;
    }
    // Few elements in a large block, a container its elements were moved out of, a container that is exactly full; then
    // transfers from it or calls on it.
    void shape_heap(Rng& r, Program& out, int c, uint32_t keyspace) {
        auto add = [&](int code, int slot, int a, int b, int parity, bool hot) {
            if (!supported(code)) return;
            Op op; op.code = uint16_t(code); op.c = slot; op.a = a; op.b = b; op.d = int32_t(r.below(1u << 15) * 2 + uint32_t(parity)); op.e = int32_t((int(out.ops.size() + 1) << 8) | int(r.below(keyspace)));
            if (hot) out.hot.push_back(int(out.ops.size()));
            out.ops.push_back(op);
        };
        auto any = [&] { return int(r.below(2)); };
        const int scenario = int(r.below(3)), fill = scenario == 2 ? int(r.below(5)) : int(r.below(uint32_t(N % 64) + 6)), keep = int(r.below(uint32_t(fill) + 1));
        if (r.chance(2, 3)) { add(S_clear, c, 0, 0, any(), false); add(S_shrink, c, 0, 0, any(), false); }
        if (scenario == 2) add(S_insert_mv, c, 0, 104 + int(r.below(3)), any(), false); // up to a boundary of its capacity
        for (int k = 0; k < fill; ++k) add(r.chance(1, 2) ? S_push_back_m : S_emplace_back, c, 0, 0, any(), false);
        if (r.chance(1, 2)) add(S_reserve, c, 0, fill + int(r.below(12)), any(), false);
        if (scenario != 2) for (int k = keep; k < fill; ++k) add(S_pop_back, c, 0, 0, any(), false);
        const int to = 1 + any();
        auto transfer = [&](bool hot) {
            static const int tr[] = {S_c_move_alloc, S_c_move_alloc, S_c_move, S_a_eq_move, S_a_eq_move, S_c_copy_alloc, S_c_copy, S_a_eq_copy, S_a_eq_copy, S_swap, S_swap, S_swap_free};
            int code = tr[r.below(sizeof tr / sizeof *tr)]; if (!supported(code)) code = S_a_eq_move;
            add(code, (c + to) % NC, 0, 0, to == 1 ? 1 : 0, hot);
        };
        static const int use[] = {S_emplace, S_insert_m, S_insert_c, S_insert_mv, S_insert_fwd, S_insert_fill, S_push_back_m, S_push_back_c, S_emplace_back, S_push_front_m, S_a_fill, S_a_range_fwd, S_a_range_mv, S_a_range_in, S_resize, S_resize_fill, S_reserve, S_shrink, S_insert_in, S_insert_inmv, S_insert_ilist, S_reserve_front, S_reserve_back};
        auto call = [&] { int code = use[r.below(sizeof use / sizeof *use)]; if (!supported(code)) code = S_push_back_m; add(code, c, int(r.below(64)), int(r.below(uint32_t(N % 64) + 5)), any(), true); };
        if (scenario == 0) { transfer(true); if (r.chance(1, 2)) transfer(true); }
        else if (scenario == 1) { add(r.chance(1, 2) ? S_c_move : S_a_eq_move, (c + to) % NC, 0, 0, to == 1 ? 1 : 0, r.chance(1, 3)); call(); if (r.chance(1, 2)) call(); }
        else { call(); if (r.chance(1, 3)) transfer(true); }
    }
    void gen(Rng& r, const Profile& pf, Program& out) override {
        int n = pf.min_ops + int(r.below(uint32_t(pf.max_ops - pf.min_ops + 1)));
        std::vector<int> w(S_COUNT, 0);
        bool uniform = r.chance(1, 4);
        for (int i = 0; i < S_COUNT; ++i) {
            if (!supported(i)) continue;
            if (pf.only != OC_ANY && !(seq_ops[i].cls & pf.only)) { if (!r.chance(1, 6)) continue; }
            int base = uniform ? 4 : seq_ops[i].weight;
            if (!r.chance(3, 4)) { if (r.chance(1, 2)) base = 0; else base *= 3; } // swarm
            if (seq_ops[i].cls & pf.boost) base *= pf.boost_factor;
            w[i] = base;
        }
        if (pf.boost & OC_BURST && supported(S_burst)) w[S_burst] = 20;
        // something must be able to fill containers
        if (K != SK_STATIC || N > 0) { w[S_push_back_m] += 4; w[S_emplace_back] += 4; if (has_front) w[S_push_front_m] += 3; }
        int tot = 0; for (int x : w) tot += x;
        bool limit = pf.limit_pct && r.chance(uint32_t(pf.limit_pct), 100) && has_alloc && !P::min;
        out.max_elems = limit ? int64_t((K == SK_SMALL ? N : 3) + r.below(22)) : 0;
        out.big = r.chance(1, pf.big_den);
        const bool deep = !limit && !out.big && supported(S_burst) && r.chance(1, 24); // far more elements, then far fewer
        int focus = r.chance(1, 2) ? int(r.below(NC)) : -1; // most calls on one container
        uint32_t keyspace = r.chance(1, 3) ? 4 : 40;
        const int shaping2 = K != SK_STATIC && r.chance(1, 3) ? 7 : 0;
        const int shaping = !has_front ? 0 : r.chance(1, K == SK_DEVECTOR ? 2 : 4) ? 7 : 0; // in such a program every 7th step or so prepares free room at chosen ends first
        if (deep) {
            const int c = focus >= 0 ? focus : int(r.below(NC)); out.big = true;
            for (int code : {int(S_burst), int(S_drain)}) { Op op; op.code = uint16_t(code); op.c = c; op.a = int32_t(r.below(64)); op.b = int32_t(r.below(8)); op.d = int32_t(r.below(1u << 16)); op.e = int32_t((int(out.ops.size() + 1) << 8) | int(r.below(keyspace))); if (code == S_burst || r.chance(2, 3)) { if (code == S_drain) out.hot.push_back(int(out.ops.size())); out.ops.push_back(op); } }
        }
        for (int i = 0; i < n; ++i) {
            if (shaping2 && r.chance(1, uint32_t(shaping2))) { shape_heap(r, out, int(focus >= 0 ? focus : int(r.below(NC))), keyspace); i += 4; continue; }
            if (shaping && r.chance(1, uint32_t(shaping))) { shape(r, pf, out, int(focus >= 0 ? focus : int(r.below(NC))), keyspace); i += 4; continue; }
            int t = int(r.below(uint32_t(tot))), code = 0;
            while (t >= w[code]) { t -= w[code]; ++code; }
            Op op; op.code = uint16_t(code);
            op.c = (focus >= 0 && r.chance(4, 5)) ? focus : int(r.below(NC));
            uint32_t big = r.below(8);
            op.a = int32_t(r.below(1u << 20));
            op.b = big == 0 ? int32_t(r.below(40)) : big < 3 ? int32_t(r.below(16)) : int32_t(r.below(6));
            if (out.big && r.chance(1, 4)) op.b = 200 + int32_t(r.below(400)); // now and then large amounts
            else if (r.chance(1, 5)) op.b = 100 + int32_t(r.below(pf.huge_pct && r.chance(uint32_t(pf.huge_pct), 100) ? 24 : 16)); // an amount next to a boundary of the container (100..115) or far above every limit (116..123), see step()
            op.d = int32_t(r.below(1u << 16));
            op.e = int32_t(((i + 1) << 8) | int(r.below(keyspace)));
            out.ops.push_back(op);
        }
    }

    // ------------------------------------------------------------- execution
    struct Slot { C* c = nullptr; int blk = -1; VV m; int alloc = 0; };
    struct Snap { std::vector<const void*> addr; size_t cap = 0; size_t af = 0, ab = 0; bool heap = false; };
    struct Exp {
        uint32_t touched = 0;
        VV want[NC]; bool has_want[NC] = {};
        int want_alloc[NC] = {-1, -1, -1};
        int flex = -1; VV flex_fill;           // devector resize: fill values may go to both ends of slot `flex`
        bool strong = false, push = false, nothrow = false, fits = false, exceeds = false, limit_strong = false, no_elem_ops = false, range_err = false;
        bool no_limit_claim = false;
        bool stream = false, cap_free = false;
        size_t pos = 0, cnt = 0;               // where and how much is inserted or erased
        VKind kind = V_MODEL;
        VV given;                              // values the caller supplied
        struct Keep { int slot; size_t idx; const void* addr; }; std::vector<Keep> keep; bool keep_needs_cap = false; bool keep_on_fail = false;
        int cap_keep = -1;                     // slot whose capacity must not change (on success)
        int new_slot = -1;
        int min_cap = -1; size_t min_cap_v = 0, min_front = 0, min_back = 0;
    };

    Slot s_[NC];
    RunObs* o_ = nullptr;
    int harness_live_ = 0;

    static int alloc_id(const C& c) { if constexpr (has_alloc) return c.get_allocator().id(); else return 0; }
    static size_t cap_of(const C& c) { return c.capacity(); }

    template <class... A> void place(int i, A&&... a) { ::new ((void*)s_[i].c) C(std::forward<A>(a)...); }
    void raw_slot(int i) {
        s_[i].c = (C*)W.arena.alloc(sizeof(C), 1, sizeof(C), alignof(C), -1);
        s_[i].blk = W.arena.find(s_[i].c);
    }
    void drop_slot(int i) {
        s_[i].c = nullptr;
        if (s_[i].blk >= 0) { W.arena.released(s_[i].blk); }
        s_[i].blk = -1; s_[i].m.clear();
    }
    void ensure(int i) {
        if (s_[i].c) return;
        raw_slot(i);
        if constexpr (has_alloc) {
            using A = typename C::allocator_type;
            A al(i % 2 + 1);
            place(i, al);
        } else place(i);
        s_[i].m.clear(); s_[i].alloc = alloc_id(*s_[i].c);
    }
    void destroy(int i, const Op& op, bool faults) {
        if (!s_[i].c) return;
        W.phase = "destructor";
        C* c = s_[i].c;
        Outcome r = guarded(op, faults, [&] { c->~C(); });
        if (r != O_OK) W.violate(V_NOTHROW, "destructor let an exception out");
        if (W.op_alloc_attempts) W.soft(V_CAPACITY, "destructor allocates");
        if (!W.arena.guards_ok(W.arena.blocks[s_[i].blk])) W.violate(W.mk(V_ALLOC), "memory next to a container object was overwritten");
        drop_slot(i);
        W.phase = "";
    }

    Snap snap(int i) {
        Snap s; if (!s_[i].c) return s;
        const C& c = *s_[i].c;
        for (CI it = c.begin(); it != c.end(); ++it) s.addr.push_back(&*it);
        s.cap = cap_of(c);
        if constexpr (has_front) { s.af = c.available_front(); s.ab = c.available_back(); }
        else s.ab = c.available();
        s.heap = is_heap(i);
        return s;
    }
    bool is_heap(int i) {
        if constexpr (K == SK_STATIC) return false;
        else if constexpr (K == SK_SMALL) {
            const C& c = *s_[i].c;
            const char* d = (const char*)c.data(); const char* lo = (const char*)s_[i].c;
            return d != nullptr && !(d >= lo && d < lo + sizeof(C));
        } else return true;
    }

    static VV values_of(const Op& op, int n) {
        VV v; for (int i = 0; i < n; ++i) v.push_back(Val{umod((op.e & 0xff) + i * 7, 64), (op.e >> 8) * 2048 + i}); return v;
    }
    static E mk(const Val& v) { return E(v.key, v.tag); }

    // holds harness-owned elements in a plain array
    struct Arr {
        E* p = nullptr; size_t n = 0; void* raw = nullptr;
        explicit Arr(const VV& v) { raw = aligned_alloc(OA_ALIGN, (sizeof(E) * (v.size() + 1) + OA_ALIGN - 1) / OA_ALIGN * OA_ALIGN); p = (E*)raw; for (auto& x : v) { ::new ((void*)(p + n)) E(x.key, x.tag); ++n; } }
        ~Arr() { for (size_t i = 0; i < n; ++i) p[i].~E(); free(raw); }
        Arr(const Arr&) = delete;
    };
    template <class Cat, RefMode RM, class F> Outcome with_range(const Op& op, bool faults, const VV& v, Exp& x, F f) {
        Arr a(v); Stream<E> st; st.data = a.p; st.n = a.n; st.single = std::is_same<Cat, std::input_iterator_tag>::value;
        using It = SrcIt<E, Cat, RM>;
        x.stream = true;
        Outcome r = guarded(op, faults, [&] { f(It(&st, 0), It(&st, st.n)); });
        if (r == O_OK) {
            if (st.single && st.pos != st.n) W.soft(V_STREAM, "single-pass input left at item %zu of %zu after success", st.pos, st.n);
            if (st.maxread != st.n) W.soft(V_STREAM, "only %zu of %zu items of the range were read", st.maxread, st.n);
        }
        return r;
    }
    // a range of a segmented container whose segments have another length
    template <RefMode RM, class F> Outcome with_segments(const Op& op, bool faults, const VV& v, F f) {
        using S = sfl::segmented_vector<E, 3, SimAlloc<E, PolMin>>;
        Op none; S* s = nullptr; Outcome r = O_OK; const int save = W.oom_left; W.oom_left = 0;
        guarded(none, false, [&] { s = (S*)aligned_alloc(OA_ALIGN, (sizeof(S) + OA_ALIGN - 1) / OA_ALIGN * OA_ALIGN); ::new ((void*)s) S(typename S::allocator_type(90)); for (size_t k = 0; k < (op.d >> 8) % 3u; ++k) s->emplace_back(0, 0); for (auto& x : v) s->emplace_back(x.key, x.tag); });
        W.oom_left = save;
        auto b = s->begin() + std::ptrdiff_t((op.d >> 8) % 3u), e = s->end();
        if constexpr (RM == RM_MOVE) r = guarded(op, faults, [&] { f(std::make_move_iterator(b), std::make_move_iterator(e)); });
        else r = guarded(op, faults, [&] { f(typename S::const_iterator(b), typename S::const_iterator(e)); });
        keep_op_.save(); const int left = W.oom_left; W.oom_left = 0;
        s->~S(); free(s);
        W.oom_left = left; keep_op_.restore();
        return r;
    }
    struct KeepOp { uint64_t v[OPC]; void save() { const uint64_t* q = &W.op_allocs; for (int i = 0; i < OPC; ++i) v[i] = q[i]; } void restore() { uint64_t* q = &W.op_allocs; for (int i = 0; i < OPC; ++i) q[i] = v[i]; } } keep_op_;
    template <class F> Outcome with_ilist(const Op& op, bool faults, const VV& v, F f) {
        switch (v.size()) {
        case 0: { std::initializer_list<E> il = {}; return guarded(op, faults, [&] { f(il); }); }
        case 1: { std::initializer_list<E> il = {mk(v[0])}; return guarded(op, faults, [&] { f(il); }); }
        case 2: { std::initializer_list<E> il = {mk(v[0]), mk(v[1])}; return guarded(op, faults, [&] { f(il); }); }
        default: { std::initializer_list<E> il = {mk(v[0]), mk(v[1]), mk(v[2])}; return guarded(op, faults, [&] { f(il); }); }
        }
    }

    // ---- full comparison of a container with its model ----
    void check_slot(int i, const VV& want, VKind kind, const char* where) {
        ++W.st.checks;
        const C& c = *s_[i].c;
        size_t n = c.size();
        if (n > size_t(4 * BIGSZ)) W.violate(V_BASIC, "%s: container %d reports size %zu", where, i, n);
        int own = alloc_id(c);
        size_t k = 0;
        CI it = c.begin(), en = c.end();
        const void* prev = nullptr; (void)prev;
        for (; it != en; ++it, ++k) {
            if (k >= n) W.violate(kind, "%s: container %d iterates past size() = %zu", where, i, n);
            const E& e = *it;
            Val v = e.peek();
            int b = W.arena.containing(&e);
            if (b < 0) W.violate(W.mk(V_ALLOC), "%s: container %d holds an element outside its storage", where, i);
            const Block& bl = W.arena.blocks[b];
            if (!bl.live) W.violate(W.mk(V_ALLOC), "%s: container %d holds an element in released storage", where, i);
            if (bl.group == -1) { if (b != s_[i].blk) W.violate(V_ALLOC, "%s: container %d holds an element inside another container object", where, i); }
            else if (bl.group != own) W.violate(V_ALLOC, "%s: container %d (allocator %d) holds storage of allocator %d", where, i, own, bl.group);
            if (k >= want.size() || v != want[k]) mismatch(i, want, kind, where);
        }
        if (k != n || n != want.size()) mismatch(i, want, kind, where);
        if (c.empty() != want.empty()) W.violate(kind, "%s: container %d empty() wrong", where, i);
        size_t cap = cap_of(c);
        if (cap < n) W.soft(V_CAPACITY, "%s: container %d capacity %zu below size %zu", where, i, cap, n);
        if constexpr (!segmented) { if (cap > c.max_size() && K != SK_SMALL) W.soft(V_LIMIT, "%s: container %d capacity %zu above max_size %zu", where, i, cap, size_t(c.max_size())); }
        if constexpr (K == SK_COMPACT) { if (cap != n) W.soft(V_CAPACITY, "compact_vector capacity %zu differs from size %zu", cap, n); }
        if constexpr (K == SK_STATIC) { if (cap != N || c.max_size() != N || c.full() != (n == N)) W.soft(V_CAPACITY, "static capacity/full wrong"); }
        if constexpr (has_front) { if (c.available_front() + c.available_back() + n != cap) W.soft(V_CAPACITY, "%s: available_front %zu + available_back %zu + size %zu != capacity %zu", where, size_t(c.available_front()), size_t(c.available_back()), n, cap); }
        else { if (c.available() != cap - n) W.soft(V_CAPACITY, "%s: available() %zu != capacity %zu - size %zu", where, size_t(c.available()), cap, n); }
    }
    [[noreturn]] void mismatch(int i, const VV& want, VKind kind, const char* where) {
        std::string a = "[", b = "[";
        const C& c = *s_[i].c; size_t k = 0;
        for (CI it = c.begin(); it != c.end() && k < 60; ++it, ++k) { char t[40]; snprintf(t, sizeof t, "%d/%d ", (*it).key(), (*it).tag()); b += t; }
        for (auto& v : want) { char t[40]; snprintf(t, sizeof t, "%d/%d ", v.key, v.tag); a += t; }
        W.violate(kind, "%s: container %d expected %s] but holds %s]", where, i, a.substr(0, 400).c_str(), b.substr(0, 400).c_str());
    }
    // accessor agreement with the model: const members only (also used by concurrent readers)
    void check_access_const(int i, const VV& want) {
        const C& cc = *s_[i].c;
        const size_t n = want.size();
        auto bad = [&](const char* w, size_t k) { W.violate(V_RETURN, "container %d: const %s disagrees with the sequence at %zu of %zu", i, w, k, n); };
        auto eq = [&](const E& e, size_t k) { return e.peek() == want[k]; };
        if (cc.size() != n || cc.empty() != (n == 0)) bad("size", 0);
        if (n) { if (!eq(cc.front(), 0)) bad("front", 0); if (!eq(cc.back(), n - 1)) bad("back", n - 1); }
        for (size_t k = 0; k < n; ++k) {
            const E* p = &cc[k];
            if (!eq(*p, k)) bad("operator[]", k);
            if (&cc.at(k) != p) bad("at", k);
            if (&*cc.nth(k) != p) bad("nth", k);
            if (size_t(cc.index_of(cc.nth(k))) != k) bad("index_of", k);
            if (&*(cc.begin() + k) != p || &*(cc.cbegin() + k) != p) bad("begin()+k", k);
            if (&cc.begin()[k] != p) bad("iterator[]", k);
            if (&*(cc.end() - (n - k)) != p) bad("end()-k", k);
            if (size_t(cc.end() - cc.nth(k)) != n - k || size_t(cc.nth(k) - cc.begin()) != k) bad("iterator difference", k);
            if (&*(cc.rbegin() + k) != &cc[n - 1 - k] || &*(cc.crbegin() + k) != &cc[n - 1 - k]) bad("rbegin()+k", k);
            if constexpr (!segmented) { if (cc.data() + k != p) bad("data", k); }
        }
        if (cc.nth(n) != cc.end()) bad("nth(size)", n);
        { CI it = cc.end(); size_t k = n; while (it != cc.begin()) { --it; --k; if (!eq(*it, k)) bad("--iterator", k); } if (k != 0) bad("--iterator", k); }
        { auto it = cc.rbegin(); size_t k = n; for (; it != cc.rend(); ++it) { --k; if (!eq(*it, k)) bad("reverse iterator", k); } if (k != 0) bad("reverse iterator", k); }
        for (size_t a = 0; a <= n; a += 1 + n / 5) for (size_t b = 0; b <= n; b += 1 + n / 4) {
            CI x = cc.nth(a), y = cc.nth(b);
            if ((x < y) != (a < b) || (x > y) != (a > b) || (x <= y) != (a <= b) || (x >= y) != (a >= b) || (x == y) != (a == b) || (x != y) != (a != b)) bad("iterator comparison", a);
            if (y - x != std::ptrdiff_t(b) - std::ptrdiff_t(a)) bad("iterator difference", a);
            CI z = x; z += std::ptrdiff_t(b) - std::ptrdiff_t(a); if (z != y) bad("iterator +=", b);
            z -= std::ptrdiff_t(b) - std::ptrdiff_t(a); if (z != x) bad("iterator -=", a);
        }
        if (std::ptrdiff_t(n) != cc.end() - cc.begin() || cc.cend() != cc.end()) bad("end-begin", n);
        iterator_laws(cc, n, bad);
        if (n && (cc.rbegin().base() != cc.end() || cc.rend().base() != cc.begin() || cc.crend() - cc.crbegin() != std::ptrdiff_t(n))) bad("reverse iterator base", n);
    }
    void check_access(int i, const VV& want) {
        check_access_const(i, want);
        C& c = *s_[i].c; const C& cc = c;
        const size_t n = want.size();
        auto bad = [&](const char* w, size_t k) { W.violate(V_RETURN, "container %d: %s disagrees with the sequence at %zu of %zu", i, w, k, n); };
        auto eq = [&](const E& e, size_t k) { return e.peek() == want[k]; };
        if (n) { if (!eq(c.front(), 0)) bad("front", 0); if (!eq(c.back(), n - 1)) bad("back", n - 1); }
        for (size_t k = 0; k < n; ++k) {
            const E* p = &cc[k];
            if (&c[k] != p) bad("operator[]", k);
            if (&c.at(k) != p) bad("at", k);
            if (&*c.nth(k) != p) bad("nth", k);
            if (size_t(c.index_of(c.nth(k))) != k) bad("index_of", k);
            if (&*(c.begin() + k) != p) bad("begin()+k", k);
            if (&c.begin()[k] != p) bad("iterator[]", k);
            if (&*(c.end() - (n - k)) != p) bad("end()-k", k);
            if (&*(c.rbegin() + k) != &cc[n - 1 - k]) bad("rbegin()+k", k);
            if constexpr (!segmented) { if (c.data() + k != p) bad("data", k); }
        }
        if (c.nth(n) != c.end() || size_t(c.index_of(c.end())) != n || c.cbegin() != cc.begin()) bad("nth(size)", n);
        { auto it = c.begin(); for (size_t k = 0; k < n; ++k) { auto j = it++; if (!eq(*j, k)) bad("iterator++", k); } if (it != c.end()) bad("end", n); for (size_t k = n; k-- > 0;) { auto j = it--; (void)j; if (!eq(*it, k)) bad("iterator--", k); } }
        iterator_laws(c, n, bad);
        for (size_t a = 0; a <= n; a += 1 + n / 3) for (size_t b = 0; b <= n; b += 1 + n / 3) {
            auto u = c.nth(a); u += std::ptrdiff_t(b) - std::ptrdiff_t(a); if (u != c.nth(b)) bad("iterator +=", b);
            u -= std::ptrdiff_t(b) - std::ptrdiff_t(a); if (u != c.nth(a) || u - c.nth(b) != std::ptrdiff_t(a) - std::ptrdiff_t(b)) bad("iterator -=", b);
        }
    }

    static bool moved_any(const VV& v) { for (auto& x : v) if (x.moved()) return true; return false; }
    VV read(int i) { VV v; const C& c = *s_[i].c; size_t n = c.size(); size_t k = 0; for (CI it = c.begin(); it != c.end(); ++it) { if (++k > n + 4) break; v.push_back((*it).peek()); } return v; }

    void global_checks(const char* where) {
        if (!o_->isolated) return;
        size_t n = 0; if (E::tracked) for (auto& s : s_) if (s.c) n += s.c->size();
        if (W.reg.live() != n) W.violate(V_LIFETIME, "%s: %u elements are alive but the containers hold %zu", where, W.reg.live(), n);
    }

    // ---- the work a call may do: construction, assignment, comparison of elements, allocation ----
    void check_cost(const Op& op, Outcome r, const Exp& x, const Snap* before) {
        if (r == O_OTHER || !(W.enabled >> V_COST & 1)) return;
        const int i = umod(op.c, NC), j = umod(op.c + 1 + umod(op.d, NC - 1), NC), code = op.code;
        const uint64_t n0 = before[i].addr.size(), n1 = before[j].addr.size(), n = x.cnt, pos = x.pos, tail = n0 - std::min(n0, pos);
        const uint64_t work = W.op_ctor + W.op_assigns, slack = r == O_OK ? 1 : 2;
        auto most = [&](uint64_t did, uint64_t may, const char* what) { if (did > may * slack) W.soft(V_COST, "%llu %s where %llu are enough (sizes %llu and %llu, %llu at %llu)", (unsigned long long)did, what, (unsigned long long)may, (unsigned long long)n0, (unsigned long long)n1, (unsigned long long)n, (unsigned long long)pos); };
        const bool input = code == S_insert_in || code == S_insert_inmv || code == S_a_range_in || code == S_a_range_inmv || code == S_c_range_in || (code == S_c_range_mv && (op.d & 1)) || (code == S_c_range_alloc && (op.d & 4));
        if (x.new_slot >= 0 && r != O_OK) return;
        const size_t cap1 = s_[i].c ? cap_of(*s_[i].c) : 0;
        const bool grew = K == SK_COMPACT || (!segmented && (cap1 != before[i].cap || (r != O_OK && !x.fits)));
        if (K == SK_COMPACT && input) return; // one element at a time, and every one of them moves house
        uint64_t lg = 1; while ((1ull << lg) < n0 + n + 2) ++lg; // capacities grow by a factor of 1.5 or more
        const uint64_t steps = segmented ? 4 * (n / N + 2) + 2 * lg + 6 : 2 * lg + 8;
        uint64_t elems = ~0ull, calls = 0, allocs = segmented ? ~0ull : 1;
        const uint32_t cls = seq_ops[code].cls;
        const bool ins = (cls & (OC_END | OC_MID)) && !(cls & OC_BURST);
        if (ins) {
            const bool room2 = segmented || (before[i].af >= n && before[i].ab >= n);
            const uint64_t dist = cls & OC_END ? 0 : one_ended || K == SK_COMPACT ? tail : room2 ? std::min<uint64_t>(pos, tail) : n0;
            elems = 4 * n + 3 * dist + 12;
            if (K == SK_DEVECTOR && cls & OC_END && !x.fits) elems += 3 * n0; // may shift inside the storage
            if (grew) elems += 2 * n0;
            if (input) { elems += 8 * n + 3 * dist + 3 * n0 * !segmented; allocs = steps; }
            else if (segmented) allocs = 2 * (n / N + 2) + 4;
        } else if (cls & OC_CTOR) {
            const uint64_t m = code >= S_c_copy ? n1 : code == S_c_default || code == S_c_alloc ? 0 : s_[i].c ? s_[i].c->size() : ~0ull >> 8;
            elems = (input ? 5 : 1) * m + 4; if (input) { uint64_t l2 = 1; while ((1ull << l2) < std::min<uint64_t>(m, 1 << 20) + 2) ++l2; allocs = segmented ? ~0ull : 2 * l2 + 8; }
        } else if (cls & OC_ASSIGN) {
            const uint64_t m = code == S_a_eq_copy || code == S_a_eq_move || code == S_a_self_copy || code == S_a_self_move ? n1 + (i == j || code >= S_a_self_copy ? n0 : 0) : x.given.size() == 1 && code == S_a_fill ? (r == O_OK ? s_[i].c->size() : ~0ull >> 8) : x.given.size();
            elems = (input ? 6 : 2) * m + 8; if (input) { uint64_t l2 = 1; while ((1ull << l2) < std::min<uint64_t>(m, 1 << 20) + 2) ++l2; allocs = segmented ? ~0ull : 2 * l2 + 8; }
        } else if (cls & OC_POP) elems = K == SK_COMPACT ? 2 * n0 + 8 : 0;
        else if (code == S_erase_pos || code == S_erase_range) { elems = K == SK_COMPACT ? 2 * n0 + 8 : 2 * (has_front ? std::min<uint64_t>(pos, n0 - pos - n) : n0 - pos - n) + 4; allocs = K == SK_COMPACT; }
        else if (code == S_erase_value || code == S_erase_if) { elems = 3 * n0 + 8; calls = n0 + 2; allocs = K == SK_COMPACT; }
        else if (cls & OC_RESIZE) { // with its aliased forms
            const uint64_t n2 = r == O_OK ? s_[i].c->size() : ~0ull >> 8;
            if (n2 > n0) { elems = 2 * (n2 - n0) + 8; if (grew) elems += 2 * n0; if (K == SK_DEVECTOR && !x.fits) elems += 3 * n0; } else elems = K == SK_COMPACT ? 2 * n0 + 8 : 2;
        } else if (cls & OC_CAP) elems = segmented ? 0 : 2 * n0 + 4;
        else if (cls & (OC_CLEAR)) { elems = 0; allocs = 0; }
        else if (cls & OC_SWAP) { elems = before[i].heap && before[j].heap ? 0 : code == S_self_swap ? 3 * n0 + 4 : 3 * (n0 + n1) + 4; allocs = 0; }
        else if (code == S_compare) { elems = 0; calls = 8 * std::min(n0, n1) + 8 + (n0 == n1 ? 2 * n0 + 2 : 0); allocs = 0; }
        else if (code == S_access || code == S_at_bad) { elems = 0; allocs = 0; }
        else if (code == S_mutate) { elems = 2; allocs = 0; }
        else if (code == S_burst) {
            const uint64_t k = n + n0;
            elems = segmented ? 2 * n + 8 : 12 * k + 32; allocs = segmented ? 2 * n / N + 3 * lg + 12 : 4 * lg + 6;
            if (!(op.d & 4)) most(W.op_alloc_elems, 20 * k + 64 + 16 * N, "elements' worth of memory obtained");
        } else return;
        most(work, elems, "element constructions and assignments");
        if (code != S_algo) most(W.op_calls, calls, "comparisons or predicate calls");
        most(W.op_alloc_attempts, allocs, "allocations");
    }

    // ---- shared epilogue of every call ----
    void finish(const Op& op, int idx, Outcome r, Exp& x, const Snap* before, const std::string& what, uint32_t live_blocks_before) {
        const char* nm = seq_ops[op.code].name;
        if (W.op_index != idx) W.op_index = idx;
        W.phase = nm;
        uint64_t sig = mix(op.code, uint64_t(r) * 31 + uint64_t(r == O_FAULT ? W.last_fault_kind : 0));
        // exceptions
        if (r == O_OTHER && !W.fired_in_op) W.violate(V_UNEXPECTED, "an unexpected exception came out: %s", what.c_str());
        if (r == O_OTHER) W.violate(V_NEUTRAL, "an exception other than the injected one came out: %s", what.c_str());
        if (r == O_OK && W.fired_in_op) W.violate(V_NEUTRAL, "the injected %s failure was swallowed", fault_names[W.last_fault_kind]);
        if ((r == O_LENGTH || r == O_RANGE) && W.fired_in_op) W.violate(V_NEUTRAL, "the injected %s failure was replaced by %s", fault_names[W.last_fault_kind], outcome_names[r]);
        if (r == O_LENGTH && !x.exceeds && !x.no_limit_claim) W.violate(V_LIMIT, "length_error (%s) although max_size() is not exceeded", what.c_str());
        if (r == O_OK && x.exceeds) W.violate(V_LIMIT, "max_size() exceeded without length_error");
        if (r == O_RANGE && !x.range_err) W.violate(V_LIMIT, "unexpected out_of_range");
        if (r == O_OK && x.range_err) W.violate(V_LIMIT, "out_of_range not reported");
        if (r == O_FAULT && x.nothrow) W.violate(V_NOTHROW, "exception came out of a call that must not throw");
        if (x.fits) {
            if (W.op_alloc_attempts) W.soft(V_CAPACITY, "allocation attempted although the call fits into the available capacity");
        }
        if constexpr (K == SK_STATIC) { if (r == O_OK && W.op_news) W.soft(V_CAPACITY, "static container used dynamic memory"); }
        else { if (r == O_OK && W.op_news) W.violate(V_ALLOC, "memory obtained outside the allocator"); }
        if constexpr (K == SK_SMALL) { if (W.op_alloc_attempts && W.op_alloc_max <= N) W.soft(V_CAPACITY, "small container allocated for %llu elements although N = %zu", (unsigned long long)W.op_alloc_max, N); }

        check_cost(op, r, x, before);
        if (x.new_slot >= 0 && r != O_OK) {
            int i = x.new_slot;
            W.arena.released(s_[i].blk); s_[i].c = nullptr; s_[i].blk = -1; s_[i].m.clear();
            if (o_->isolated && W.arena.live_blocks - 0 != live_blocks_before) W.violate(V_ALLOC, "failed constructor left %d blocks allocated", int(W.arena.live_blocks) - int(live_blocks_before));
        }
        if (r == O_OK) {
            if (x.no_elem_ops && (W.op_copies || W.op_moves)) W.soft(V_TRANSFER, "storage transfer copied or moved %llu elements", (unsigned long long)(W.op_copies + W.op_moves));
            for (int i = 0; i < NC; ++i) if (s_[i].c) {
                if (!(x.touched >> i & 1)) { check_slot(i, s_[i].m, V_MODEL, "untouched container"); continue; }
                if (x.flex == i) {
                    VV got = read(i); size_t f = x.flex_fill.size(), on = s_[i].m.size(); bool ok = got.size() == f + on;
                    bool any = false;
                    for (size_t lead = 0; ok && lead <= f && !any; ++lead) {
                        bool m = true;
                        for (size_t k = 0; m && k < got.size(); ++k) {
                            const Val& e = k < lead ? x.flex_fill[0] : k < lead + on ? s_[i].m[k - lead] : x.flex_fill[0];
                            if (got[k] != e) m = false;
                        }
                        any = m;
                    }
                    if (!ok || !any) { VV w = s_[i].m; w.insert(w.end(), x.flex_fill.begin(), x.flex_fill.end()); mismatch(i, w, x.kind, "after call (fill may be at both ends)"); }
                    x.want[i] = got; x.has_want[i] = true;
                    // elements that stayed keep their address (segmented)
                }
                if (x.has_want[i]) { check_slot(i, x.want[i], x.kind, "after call"); s_[i].m = x.want[i]; }
                else { s_[i].m = read(i); check_slot(i, s_[i].m, V_BASIC, "after call"); }
                int id = alloc_id(*s_[i].c);
                int wid = x.want_alloc[i] >= 0 ? x.want_alloc[i] : (i == x.new_slot ? id : s_[i].alloc);
                if (id != wid) W.violate(V_PROPAGATE, "container %d has allocator %d, expected %d", i, id, wid);
                s_[i].alloc = id;
            }
            if (x.cap_keep >= 0 && cap_of(*s_[x.cap_keep].c) != before[x.cap_keep].cap) W.soft(V_CAPACITY, "capacity changed from %zu to %zu", before[x.cap_keep].cap, cap_of(*s_[x.cap_keep].c));
            if (x.min_cap >= 0) {
                const C& c = *s_[x.min_cap].c;
                if (cap_of(c) < x.min_cap_v) W.soft(V_STRONG, "capacity %zu after reserve(%zu)", cap_of(c), x.min_cap_v);
                if constexpr (has_front) { if (c.available_front() < x.min_front || c.available_back() < x.min_back) W.soft(V_STRONG, "reserved space not available"); }
            }
        } else {
            ++W.st.ops_failed;
            VV old[NC]; for (int i = 0; i < NC; ++i) if (x.touched >> i & 1) old[i] = s_[i].m;
            for (int i = 0; i < NC; ++i) if (s_[i].c) {
                if (!(x.touched >> i & 1)) { check_slot(i, s_[i].m, V_BASIC, "untouched container after failure"); continue; }
                bool must_same = (r == O_FAULT && (x.strong || x.push)) || (r == O_LENGTH && x.limit_strong) || r == O_RANGE;
                VKind k = r == O_LENGTH || r == O_RANGE ? V_LIMIT : x.strong ? V_STRONG : V_PUSH;
                if (must_same) {
                    check_slot(i, s_[i].m, k, "after failed call");
                    if (x.strong || r != O_FAULT) {
                        Snap a = snap(i);
                        if ((a.cap != before[i].cap && !x.cap_free) || a.addr != before[i].addr) W.violate(k, "failed call changed capacity or element addresses (capacity %zu -> %zu)", before[i].cap, a.cap);
                        if (alloc_id(*s_[i].c) != s_[i].alloc) W.violate(k, "failed call changed the allocator");
                    }
                } else {
                    VV got = read(i);
                    check_slot(i, got, V_BASIC, "after failed call");
                    if (got.size() != s_[i].c->size()) W.violate(V_BASIC, "size() %zu but %zu elements iterated", size_t(s_[i].c->size()), got.size());
                    // nothing invented
                    for (auto& v : got) if (!v.moved()) {
                        bool found = false;
                        for (int j = 0; j < NC && !found; ++j) if (x.touched >> j & 1) for (auto& u : old[j]) if (u == v) { found = true; break; }
                        if (!found) for (auto& u : x.given) if (u == v) { found = true; break; }
                        if (!found) W.violate(V_BASIC, "after failure container %d holds %d/%d which nobody put there", i, v.key, v.tag);
                    }
                    if (nt && x.stream && E::kind != EK_TR) for (auto& g : x.given) { // (a trivial element that was moved from still has its value)
                        int have = 0, had = 0; for (auto& v : got) have += v == g; for (auto& v : s_[i].m) had += v == g;
                        if (have > had + 1) W.violate(V_STREAM, "item %d/%d of the range was inserted %d times", g.key, g.tag, have - had);
                    }
                    s_[i].m = got;
                    s_[i].alloc = alloc_id(*s_[i].c);
                }
            }
        }
        if (r == O_OK || x.keep_on_fail)
            for (auto& k : x.keep) {
                if (!s_[k.slot].c) continue;
                if (x.keep_needs_cap && cap_of(*s_[k.slot].c) != before[k.slot].cap) break;
                size_t idx = r == O_OK ? k.idx : k.idx;
                if (idx >= s_[k.slot].c->size()) W.violate(V_STABLE, "kept element is gone");
                const C& c = *s_[k.slot].c;
                if ((const void*)&*c.nth(idx) != k.addr) W.soft(V_STABLE, "element %zu of container %d moved from arena offset %lld to %lld", idx, k.slot, (long long)W.rel(k.addr), (long long)W.rel(&*c.nth(idx)));
            }
        global_checks("after call");
        if (r == O_OK && (x.touched)) for (int i = 0; i < NC; ++i) if ((x.touched >> i & 1) && s_[i].c && ((op.d >> 3) & 3) == 0) check_access(i, s_[i].m);
        for (int i = 0; i < NC; ++i) if (s_[i].c) {
            if (x.touched >> i & 1) {
                size_t n = s_[i].m.size();
                sig = mix(sig, (n == 0 ? 0 : n == N ? 2 : n < N ? 1 : n % (N ? N : 4) + 3) * 64 + std::min<size_t>(before[i].ab, 3) * 8 + std::min<size_t>(before[i].af, 3) * 2 + before[i].heap);
                o_->obs = mix(o_->obs, n * 64 + i);
                for (auto& v : s_[i].m) o_->obs = mix(o_->obs, (uint64_t(uint32_t(v.key)) << 32) | uint32_t(v.tag));
                if (op.code < S_c_default + 17) {}
            }
        }
        o_->obs = mix(o_->obs, uint64_t(r) * 1315423911u + op.code);
        if (o_->sigs) o_->sigs->insert(sig);
        W.phase = "";
    }

    // read-only use of the containers as they are; returns what the reader saw
    uint64_t read_task(int which) override {
        uint64_t h = uint64_t(which) * 77 + 5;
        for (int i = 0; i < NC; ++i) if (s_[i].c) {
            const C& c = *s_[i].c;
            Op none; guarded(none, false, [&] { check_access_const(i, s_[i].m); });
            if constexpr (std::is_copy_constructible<E>::value) { guarded(none, false, [&] { C copy(c); h = mix(h, copy.size()); }); }
            size_t k = 0; for (CI it = c.begin(); it != c.end(); ++it, ++k) { Val v = (*it).peek(); h = mix(h, (uint64_t(uint32_t(v.key)) << 32) | uint32_t(v.tag)); }
            h = mix(h, k); h = mix(h, c.capacity());
            for (int j = 0; j < NC; ++j) if (s_[j].c && !moved_any(s_[i].m) && !moved_any(s_[j].m)) { const C& d = *s_[j].c; bool a = false, b = false; guarded(none, false, [&] { a = c == d; b = c < d; }); h = mix(h, a * 2 + b); }
            if (which & 1) { Outcome r = guarded(none, false, [&] { (void)c.at(c.size()); }); h = mix(h, r); }
        }
        return h;
    }
    void each_object(const std::function<void(const void*, size_t)>& f) override { for (auto& s : s_) if (s.c) f(s.c, sizeof(C)); }
    static int sel(int id) { return P::sel ? (id < SELECT_BIT ? id + SELECT_BIT : id) : id; }
    static int aid(int d) { return P::ae ? 0 : 1 + umod(d, 3); }

    void exec(const Program& p, RunObs& o) override { if (body(p, o)) conclude(p, o); }
    bool body(const Program& p, RunObs& o) override {
        o_ = &o;
        for (auto& s : s_) s = Slot();
        g_max_elems = p.max_elems ? size_t(p.max_elems) : (size_t(1) << 40);
        bool faults = true;
        for (size_t i = 0; i < p.ops.size(); ++i) {
            const Op& op = p.ops[i];
            W.past_limit = false; W.op_index = int(i); W.phase = seq_ops[op.code].name; W.op_owned = (seq_ops[op.code].cls & W.own_cls) != 0;
            ++W.st.ops;
            int r = step(op, int(i), faults, p.max_elems != 0);
            if (r < 0) ++W.st.ops_skipped;
            if (o.counts) { OpCount oc; memcpy(oc.kind, W.kind_count, sizeof oc.kind); if (r < 0) memset(oc.kind, 0, sizeof oc.kind); o.counts->push_back(oc); }
            if (o.stop_on_error && (r == O_LENGTH || r == O_RANGE)) { o.stop_op = int(i); return false; }
            if (o.op_obs) o.op_obs->push_back(mix(o.obs, W.hash));
            if (o.plain_obs) o.plain_obs->push_back(o.obs);
            W.yield();
        }
        W.oom_left = 0;
        W.past_limit = false; W.op_index = int(p.ops.size()); W.op_owned = false;
        return true;
    }
    void conclude(const Program& p, RunObs& o) override {
        const bool faults = true; o_ = &o;
        // recovery: with failures over, ordinary use must work again
        for (int i = 0; i < NC; ++i) if (s_[i].c) {
            W.phase = "recovery";
            VV m = s_[i].m; Op none;
            if (!p.max_elems && (K != SK_STATIC || m.size() < N)) {
                Outcome r = guarded(none, false, [&] { s_[i].c->emplace_back(1, 9999); });
                if (r != O_OK) W.violate(V_BASIC, "emplace_back fails after failures stopped");
                m.push_back(Val{1, 9999});
                check_slot(i, m, V_BASIC, "recovery push");
                s_[i].m = m;
            }
            check_access(i, s_[i].m);
        }
        // teardown: destruction must succeed with everything else failing
        Op kill; kill.fmode = FM_TOTAL; kill.fmask = (1u << F_COUNT) - 1;
        for (int i = 0; i < NC; ++i) destroy(i, kill, faults);
        W.phase = "teardown";
        if (o.isolated) {
            if (W.reg.live()) W.violate(V_LIFETIME, "%u elements still alive after all containers were destroyed", W.reg.live());
            if (W.arena.live_blocks != dead_objects()) W.violate(V_ALLOC, "%d allocated blocks never released", int(W.arena.live_blocks) - int(dead_objects()));
            for (auto& b : W.arena.blocks) if (!W.arena.guards_ok(b)) W.violate(W.mk(V_ALLOC), "memory next to block #%u was overwritten", b.serial);
            for (auto& b : W.arena.blocks) if (b.group != -1) {
                const unsigned char* q = (const unsigned char*)W.arena.at(b);
                for (uint32_t k = 0; k < b.bytes; ++k) if (q[k] != 0xDD) W.violate(W.mk(V_ALLOC), "released block #%u was written to", b.serial);
            }
        }
        W.phase = "";
    }
    // live_blocks counts allocator blocks and container objects; objects are released by flag only
    uint32_t dead_objects() const { return W.arena.objects; }

    int step(const Op& op, int idx, bool faults, bool limited) {
        const int i = umod(op.c, NC);
        const int j = umod(op.c + 1 + umod(op.d, NC - 1), NC);   // another slot
        Exp x; std::string what; Outcome r = O_OK;
        const int code = op.code;
        if (!supported(code)) return -1;
        if (code == S_destroy) { if (!s_[i].c) return -1; Op k = op; if (op.fmode) { k.fmode = FM_TOTAL; k.fmask = ~0u; } destroy(i, k, faults); global_checks("after destroy"); return 0; }
        const bool is_ctor = code <= S_c_move_alloc;
        if (is_ctor && (code == S_c_copy || code == S_c_copy_alloc || code == S_c_move || code == S_c_move_alloc)) { ensure(j); }
        if (is_ctor) {
            Op none; if (s_[i].c) destroy(i, none, false);
        } else ensure(i);
        const bool two = code == S_a_eq_copy || code == S_a_eq_move || code == S_swap || code == S_swap_free || code == S_compare || code == S_a_other || code == S_insert_other;
        if (two) ensure(j);
        Snap before[NC]; for (int k = 0; k < NC; ++k) before[k] = snap(k);
        const uint32_t lb = W.arena.live_blocks + (is_ctor ? 1 : 0);
        const size_t n0 = s_[i].c ? s_[i].m.size() : 0;
        const size_t maxsz = K == SK_STATIC ? N : op.b >= 200 || n0 > MAXSZ ? size_t(BIGSZ) : size_t(MAXSZ);
        const size_t msz = limited ? g_max_elems : unlimited_size<P>(sizeof(E));
        W.op_index = idx; W.phase = seq_ops[code].name;
        x.touched = 1u << i;
        size_t nb = op.b >= 200 ? size_t(umod(op.b - 200, 500)) : size_t(umod(op.b, 41));
        if (op.b >= 100 && op.b < 116) { // exactly, one less or one more than what the container has room for, holds or may hold
            const Snap& b = before[i]; const bool total = seq_ops[code].cls & (OC_ASSIGN | OC_RESIZE | OC_CAP) || is_ctor;
            const int64_t lm = limited ? int64_t(msz) : int64_t(N), base = total ? 0 : int64_t(n0);
            const int64_t at[4] = {total ? int64_t(b.cap) : int64_t(b.ab), total ? int64_t(n0) : int64_t(has_front ? b.af : n0), int64_t(N) - base, lm - base};
            const int64_t v = at[(op.b - 100) & 3] + ((op.b - 100) >> 2) - 1;
            nb = size_t(std::min<int64_t>(std::max<int64_t>(v, 0), n0 > MAXSZ ? BIGSZ : 48));
        }
        auto room = [&](size_t add) { return n0 + add <= maxsz; };
        // max_size(): containers growing at both ends count free space at the other end; segmented ones may use up the slack
        // of segments they already own
        const bool input_op = code == S_c_range_in || code == S_a_range_in || code == S_a_range_inmv || code == S_insert_in || code == S_insert_inmv || ((code == S_c_range_mv) && (op.d & 1)) || (code == S_c_range_alloc && (op.d & 4));
        const size_t msz_hi = K == SK_SMALL ? std::max(msz, N) : !segmented ? msz : std::max<size_t>(is_ctor ? 0 : before[i].cap, msz + (input_op ? 3 * N : 0));
        auto lim = [&](size_t final_size) {
            if (final_size > msz_hi) W.past_limit = x.exceeds = true;
            else if (final_size > msz) x.no_limit_claim = true;
            else if (has_front && limited && (input_op || before[i].cap + (final_size > n0 ? final_size - n0 : 0) > msz)) x.no_limit_claim = true;
        };
        auto lim_src = [&](size_t source_size) { if (segmented && source_size > msz) x.no_limit_claim = true; };
        auto set_want = [&](int s, VV v) { x.want[s] = std::move(v); x.has_want[s] = true; };
        auto ins = [&](size_t pos, const VV& v) { x.pos = pos; x.cnt = v.size(); VV m = s_[i].m; m.insert(m.begin() + std::ptrdiff_t(pos), v.begin(), v.end()); return m; };
        auto keep_prefix = [&](size_t k) { for (size_t q = 0; q < k && q < before[i].addr.size(); ++q) x.keep.push_back({i, q, before[i].addr[q]}); };
        auto keep_shift = [&](size_t from, size_t to, std::ptrdiff_t sh) { for (size_t q = from; q < to; ++q) x.keep.push_back({i, size_t(std::ptrdiff_t(q) + sh), before[i].addr[q]}); };
        C* c = s_[i].c;
        auto at_end_keep = [&](bool front, size_t add) { // rules for insertion at an end
            if (segmented) { keep_shift(0, n0, front ? std::ptrdiff_t(add) : 0); }
            else if (one_ended) { keep_prefix(n0); x.keep_needs_cap = true; }
        };
        auto fits_back = [&](size_t add) { if (K == SK_STATIC || (K != SK_COMPACT && before[i].ab >= add)) x.fits = true; };
        auto fits_front = [&](size_t add) { if (before[i].af >= add) x.fits = true; };
        auto fits_mid = [&](size_t add, bool at_end) { if (!has_front) fits_back(add); else if (at_end && add == 0) x.fits = true; };

        // amounts far above max_size(), where sums and products wrap around: length_error and no effect
        if constexpr (K != SK_STATIC) if (op.b >= 116 && op.b < 124) {
            const size_t top = ~size_t(0), half = top >> 1, cap = before[i].cap;
            const size_t at[8] = {top, top - n0, top - n0 + 1, half, msz + 1, half / sizeof(E) + 1, top / sizeof(E) + 2, top - cap + 1 + size_t(op.d & 7)};
            size_t h = at[op.b - 116]; if (h <= msz || h <= cap) h = top;
            const bool rng = code == S_c_range_ra || code == S_c_range_mv || code == S_a_range_fwd || code == S_a_range_mv || code == S_insert_ra || code == S_insert_mv;
            if (rng && h > half) h = half;
            const int id = aid(op.d); const VV v = values_of(op, 1); bool did = true;
            const size_t pos = size_t(umod(op.a, int(n0) + 1)); const CI pi = is_ctor ? CI() : CI(c->cbegin() + std::ptrdiff_t(pos));
            auto start = [&] { W.past_limit = x.exceeds = true; x.limit_strong = true; x.given = v; x.want_alloc[i] = s_[i].alloc; if (is_ctor) { raw_slot(i); x.new_slot = i; } };
            auto with = [&](auto f) { // a range of h items of which none can be read
                using It = SrcIt<E, std::random_access_iterator_tag, copyable ? RM_CONST : RM_MOVE>;
                start(); Stream<E> st; st.n = h; r = guarded(op, faults, [&] { f(It(&st, 0), It(&st, h)); }, &what);
            };
            switch (code) {
            case S_c_n: start(); r = guarded(op, faults, [&] { place(i, h); }, &what); break;
            case S_c_n_alloc: if constexpr (has_alloc) { start(); typename C::allocator_type al(id); r = guarded(op, faults, [&] { place(i, h, al); }, &what); } break;
            case S_c_fill: if constexpr (copyable) { E e = mk(v[0]); start(); r = guarded(op, faults, [&] { place(i, h, static_cast<const E&>(e)); }, &what); } break;
            case S_c_fill_alloc: if constexpr (copyable && has_alloc) { E e = mk(v[0]); start(); typename C::allocator_type al(id); r = guarded(op, faults, [&] { place(i, h, static_cast<const E&>(e), al); }, &what); } break;
            case S_a_fill: if constexpr (copyable) { E e = mk(v[0]); start(); r = guarded(op, faults, [&] { c->assign(h, static_cast<const E&>(e)); }, &what); } break;
            case S_insert_fill: if constexpr (copyable) { E e = mk(v[0]); start(); r = guarded(op, faults, [&] { c->insert(pi, h, static_cast<const E&>(e)); }, &what); } break;
            case S_c_range_ra: case S_c_range_mv: with([&](auto f, auto l) { place(i, f, l); }); break;
            case S_a_range_fwd: case S_a_range_mv: with([&](auto f, auto l) { c->assign(f, l); }); break;
            case S_insert_ra: case S_insert_mv: with([&](auto f, auto l) { c->insert(pi, f, l); }); break;
            case S_resize: start(); r = guarded(op, faults, [&] { c->resize(h); }, &what); break;
            case S_resize_fill: if constexpr (copyable) { E e = mk(v[0]); start(); r = guarded(op, faults, [&] { c->resize(h, static_cast<const E&>(e)); }, &what); } break;
            case S_resize_front: if constexpr (has_front) { start(); r = guarded(op, faults, [&] { c->resize_front(h); }, &what); } break;
            case S_resize_back: if constexpr (has_front) { start(); r = guarded(op, faults, [&] { c->resize_back(h); }, &what); } break;
            case S_resize_front_fill: if constexpr (has_front && copyable) { E e = mk(v[0]); start(); r = guarded(op, faults, [&] { c->resize_front(h, static_cast<const E&>(e)); }, &what); } break;
            case S_resize_back_fill: if constexpr (has_front && copyable) { E e = mk(v[0]); start(); r = guarded(op, faults, [&] { c->resize_back(h, static_cast<const E&>(e)); }, &what); } break;
            case S_reserve: if constexpr (!has_front && K != SK_COMPACT) { start(); r = guarded(op, faults, [&] { c->reserve(h); }, &what); } break;
            case S_reserve_front: if constexpr (has_front) { start(); r = guarded(op, faults, [&] { c->reserve_front(h); }, &what); } break;
            case S_reserve_back: if constexpr (has_front) { start(); r = guarded(op, faults, [&] { c->reserve_back(h); }, &what); } break;
            case S_at_bad: start(); W.past_limit = x.exceeds = false; x.range_err = true; if (op.d & 1) r = guarded(op, faults, [&] { (void)c->at(h); }, &what); else r = guarded(op, faults, [&] { (void)static_cast<const C&>(*c).at(h); }, &what); break;
            default: did = false;
            }
            if (did) { finish(op, idx, r, x, before, what, lb); return int(r); }
        }

        switch (code) {
        // ------------------------------------------------------------ constructors
        case S_c_default: case S_c_alloc: {
            raw_slot(i); c = s_[i].c; x.new_slot = i; set_want(i, {});
            if (code == S_c_default) { x.want_alloc[i] = 0; r = guarded(op, faults, [&] { place(i); }, &what); }
            else if constexpr (has_alloc) { int id = aid(op.d); x.want_alloc[i] = id; typename C::allocator_type al(id); r = guarded(op, faults, [&] { place(i, al); }, &what); }
            if (K == SK_SMALL || K == SK_STATIC || K == SK_VECTOR || K == SK_DEVECTOR || K == SK_COMPACT) { x.nothrow = true; x.fits = true; }
            break; }
        case S_c_n: case S_c_n_alloc: {
            size_t n = std::min(nb, maxsz); raw_slot(i); x.new_slot = i; set_want(i, VV(n)); lim(n); x.given = VV(1);
            if (code == S_c_n) { x.want_alloc[i] = 0; r = guarded(op, faults, [&] { if constexpr (K == SK_STATIC && E::tracked) { if (op.d & 1) { place(i, n, sfl::default_init_t()); return; } } place(i, n); }, &what); }
            else if constexpr (has_alloc) { int id = aid(op.d); x.want_alloc[i] = id; typename C::allocator_type al(id); r = guarded(op, faults, [&] { place(i, n, al); }, &what); }
            break; }
        case S_c_fill: case S_c_fill_alloc: if constexpr (copyable) {
            size_t n = std::min(nb, maxsz); raw_slot(i); x.new_slot = i; VV v = values_of(op, 1); set_want(i, VV(n, v[0])); lim(n); E e = mk(v[0]);
            if (code == S_c_fill) { x.want_alloc[i] = 0; r = guarded(op, faults, [&] { place(i, n, static_cast<const E&>(e)); }, &what); }
            else if constexpr (has_alloc) { int id = aid(op.d); x.want_alloc[i] = id; typename C::allocator_type al(id); r = guarded(op, faults, [&] { place(i, n, static_cast<const E&>(e), al); }, &what); }
            } break;
        case S_c_range_in: case S_c_range_fwd: case S_c_range_ra: case S_c_range_alloc: if constexpr (copyable) {
            size_t n = std::min(nb, maxsz); raw_slot(i); x.new_slot = i; VV v = values_of(op, int(n)); set_want(i, v); lim(n); x.want_alloc[i] = 0;
            if (code == S_c_range_in) r = with_range<std::input_iterator_tag, RM_CONST>(op, faults, v, x, [&](auto f, auto l) { place(i, f, l); });
            else if (code == S_c_range_fwd) r = with_range<std::forward_iterator_tag, RM_CONST>(op, faults, v, x, [&](auto f, auto l) { place(i, f, l); });
            else if (code == S_c_range_ra && (op.d >> 12 & 3) == 3) r = with_segments<RM_CONST>(op, faults, v, [&](auto f, auto l) { place(i, f, l); });
            else if (code == S_c_range_ra) r = with_range<std::random_access_iterator_tag, RM_CONST>(op, faults, v, x, [&](auto f, auto l) { place(i, f, l); });
            else if constexpr (has_alloc) {
                int id = aid(op.d); x.want_alloc[i] = id; typename C::allocator_type al(id);
                if (op.d & 4) r = with_range<std::input_iterator_tag, RM_CONST>(op, faults, v, x, [&](auto f, auto l) { place(i, f, l, al); });
                else r = with_range<std::forward_iterator_tag, RM_CONST>(op, faults, v, x, [&](auto f, auto l) { place(i, f, l, al); });
            } } break;
        case S_c_range_mv: {
            size_t n = std::min(nb, maxsz); raw_slot(i); x.new_slot = i; VV v = values_of(op, int(n)); set_want(i, v); lim(n); x.want_alloc[i] = 0;
            if (op.d & 1) r = with_range<std::input_iterator_tag, RM_MOVE>(op, faults, v, x, [&](auto f, auto l) { place(i, f, l); });
            else r = with_range<std::forward_iterator_tag, RM_MOVE>(op, faults, v, x, [&](auto f, auto l) { place(i, f, l); });
            break; }
        case S_c_ilist: case S_c_ilist_alloc: if constexpr (copyable) {
            size_t n = std::min<size_t>(nb % 4, maxsz); raw_slot(i); x.new_slot = i; VV v = values_of(op, int(n)); set_want(i, v); lim(n); x.want_alloc[i] = 0;
            if (code == S_c_ilist) r = with_ilist(op, faults, v, [&](std::initializer_list<E> il) { place(i, il); });
            else if constexpr (has_alloc) { int id = aid(op.d); x.want_alloc[i] = id; typename C::allocator_type al(id); r = with_ilist(op, faults, v, [&](std::initializer_list<E> il) { place(i, il, al); }); }
            } break;
        case S_c_copy: case S_c_copy_alloc: if constexpr (copyable) {
            raw_slot(i); x.new_slot = i; set_want(i, s_[j].m); x.kind = V_TRANSFER; lim_src(s_[j].m.size());
            const C& src = *s_[j].c;
            if (code == S_c_copy) { x.want_alloc[i] = sel(s_[j].alloc); r = guarded(op, faults, [&] { place(i, src); }, &what); }
            else if constexpr (has_alloc) { int id = aid(op.d); x.want_alloc[i] = id; typename C::allocator_type al(id); r = guarded(op, faults, [&] { place(i, src, al); }, &what); }
            if (r != O_OK) x.given = s_[j].m;
            } break;
        case S_c_move: case S_c_move_alloc: {
            raw_slot(i); x.new_slot = i; set_want(i, s_[j].m); x.kind = V_TRANSFER; x.touched |= 1u << j; lim_src(s_[j].m.size());
            C& src = *s_[j].c; const int sid = s_[j].alloc; bool steal = before[j].heap;
            if (code == S_c_move) { x.want_alloc[i] = sid; if constexpr (!has_alloc) x.want_alloc[i] = 0; }
            else if constexpr (has_alloc) { int id = aid(op.d); x.want_alloc[i] = id; if (id != sid) steal = false; }
            x.want_alloc[j] = sid;
            if (steal) { x.no_elem_ops = true; for (size_t q = 0; q < before[j].addr.size(); ++q) x.keep.push_back({i, q, before[j].addr[q]}); if (!segmented) { x.nothrow = true; x.fits = true; } set_want(j, {}); if (K == SK_SMALL) x.has_want[j] = true; }
            else if (K == SK_STATIC && nt) x.nothrow = true;
            else if (K == SK_SMALL && nt && before[j].cap <= N) x.nothrow = true;
            if (code == S_c_move) r = guarded(op, faults, [&] { place(i, std::move(src)); }, &what);
            else if constexpr (has_alloc) { typename C::allocator_type al(aid(op.d)); r = guarded(op, faults, [&] { place(i, std::move(src), al); }, &what); }
            break; }
        // ------------------------------------------------------------ assignment
        case S_a_fill: if constexpr (copyable) {
            size_t n = std::min(nb, maxsz); VV v = values_of(op, 1); set_want(i, VV(n, v[0])); lim(n); x.given = v; x.limit_strong = true; E e = mk(v[0]);
            if ((K == SK_VECTOR || K == SK_SMALL || K == SK_STATIC || K == SK_SEGV) && n <= before[i].cap) x.fits = true;
            r = guarded(op, faults, [&] { c->assign(n, static_cast<const E&>(e)); }, &what); } break;
        case S_a_range_in: case S_a_range_fwd: case S_a_range_mv: case S_a_range_inmv: {
            size_t n = std::min(nb, maxsz); VV v = values_of(op, int(n)); set_want(i, v); lim(n); x.given = v;
            if ((K == SK_VECTOR || K == SK_SMALL || K == SK_STATIC || K == SK_SEGV) && n <= before[i].cap) x.fits = true;
            auto f = [&](auto a, auto b) { c->assign(a, b); };
            if (code == S_a_range_fwd || code == S_a_range_mv) x.limit_strong = true;
            const int cat = op.d >> 12 & 3;
            if (code == S_a_range_mv && cat == 3) r = with_segments<RM_MOVE>(op, faults, v, f);
            else if (code == S_a_range_mv && cat == 2) r = with_range<std::random_access_iterator_tag, RM_MOVE>(op, faults, v, x, f);
            else if (code == S_a_range_mv && cat == 1) r = with_range<std::bidirectional_iterator_tag, RM_MOVE>(op, faults, v, x, f);
            else if (code == S_a_range_mv) r = with_range<std::forward_iterator_tag, RM_MOVE>(op, faults, v, x, f);
            else if (code == S_a_range_inmv) r = with_range<std::input_iterator_tag, RM_MOVE>(op, faults, v, x, f);
            else if constexpr (copyable) {
                if (code == S_a_range_in) r = with_range<std::input_iterator_tag, RM_CONST>(op, faults, v, x, f);
                else if (cat == 3) r = with_segments<RM_CONST>(op, faults, v, f);
                else if (cat == 2) r = with_range<std::random_access_iterator_tag, RM_CONST>(op, faults, v, x, f);
                else if (cat == 1) r = with_range<std::bidirectional_iterator_tag, RM_CONST>(op, faults, v, x, f);
                else r = with_range<std::forward_iterator_tag, RM_CONST>(op, faults, v, x, f);
            }
            break; }
        case S_a_ilist: case S_a_eq_ilist: if constexpr (copyable) {
            size_t n = std::min<size_t>(nb % 4, maxsz); VV v = values_of(op, int(n)); set_want(i, v); lim(n); x.given = v; x.limit_strong = true;
            if (code == S_a_ilist) r = with_ilist(op, faults, v, [&](std::initializer_list<E> il) { c->assign(il); });
            else r = with_ilist(op, faults, v, [&](std::initializer_list<E> il) { *c = il; });
            } break;
        case S_a_eq_copy: if constexpr (copyable) {
            lim_src(s_[j].m.size()); set_want(i, s_[j].m); x.kind = V_TRANSFER; x.given = s_[j].m; const C& src = *s_[j].c; x.want_alloc[i] = P::pocca ? s_[j].alloc : s_[i].alloc;
            r = guarded(op, faults, [&] { *c = src; }, &what); } break;
        case S_a_eq_move: {
            lim_src(s_[j].m.size()); set_want(i, s_[j].m); x.kind = V_TRANSFER; x.given = s_[j].m; C& src = *s_[j].c; x.touched |= 1u << j; x.want_alloc[i] = P::pocma ? s_[j].alloc : s_[i].alloc; x.want_alloc[j] = s_[j].alloc;
            if (before[j].heap && ((P::pocma && !segmented) || s_[i].alloc == s_[j].alloc)) {
                x.no_elem_ops = true; for (size_t q = 0; q < before[j].addr.size(); ++q) x.keep.push_back({i, q, before[j].addr[q]});
                if (!segmented) { x.nothrow = true; x.fits = true; }
            }
            r = guarded(op, faults, [&] { *c = std::move(src); }, &what); break; }
        case S_a_self_copy: if constexpr (copyable) { set_want(i, s_[i].m); x.kind = V_TRANSFER; C& self = *c; x.fits = true; x.nothrow = true; r = guarded(op, faults, [&] { *c = static_cast<const C&>(self); }, &what); } break;
        case S_a_self_move: { C& self = *c; r = guarded(op, faults, [&] { *c = std::move(self); }, &what); x.given = s_[i].m; break; }
        // ------------------------------------------------------------ insertion at the ends
        case S_push_back_c: case S_push_back_m: case S_emplace_back: {
            if (!room(1)) return -1;
            VV v = values_of(op, 1); set_want(i, ins(n0, v)); x.given = v; lim(n0 + 1); x.limit_strong = true; fits_back(1); at_end_keep(false, 1);
            x.push = push_claimed; x.keep_on_fail = segmented;
            if (code == S_emplace_back) {
                const E* ref = nullptr;
                if (op.d & 1) r = guarded(op, faults, [&] { ref = &c->emplace_back(v[0].key, v[0].tag); }, &what);
                else { HKey h{v[0].key, v[0].tag}; r = guarded(op, faults, [&] { ref = &c->emplace_back(h); }, &what); }
                if (r == O_OK && ref != &*(c->end() - 1)) W.soft(V_RETURN, "emplace_back returns a reference to something else than the last element");
            } else if (code == S_push_back_m) { E e = mk(v[0]); r = guarded(op, faults, [&] { c->push_back(std::move(e)); }, &what); }
            else if constexpr (copyable) { E e = mk(v[0]); r = guarded(op, faults, [&] { c->push_back(static_cast<const E&>(e)); }, &what); }
            break; }
        case S_push_front_c: case S_push_front_m: case S_emplace_front: if constexpr (has_front) {
            if (!room(1)) return -1;
            VV v = values_of(op, 1); set_want(i, ins(0, v)); x.given = v; lim(n0 + 1); x.limit_strong = true; fits_front(1); at_end_keep(true, 1);
            x.push = push_claimed;
            if (code == S_emplace_front) {
                const E* ref = nullptr;
                if (op.d & 1) r = guarded(op, faults, [&] { ref = &c->emplace_front(v[0].key, v[0].tag); }, &what);
                else { HKey h{v[0].key, v[0].tag}; r = guarded(op, faults, [&] { ref = &c->emplace_front(h); }, &what); }
                if (r == O_OK && ref != &*c->begin()) W.soft(V_RETURN, "emplace_front returns a reference to something else than the first element");
            } else if (code == S_push_front_m) { E e = mk(v[0]); r = guarded(op, faults, [&] { c->push_front(std::move(e)); }, &what); }
            else if constexpr (copyable) { E e = mk(v[0]); r = guarded(op, faults, [&] { c->push_front(static_cast<const E&>(e)); }, &what); }
            if (r != O_OK && segmented) { x.keep.clear(); keep_shift(0, n0, 0); x.keep_on_fail = true; }
            } break;
        case S_pop_back: {
            if (!n0) return -1;
            VV m = s_[i].m; m.pop_back(); set_want(i, m);
            if (K != SK_COMPACT) { keep_prefix(n0 - 1); x.cap_keep = i; x.nothrow = true; x.fits = true; }
            r = guarded(op, faults, [&] { c->pop_back(); }, &what); break; }
        case S_pop_front: if constexpr (has_front) {
            if (!n0) return -1;
            VV m = s_[i].m; m.erase(m.begin()); set_want(i, m); keep_shift(1, n0, -1); x.cap_keep = i; x.nothrow = true; x.fits = true;
            r = guarded(op, faults, [&] { c->pop_front(); }, &what); } break;
        // ------------------------------------------------------------ insertion anywhere
        case S_emplace: case S_insert_c: case S_insert_m: {
            if (!room(1)) return -1;
            size_t pos = size_t(umod(op.a, int(n0) + 1)); VV v = values_of(op, 1); set_want(i, ins(pos, v)); x.given = v; lim(n0 + 1); fits_mid(1, pos == n0); x.limit_strong = true;
            if (one_ended) { keep_prefix(pos); x.keep_needs_cap = !segmented; }
            CI at = c->cbegin() + std::ptrdiff_t(pos); typename C::iterator ret;
            if (code == S_emplace) { r = guarded(op, faults, [&] { ret = c->emplace(at, v[0].key, v[0].tag); }, &what); }
            else if (code == S_insert_m) { E e = mk(v[0]); r = guarded(op, faults, [&] { ret = c->insert(at, std::move(e)); }, &what); }
            else if constexpr (copyable) { E e = mk(v[0]); r = guarded(op, faults, [&] { ret = c->insert(at, static_cast<const E&>(e)); }, &what); }
            if (r == O_OK && size_t(ret - c->begin()) != pos) W.soft(V_RETURN, "insert returned position %td instead of %zu", ret - c->begin(), pos);
            break; }
        case S_insert_fill: if constexpr (copyable) {
            size_t n = nb; if (!room(n)) return -1;
            size_t pos = size_t(umod(op.a, int(n0) + 1)); VV v = values_of(op, 1); set_want(i, ins(pos, VV(n, v[0]))); x.given = v; lim(n0 + n); fits_mid(n, pos == n0); x.limit_strong = true;
            if (one_ended) { keep_prefix(pos); x.keep_needs_cap = !segmented; }
            CI at = c->cbegin() + std::ptrdiff_t(pos); typename C::iterator ret; E e = mk(v[0]);
            r = guarded(op, faults, [&] { ret = c->insert(at, n, static_cast<const E&>(e)); }, &what);
            if (r == O_OK && size_t(ret - c->begin()) != pos) W.soft(V_RETURN, "insert returned position %td instead of %zu", ret - c->begin(), pos);
            } break;
        case S_insert_in: case S_insert_fwd: case S_insert_ra: case S_insert_mv: case S_insert_inmv: case S_insert_ilist: {
            size_t n = code == S_insert_ilist ? nb % 4 : nb; if (!room(n)) return -1;
            size_t pos = size_t(umod(op.a, int(n0) + 1)); VV v = values_of(op, int(n)); set_want(i, ins(pos, v)); x.given = v; lim(n0 + n); fits_mid(n, pos == n0);
            x.limit_strong = code != S_insert_in && code != S_insert_inmv;
            if (one_ended) { keep_prefix(pos); x.keep_needs_cap = !segmented; }
            CI at = c->cbegin() + std::ptrdiff_t(pos); typename C::iterator ret;
            auto f = [&](auto a, auto b) { ret = c->insert(at, a, b); };
            const int cat = op.d >> 12 & 3;
            if (code == S_insert_mv && cat == 3) r = with_segments<RM_MOVE>(op, faults, v, f);
            else if (code == S_insert_mv && cat == 2) r = with_range<std::random_access_iterator_tag, RM_MOVE>(op, faults, v, x, f);
            else if (code == S_insert_mv) r = with_range<std::forward_iterator_tag, RM_MOVE>(op, faults, v, x, f);
            else if (code == S_insert_inmv) r = with_range<std::input_iterator_tag, RM_MOVE>(op, faults, v, x, f);
            else if constexpr (copyable) {
                if (code == S_insert_in) r = with_range<std::input_iterator_tag, RM_CONST>(op, faults, v, x, f);
                else if (code == S_insert_fwd && cat == 3) r = with_range<std::bidirectional_iterator_tag, RM_CONST>(op, faults, v, x, f);
                else if (code == S_insert_fwd) r = with_range<std::forward_iterator_tag, RM_CONST>(op, faults, v, x, f);
                else if (code == S_insert_ra && cat == 3) r = with_segments<RM_CONST>(op, faults, v, f);
                else if (code == S_insert_ra) r = with_range<std::random_access_iterator_tag, RM_CONST>(op, faults, v, x, f);
                else r = with_ilist(op, faults, v, [&](std::initializer_list<E> il) { ret = c->insert(at, il); });
            }
            if (r == O_OK && size_t(ret - c->begin()) != pos) W.soft(V_RETURN, "insert returned position %td instead of %zu", ret - c->begin(), pos);
            break; }
        // ------------------------------------------------------------ aliased arguments
        case S_al_push_back: case S_al_emplace_back: case S_al_push_front: case S_al_emplace_front: case S_al_emplace: case S_al_insert: case S_al_insert_fill: if constexpr (copyable) {
            if (!n0) return -1;
            size_t n = code == S_al_insert_fill ? nb : 1; if (!room(n)) return -1;
            size_t src = size_t(umod(op.d, int(n0))); Val v = s_[i].m[src]; if (v.moved()) return -1;
            size_t pos = size_t(umod(op.a, int(n0) + 1)); bool front = false;
            if (code == S_al_push_back || code == S_al_emplace_back) { pos = n0; fits_back(1); x.push = push_claimed; at_end_keep(false, 1); }
            else if (code == S_al_push_front || code == S_al_emplace_front) { pos = 0; front = true; fits_front(1); x.push = push_claimed; at_end_keep(true, 1); }
            else { fits_mid(n, pos == n0); if (one_ended) { keep_prefix(pos); x.keep_needs_cap = !segmented; } }
            (void)front;
            set_want(i, ins(pos, VV(n, v))); x.given = {v}; lim(n0 + n); x.kind = V_ALIAS; x.limit_strong = true;
            const E& ref = c->begin()[std::ptrdiff_t(src)]; CI at = c->cbegin() + std::ptrdiff_t(pos);
            typename C::iterator ret = c->begin() + std::ptrdiff_t(pos); bool has_ret = false;
            switch (code) {
            case S_al_push_back: r = guarded(op, faults, [&] { c->push_back(ref); }, &what); break;
            case S_al_emplace_back: r = guarded(op, faults, [&] { c->emplace_back(ref); }, &what); break;
            case S_al_push_front: if constexpr (has_front) r = guarded(op, faults, [&] { c->push_front(ref); }, &what); break;
            case S_al_emplace_front: if constexpr (has_front) r = guarded(op, faults, [&] { c->emplace_front(ref); }, &what); break;
            case S_al_emplace: has_ret = true; r = guarded(op, faults, [&] { ret = c->emplace(at, ref); }, &what); break;
            case S_al_insert: has_ret = true; r = guarded(op, faults, [&] { ret = c->insert(at, ref); }, &what); break;
            case S_al_insert_fill: has_ret = true; r = guarded(op, faults, [&] { ret = c->insert(at, n, ref); }, &what); break;
            }
            if (r == O_OK && has_ret && size_t(ret - c->begin()) != pos) W.soft(V_RETURN, "insert returned position %td instead of %zu", ret - c->begin(), pos);
            if (r != O_OK && front && segmented) { x.keep.clear(); keep_shift(0, n0, 0); x.keep_on_fail = true; }
            } break;
        case S_al_resize: case S_al_resize_front: case S_al_resize_back: if constexpr (copyable) {
            if (!n0) return -1;
            size_t n = std::min(nb, maxsz); size_t src = size_t(umod(op.d, int(n0))); Val v = s_[i].m[src]; if (v.moved()) return -1;
            const E& ref = c->begin()[std::ptrdiff_t(src)]; x.given = {v}; lim(n); x.kind = V_ALIAS; x.limit_strong = true;
            VV m = s_[i].m;
            if (code == S_al_resize) {
                if (n > n0 && has_front) { x.flex = i; x.flex_fill = VV(n - n0, v); } else { m.resize(n, v); set_want(i, m); if (n > n0) { fits_back(n - n0); at_end_keep(false, n - n0); } }
                r = guarded(op, faults, [&] { c->resize(n, ref); }, &what);
            } else if constexpr (has_front) {
                if (code == S_al_resize_front) { if (n <= n0) m.erase(m.begin(), m.begin() + std::ptrdiff_t(n0 - n)); else { m.insert(m.begin(), n - n0, v); fits_front(n - n0); at_end_keep(true, n - n0); } set_want(i, m); r = guarded(op, faults, [&] { c->resize_front(n, ref); }, &what); }
                else { m.resize(n, v); set_want(i, m); if (n > n0) { fits_back(n - n0); at_end_keep(false, n - n0); } r = guarded(op, faults, [&] { c->resize_back(n, ref); }, &what); }
            }
            } break;
        // ------------------------------------------------------------ erasure
        case S_erase_pos: case S_erase_range: {
            if (!n0) return -1;
            size_t a = size_t(umod(op.a, int(n0))), b = a + 1;
            if (code == S_erase_range) { a = size_t(umod(op.a, int(n0) + 1)); b = a + size_t(umod(op.d, int(n0 - a) + 1)); }
            x.pos = a; x.cnt = b - a; VV m = s_[i].m; m.erase(m.begin() + std::ptrdiff_t(a), m.begin() + std::ptrdiff_t(b)); set_want(i, m);
            if (one_ended) keep_prefix(a);
            if (K != SK_COMPACT) { x.cap_keep = i; x.fits = true; if (nt) x.nothrow = true; }
            CI f = c->cbegin() + std::ptrdiff_t(a), l = c->cbegin() + std::ptrdiff_t(b); typename C::iterator ret;
            if (code == S_erase_pos) r = guarded(op, faults, [&] { ret = c->erase(f); }, &what);
            else r = guarded(op, faults, [&] { ret = c->erase(f, l); }, &what);
            if (r == O_OK && size_t(ret - c->begin()) != a) W.soft(V_RETURN, "erase returned position %td instead of %zu", ret - c->begin(), a);
            break; }
        case S_erase_value: case S_erase_if: {
            if (moved_any(s_[i].m)) return -1;
            VV m = s_[i].m, out; size_t removed = 0; size_t cnt = 0;
            if (code == S_erase_value) {
                Val v = n0 && (op.d & 3) ? m[size_t(umod(op.a, int(n0)))] : values_of(op, 1)[0];
                for (auto& q : m) if (q == v) ++removed; else out.push_back(q);
                set_want(i, out); HKey h{v.key, v.tag}; x.given = {};
                if (op.d & 4) r = guarded(op, faults, [&] { cnt = erase(*c, h); }, &what);
                else { E e = mk(v); r = guarded(op, faults, [&] { cnt = erase(*c, static_cast<const E&>(e)); }, &what); }
            } else {
                int md = 2 + umod(op.d, 3), rem = umod(op.a, md);
                for (auto& q : m) if (umod(q.key, md) == rem) ++removed; else out.push_back(q);
                set_want(i, out); VV seen;
                r = guarded(op, faults, [&] { cnt = erase_if(*c, [&](const E& e) { W.ev(15, 0); W.yield(); cb_check(e, "the predicate"); W.point(F_PRED); World::Own own; seen.push_back(Val{e.key(), e.tag()}); return umod(e.key(), md) == rem; }); }, &what);
                if (r == O_OK) {
                    if (seen.size() != m.size()) W.soft(V_CALLBACK, "predicate called %zu times for %zu elements", seen.size(), m.size());
                    auto key = [](const Val& a, const Val& b) { return a.key != b.key ? a.key < b.key : a.tag < b.tag; };
                    VV s1 = seen, s2 = m; std::sort(s1.begin(), s1.end(), key); std::sort(s2.begin(), s2.end(), key);
                    if (s1 != s2) W.soft(V_CALLBACK, "predicate was not applied exactly once to each element");
                }
            }
            if (r == O_OK && cnt != removed) W.soft(V_RETURN, "erase returned %zu instead of %zu", cnt, removed);
            break; }
        // ------------------------------------------------------------ resize
        case S_resize: case S_resize_fill: case S_resize_front: case S_resize_front_fill: case S_resize_back: case S_resize_back_fill: {
            size_t n = std::min(nb, maxsz); const bool fill = code == S_resize_fill || code == S_resize_front_fill || code == S_resize_back_fill;
            VV vv = fill ? values_of(op, 1) : VV(1); Val v = vv[0]; x.given = vv; lim(n); x.limit_strong = true; VV m = s_[i].m;
            if (code == S_resize || code == S_resize_fill) {
                if (n > n0 && has_front) { x.flex = i; x.flex_fill = VV(n - n0, v); }
                else { m.resize(n, v); set_want(i, m); if (n > n0) { fits_back(n - n0); at_end_keep(false, n - n0); x.keep_on_fail = segmented; } }
            } else if (code == S_resize_front || code == S_resize_front_fill) {
                if (n <= n0) { m.erase(m.begin(), m.begin() + std::ptrdiff_t(n0 - n)); keep_shift(n0 - n, n0, -std::ptrdiff_t(n0 - n)); } else { m.insert(m.begin(), n - n0, v); fits_front(n - n0); at_end_keep(true, n - n0); }
                set_want(i, m);
            } else { m.resize(n, v); set_want(i, m); if (n > n0) { fits_back(n - n0); at_end_keep(false, n - n0); x.keep_on_fail = segmented; } }
            if (n <= n0 && K != SK_COMPACT) { x.nothrow = true; x.fits = true; x.cap_keep = i; if (code != S_resize_front && code != S_resize_front_fill) keep_prefix(n); }
            auto go = [&](auto&&... a) {
                if constexpr (has_front) {
                    if (code == S_resize_front || code == S_resize_front_fill) { c->resize_front(n, a...); return; }
                    if (code == S_resize_back || code == S_resize_back_fill) { c->resize_back(n, a...); return; }
                }
                if constexpr (K == SK_STATIC && E::tracked) if (!fill && (op.d & 1)) { c->resize(n, sfl::default_init_t()); return; }
                c->resize(n, a...);
            };
            if (!fill) r = guarded(op, faults, [&] { go(); }, &what);
            else if constexpr (copyable) { E e = mk(v); r = guarded(op, faults, [&] { go(static_cast<const E&>(e)); }, &what); }
            break; }
        // ------------------------------------------------------------ capacity
        case S_reserve: case S_reserve_front: case S_reserve_back: if constexpr (K != SK_STATIC && K != SK_COMPACT) {
            size_t n = nb; set_want(i, s_[i].m); x.strong = nt || copyable; x.limit_strong = true; x.kind = V_STRONG; x.min_cap = i; lim(n); x.min_cap_v = n;
            if (segmented) { keep_prefix(n0); x.keep_on_fail = true; } else { keep_prefix(n0); x.keep_needs_cap = true; }
            if constexpr (has_front) {
                size_t more = n > n0 ? n - n0 : 0;
                if (code == S_reserve_front) { x.min_front = more; if (before[i].af >= more) x.fits = true; r = guarded(op, faults, [&] { c->reserve_front(n); }, &what); }
                else { x.min_back = more; if (before[i].ab >= more) x.fits = true; r = guarded(op, faults, [&] { c->reserve_back(n); }, &what); }
            } else { if (n <= before[i].cap) { x.fits = true; } r = guarded(op, faults, [&] { c->reserve(n); }, &what); }
            if (x.fits && r == O_OK) x.cap_keep = i;
            } break;
        case S_shrink: if constexpr (K != SK_STATIC && K != SK_COMPACT) {
            set_want(i, s_[i].m); x.strong = nt || copyable; x.kind = V_STRONG;
            if (segmented) { keep_prefix(n0); x.keep_on_fail = true; x.cap_free = true; } else { keep_prefix(n0); x.keep_needs_cap = true; }
            r = guarded(op, faults, [&] { c->shrink_to_fit(); }, &what);
            if (r == O_OK && cap_of(*c) > before[i].cap && !(K == SK_SMALL && cap_of(*c) <= N)) W.soft(V_CAPACITY, "shrink_to_fit increased the capacity");
            } break;
        case S_clear: set_want(i, {}); if (K != SK_COMPACT) x.cap_keep = i; x.nothrow = true; x.fits = true; r = guarded(op, faults, [&] { c->clear(); }, &what); break;
        // ------------------------------------------------------------ swap
        case S_swap: case S_swap_free: {
            if (!P::pocs && s_[i].alloc != s_[j].alloc) return -1;
            set_want(i, s_[j].m); set_want(j, s_[i].m); x.kind = V_TRANSFER; x.touched |= 1u << j;
            x.want_alloc[i] = P::pocs ? s_[j].alloc : s_[i].alloc; x.want_alloc[j] = P::pocs ? s_[i].alloc : s_[j].alloc;
            if (before[i].heap && before[j].heap) {
                x.no_elem_ops = true; x.nothrow = true; x.fits = true;
                for (size_t q = 0; q < before[j].addr.size(); ++q) x.keep.push_back({i, q, before[j].addr[q]});
                for (size_t q = 0; q < before[i].addr.size(); ++q) x.keep.push_back({j, q, before[i].addr[q]});
            } else { if (nt) x.nothrow = true; x.fits = true; }
            C& o2 = *s_[j].c;
            if (code == S_swap) r = guarded(op, faults, [&] { c->swap(o2); }, &what);
            else r = guarded(op, faults, [&] { using std::swap; swap(*c, o2); }, &what);
            break; }
        case S_self_swap: { set_want(i, s_[i].m); x.kind = V_TRANSFER; C& self = *c; x.nothrow = true; x.fits = true; x.cap_keep = i; keep_prefix(n0); r = guarded(op, faults, [&] { c->swap(self); }, &what); break; }
        // ------------------------------------------------------------ observation
        case S_compare: {
            if (moved_any(s_[i].m) || moved_any(s_[j].m)) return -1;
            const C& a = *s_[i].c; const C& b = *s_[j].c; set_want(i, s_[i].m); x.fits = true; x.strong = true; x.kind = V_MODEL;
            bool q[6] = {}; uint64_t equal_calls = 0;
            r = guarded(op, faults, [&] { q[0] = a == b; q[1] = a != b; equal_calls = W.op_calls; q[2] = a < b; q[3] = a > b; q[4] = a <= b; q[5] = a >= b; }, &what);
            if (r == O_OK) {
                auto lt = [](const VV& p, const VV& s) { return std::lexicographical_compare(p.begin(), p.end(), s.begin(), s.end(), [](const Val& a, const Val& b) { return a.key != b.key ? a.key < b.key : a.tag < b.tag; }); };
                const VV &m = s_[i].m, &n = s_[j].m;
                bool e = m == n, l = lt(m, n), g = lt(n, m);
                if (q[0] != e || q[1] == e || q[2] != l || q[3] != g || q[4] == g || q[5] == l) W.soft(V_RETURN, "comparison operators disagree with the sequences");
                if (W.op_copies || W.op_moves) W.soft(V_CALLBACK, "comparison copied or moved elements");
                if (n.size() != m.size() && equal_calls) W.soft(V_COST, "%llu comparisons of elements to compare containers of different sizes %zu and %zu for equality", (unsigned long long)equal_calls, m.size(), n.size());
            }
            break; }
        // compared with a container that is almost the same: an element exchanged or missing
        case S_compare_near: {
            if (moved_any(s_[i].m) || limited) return -1;
            set_want(i, s_[i].m); x.strong = true; x.kind = V_MODEL; VV w = s_[i].m; const int how = umod(op.d, 4); bool q[12] = {}; uint64_t touched = 0;
            if (how && !n0) return -1;
            if (how) { const size_t at = (op.d & 4) ? n0 - 1 : size_t(umod(op.a, int(n0))); if (how == 1) w[at].key ^= 1; else if (how == 2) w[at].tag ^= 1; else w.erase(w.begin() + std::ptrdiff_t((op.d & 8) ? n0 - 1 : at)); }
            x.given = w; const C& a = *s_[i].c;
            r = guarded(op, faults, [&] {
                C t; for (auto& v : w) t.emplace_back(v.key, v.tag);
                touched = W.op_copies + W.op_moves;
                const C& b = t; q[0] = a == b; q[1] = a != b; q[2] = b == a; q[3] = b != a; q[4] = a < b; q[5] = a > b; q[6] = a <= b; q[7] = a >= b; q[8] = b < a;
                touched = W.op_copies + W.op_moves - touched;
            }, &what);
            if (r == O_OK) {
                auto lt = [](const VV& p, const VV& s) { return std::lexicographical_compare(p.begin(), p.end(), s.begin(), s.end(), [](const Val& a, const Val& b) { return a.key != b.key ? a.key < b.key : a.tag < b.tag; }); };
                const VV& m = s_[i].m; bool e = m == w, l = lt(m, w), g = lt(w, m);
                if (q[0] != e || q[1] == e || q[2] != e || q[3] == e || q[4] != l || q[5] != g || q[6] == g || q[7] == l || q[8] != g) W.soft(V_RETURN, "comparison operators disagree with the contents of two similar containers");
                if (touched) W.soft(V_CALLBACK, "comparison copied or moved elements");
            }
            break; }
        case S_access: {
            set_want(i, s_[i].m); x.nothrow = true; x.fits = true; x.cap_keep = i; keep_prefix(n0);
            r = guarded(op, faults, [&] { check_access(i, s_[i].m); }, &what);
            break; }
        case S_at_bad: {
            set_want(i, s_[i].m); x.range_err = true; size_t k = n0 + nb;
            if (op.d & 1) r = guarded(op, faults, [&] { (void)c->at(k); }, &what);
            else r = guarded(op, faults, [&] { (void)static_cast<const C&>(*c).at(k); }, &what);
            break; }
        case S_mutate: { // assignment through a reference obtained from the container
            if (!n0) return -1;
            size_t k = size_t(umod(op.a, int(n0))); VV m = s_[i].m; Val v = values_of(op, 1)[0]; m[k] = v; set_want(i, m); x.given = {v}; x.fits = true;
            E e = mk(v);
            switch (op.d & 3) {
            case 0: r = guarded(op, faults, [&] { (*c)[k] = std::move(e); }, &what); break;
            case 1: r = guarded(op, faults, [&] { *(c->begin() + std::ptrdiff_t(k)) = std::move(e); }, &what); break;
            case 2: r = guarded(op, faults, [&] { c->at(k) = std::move(e); }, &what); break;
            default: r = guarded(op, faults, [&] { *c->nth(k) = std::move(e); }, &what); break;
            }
            break; }
        // ------------------------------------------------------------ ranges taken from another container
        case S_a_other: case S_insert_other: if constexpr (copyable) {
            const VV& src = s_[j].m; const size_t n1 = src.size(); if (moved_any(src)) return -1;
            size_t a = size_t(umod(op.d >> 4, int(n1) + 1)), b = a + size_t(umod(op.b, int(n1 - a) + 1));
            VV v(src.begin() + std::ptrdiff_t(a), src.begin() + std::ptrdiff_t(b)); const bool rev = op.d & 2; if (rev) std::reverse(v.begin(), v.end());
            const size_t n = v.size(); const C& o = *s_[j].c; x.given = v; x.limit_strong = true;
            auto f = o.cbegin() + std::ptrdiff_t(a), l = o.cbegin() + std::ptrdiff_t(b);
            auto rf = o.crbegin() + std::ptrdiff_t(n1 - b), rl = o.crbegin() + std::ptrdiff_t(n1 - a);
            if (code == S_a_other) {
                if (n > maxsz) return -1;
                set_want(i, v); lim(n);
                if ((K == SK_VECTOR || K == SK_SMALL || K == SK_STATIC || K == SK_SEGV) && n <= before[i].cap) x.fits = true;
                if (rev) r = guarded(op, faults, [&] { c->assign(rf, rl); }, &what); else r = guarded(op, faults, [&] { c->assign(f, l); }, &what);
            } else {
                if (!room(n)) return -1;
                size_t pos = size_t(umod(op.a, int(n0) + 1)); set_want(i, ins(pos, v)); lim(n0 + n); fits_mid(n, pos == n0);
                if (one_ended) { keep_prefix(pos); x.keep_needs_cap = !segmented; }
                CI at = c->cbegin() + std::ptrdiff_t(pos); typename C::iterator ret;
                if (rev) r = guarded(op, faults, [&] { ret = c->insert(at, rf, rl); }, &what); else r = guarded(op, faults, [&] { ret = c->insert(at, f, l); }, &what);
                if (r == O_OK && size_t(ret - c->begin()) != pos) W.soft(V_RETURN, "insert returned position %td instead of %zu", ret - c->begin(), pos);
            }
            } break;
        // ------------------------------------------------------------ standard algorithms over the container's iterators
        case S_algo: {
            if (moved_any(s_[i].m)) return -1;
            VV m = s_[i].m; size_t a = size_t(umod(op.a, int(n0) + 1)), b = a + size_t(umod(op.b, int(n0 - a) + 1)); size_t mid = a + size_t(umod(op.d >> 3, int(b - a) + 1));
            auto it = [&](size_t k) { return m.begin() + std::ptrdiff_t(k); }; auto ci = [&](size_t k) { return c->begin() + std::ptrdiff_t(k); };
            auto less = [](const Val& p, const Val& q) { return p.key != q.key ? p.key < q.key : p.tag < q.tag; };
            x.fits = true; x.cap_keep = i; keep_prefix(n0);
            switch (umod(op.d, 4)) {
            case 0: std::sort(it(a), it(b), less); set_want(i, m); r = guarded(op, faults, [&] { std::sort(ci(a), ci(b)); }, &what); break;
            case 1: std::reverse(it(a), it(b)); set_want(i, m); r = guarded(op, faults, [&] { std::reverse(ci(a), ci(b)); }, &what); break;
            case 2: std::rotate(it(a), it(mid), it(b)); set_want(i, m); r = guarded(op, faults, [&] { std::rotate(ci(a), ci(mid), ci(b)); }, &what); break;
            default: std::sort(m.rbegin(), m.rend(), less); set_want(i, m); r = guarded(op, faults, [&] { std::sort(c->rbegin(), c->rend()); }, &what); break;
            }
            break; }
        // ------------------------------------------------------------ many removals and many insertions at one end
        case S_drain: {
            if (n0 < 2) return -1;
            const bool front = has_front && op.d & 1; const size_t left = std::min(n0 - 1, size_t(umod(op.a, 6))), k = n0 - left;
            VV m = s_[i].m; if (front) { m.erase(m.begin(), m.begin() + std::ptrdiff_t(k)); keep_shift(k, n0, -std::ptrdiff_t(k)); } else { m.resize(left); keep_prefix(left); }
            set_want(i, m); x.cap_keep = i; x.nothrow = true; x.fits = true; x.cnt = k;
            r = guarded(op, faults, [&] { for (size_t q = 0; q < k; ++q) { if constexpr (has_front) { if (front) { c->pop_front(); continue; } } c->pop_back(); } }, &what);
            break; }
        case S_burst: {
            size_t k = 40 + nb * 17; k = std::min(k, K == SK_STATIC ? N - std::min(N, n0) : n0 < BIGSZ ? BIGSZ - n0 : 0);
            if (!k || limited) return -1;
            const bool front = has_front && op.d & 2, queue = has_front && (op.d & 12) == 4;
            VV m = s_[i].m, v = values_of(op, int(k));
            if (front) m.insert(m.begin(), v.rbegin(), v.rend()); else m.insert(m.end(), v.begin(), v.end());
            if (queue) { if (front) m.resize(m.size() - k); else m.erase(m.begin(), m.begin() + std::ptrdiff_t(k)); }
            set_want(i, m); x.given = v; x.cnt = k; x.pos = front ? 0 : n0;
            if (segmented && !queue) keep_shift(0, n0, front ? std::ptrdiff_t(k) : 0);
            r = guarded(op, faults, [&] { for (size_t q = 0; q < k; ++q) {
                if constexpr (has_front) { if (front) { c->emplace_front(v[q].key, v[q].tag); if (queue) c->pop_back(); continue; } }
                c->emplace_back(v[q].key, v[q].tag);
                if constexpr (has_front) { if (queue) c->pop_front(); }
            } }, &what);
            break; }
        default: return -1;
        }
        if (r == O_OK && K != SK_STATIC && x.exceeds && code == S_reserve) {}
        finish(op, idx, r, x, before, what, lb);
        return int(r);
    }
private:
    std::string name_, fam_;
};

} // namespace sim
#endif
