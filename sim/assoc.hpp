// Driver for the flat sets and maps: executes a program against real containers
// and a list-of-entries model, with every oracle evaluated after every call.
#ifndef SIM_ASSOC_HPP
#define SIM_ASSOC_HPP
#include "driver.hpp"
#include "assoc_codes.hpp"
#include <tuple>

namespace sim {

struct MV {
    Val k, m;
    friend bool operator==(const MV& a, const MV& b) { return a.k == b.k && a.m == b.m; }
    friend bool operator!=(const MV& a, const MV& b) { return !(a == b); }
};
using MVV = std::vector<MV>;
inline bool mv_less(const MV& a, const MV& b) {
    return std::make_tuple(a.k.key, a.k.tag, a.m.key, a.m.tag) < std::make_tuple(b.k.key, b.k.tag, b.m.key, b.m.tag);
}
inline MVV mv_sorted(MVV v) { std::sort(v.begin(), v.end(), mv_less); return v; }

// C container, KE key element, ME mapped element (void: set), F functor, P allocator policy
template <class C_, class KE_, class ME_, class F_, class P_, bool Ordered, bool Multi, bool Static, bool Transp, size_t N_>
struct AT {
    using C = C_; using KE = KE_; using ME = ME_; using F = F_; using P = P_;
    static constexpr bool ordered = Ordered, multi = Multi, is_static = Static, transp = Transp, is_map = !std::is_void<ME_>::value;
    static constexpr size_t N = N_;
};

template <class T> class AssocDriver : public Driver {
public:
    using C = typename T::C; using KE = typename T::KE; using F = typename T::F; using P = typename T::P;
    static constexpr bool is_map = T::is_map, ordered = T::ordered, multi = T::multi, is_static = T::is_static, transp = T::transp, has_alloc = !T::is_static;
    using ME = typename std::conditional<is_map, typename T::ME, KE>::type;
    static constexpr size_t N = T::N;
    static constexpr bool copyable = KE::copyable && ME::copyable;
    static constexpr bool nt = KE::nothrow_move && ME::nothrow_move;
    static constexpr int NC = 3;
    static constexpr int MAXSZ = 36, BIGSZ = 700;
    static constexpr int per = (KE::tracked ? 1 : 0) + (is_map && ME::tracked ? 1 : 0);
    using V = typename C::value_type;
    using CI = typename C::const_iterator;
    using I = typename C::iterator;

    AssocDriver(std::string n, std::string fam) : name_(std::move(n)), fam_(std::move(fam)) {}
    std::string name() const override { return name_; }
    std::string family() const override { return fam_; }
    const OpInfo* ops(int& n) const override { n = A_COUNT; return ordered ? assoc_ops : assoc_ops_uno; }

    static bool supported(int code) {
        switch (code) {
        case A_c_alloc: case A_c_comp_alloc: case A_c_copy_alloc: case A_c_move_alloc: case A_reserve: case A_shrink:
            if (!has_alloc) return false; break;
        case A_ioa_c: case A_ioa_m: case A_ioa_hint_c: case A_ioa_hint_m: case A_te_c: case A_te_m: case A_te_hint_c: case A_te_hint_m: case A_sub_c: case A_sub_m:
        case A_al_ioa: case A_al_te: case A_at:
            if (!is_map || multi) return false; break;
        case A_ioa_het: case A_ioa_hint_het: case A_te_het: case A_te_hint_het: case A_sub_het: case A_at_het:
            if (!is_map || multi || !transp) return false; break;
        case A_insert_p: case A_insert_hint_p:
            if (!is_map && (!transp || multi)) return false; break;
        case A_erase_het: case A_lookup_het: if (!transp) return false; break;
        case A_mutate: if (!is_map) return false; break;
        default: break;
        }
        if (!copyable) switch (code) {
        case A_c_range_in: case A_c_range_fwd: case A_c_ilist: case A_c_copy: case A_c_copy_alloc: case A_a_eq_copy: case A_a_eq_ilist: case A_a_self_copy:
        case A_insert_c: case A_insert_hint_c: case A_insert_in: case A_insert_fwd: case A_insert_ilist: case A_ioa_c: case A_ioa_hint_c: case A_te_c: case A_te_hint_c: case A_sub_c:
        case A_al_insert: case A_al_insert_hint: case A_al_emplace: case A_al_ioa: case A_al_te:
            return false;
        default: break;
        }
        return true;
    }

    // ------------------------------------------------------------ generation
    // Few elements in a large block, a container its elements were moved out of, a container that is exactly full; then
    // transfers from it or calls on it.
    void shape_heap(Rng& r, Program& out, int c) {
        auto add = [&](int code, int slot, int a, int b, int parity, bool hot) {
            if (!supported(code)) return;
            Op op; op.code = uint16_t(code); op.c = slot; op.a = a; op.b = b; op.d = int32_t(r.below(1u << 15) * 2 + uint32_t(parity)); op.e = int32_t((int(out.ops.size() + 1) << 8) | int(r.below(40)));
            if (hot) out.hot.push_back(int(out.ops.size()));
            out.ops.push_back(op);
        };
        auto any = [&] { return int(r.below(2)); };
        const int scenario = int(r.below(3)), fill = scenario == 2 ? int(r.below(5)) : int(r.below(uint32_t(N) + 6)), keep = int(r.below(uint32_t(fill) + 1));
        if (r.chance(2, 3)) { add(A_clear, c, 0, 0, any(), false); add(A_shrink, c, 0, 0, any(), false); }
        if (scenario == 2) add(A_insert_mv, c, 0, 104 + int(r.below(3)), any(), false);
        for (int k = 0; k < fill; ++k) add(r.chance(1, 2) ? A_emplace : A_insert_m, c, 0, 0, any(), false);
        if (r.chance(1, 2)) add(A_reserve, c, 0, fill + int(r.below(12)), any(), false);
        if (scenario != 2) for (int k = keep; k < fill; ++k) add(A_erase_pos, c, int(r.below(64)), 0, any(), false);
        const int to = 1 + any();
        auto transfer = [&](bool hot) {
            static const int tr[] = {A_c_move_alloc, A_c_move_alloc, A_c_move, A_a_eq_move, A_a_eq_move, A_c_copy_alloc, A_c_copy, A_a_eq_copy, A_a_eq_copy, A_swap, A_swap, A_swap_free};
            int code = tr[r.below(sizeof tr / sizeof *tr)]; if (!supported(code)) code = A_a_eq_move;
            add(code, (c + to) % NC, 0, 0, to == 1 ? 1 : 0, hot);
        };
        static const int use[] = {A_emplace, A_insert_m, A_insert_c, A_insert_mv, A_insert_fwd, A_emplace_hint, A_insert_hint_c, A_insert_hint_m, A_insert_in, A_insert_inmv, A_insert_ilist, A_ioa_c, A_ioa_m, A_ioa_hint_m, A_te_c, A_te_m, A_te_hint_m, A_sub_c, A_sub_m, A_a_eq_ilist, A_reserve, A_shrink};
        auto call = [&] { int code = A_emplace; for (int k = 0; k < 6; ++k) { int z = use[r.below(sizeof use / sizeof *use)]; if (supported(z)) { code = z; break; } } add(code, c, int(r.below(64)), int(r.below(uint32_t(N) + 5)), any(), true); };
        if (scenario == 0) { transfer(true); if (r.chance(1, 2)) transfer(true); }
        else if (scenario == 1) { add(r.chance(1, 2) ? A_c_move : A_a_eq_move, (c + to) % NC, 0, 0, to == 1 ? 1 : 0, r.chance(1, 3)); call(); if (r.chance(1, 2)) call(); }
        else { call(); if (r.chance(1, 3)) transfer(true); }
    }
    void gen(Rng& r, const Profile& pf, Program& out) override {
        int n = pf.min_ops + int(r.below(uint32_t(pf.max_ops - pf.min_ops + 1)));
        int nops; const OpInfo* t = ops(nops);
        std::vector<int> w(A_COUNT, 0);
        bool uniform = r.chance(1, 4);
        for (int i = 0; i < A_COUNT; ++i) {
            if (!supported(i)) continue;
            if (pf.only != OC_ANY && !(t[i].cls & pf.only)) { if (!r.chance(1, 6)) continue; }
            int base = uniform ? 4 : t[i].weight;
            if (!r.chance(3, 4)) { if (r.chance(1, 2)) base = 0; else base *= 3; } // swarm
            if (t[i].cls & pf.boost) base *= pf.boost_factor;
            w[i] = base;
        }
        w[A_emplace] += 6; w[A_insert_m] += 6; w[A_insert_mv] += 2;
        if (pf.boost & OC_BURST) w[A_burst] = 20;
        int tot = 0; for (int x : w) tot += x;
        bool limit = pf.limit_pct && r.chance(uint32_t(pf.limit_pct), 100) && has_alloc && !P::min;
        out.max_elems = limit ? int64_t(std::max<size_t>(N, 2) + r.below(14)) : 0;
        out.big = r.chance(1, pf.big_den);
        int focus = r.chance(1, 2) ? int(r.below(NC)) : -1;
        const int shaping = has_alloc && r.chance(1, 3) ? 7 : 0;
        uint32_t keyspace = r.chance(1, 4) ? 3 : r.chance(1, 3) ? 10 : 40;
        for (int i = 0; i < n; ++i) {
            if (shaping && r.chance(1, uint32_t(shaping))) { shape_heap(r, out, int(focus >= 0 ? focus : int(r.below(NC)))); i += 4; continue; }
            int q = int(r.below(uint32_t(tot))), code = 0;
            while (q >= w[code]) { q -= w[code]; ++code; }
            Op op; op.code = uint16_t(code);
            op.c = (focus >= 0 && r.chance(4, 5)) ? focus : int(r.below(NC));
            uint32_t big = r.below(8);
            op.a = int32_t(r.below(1u << 20));
            op.b = big == 0 ? int32_t(r.below(30)) : big < 3 ? int32_t(r.below(14)) : int32_t(r.below(6));
            if (out.big && r.chance(1, 4)) op.b = 200 + int32_t(r.below(400)); // now and then large amounts
            else if (r.chance(1, 5)) op.b = 100 + int32_t(r.below(pf.huge_pct && r.chance(uint32_t(pf.huge_pct), 100) ? 24 : 16)); // an amount next to a boundary of the container (100..115) or far above every limit (116..123)
            op.d = int32_t(r.below(1u << 16));
            op.e = int32_t(((i + 1) << 8) | int(r.below(keyspace)));
            out.ops.push_back(op);
        }
    }

    // ------------------------------------------------------------- execution
    struct Slot { C* c = nullptr; int blk = -1; MVV m; int alloc = 0; int f = 0; bool dirty = false; };
    struct Snap { std::vector<const void*> addr; size_t cap = 0, av = 0; bool heap = false; int alloc = 0; };
    enum Mode { M_NONE, M_EXACT, M_SET, M_INSERT, M_PREFIX };
    struct Exp {
        uint32_t touched = 0;
        Mode mode[NC] = {}; MVV want[NC]; size_t prefix = 0;
        int want_alloc[NC] = {-1, -1, -1}, want_f[NC] = {-1, -1, -1};
        bool strong = false, push = false, nothrow = false, fits = false, exceeds = false, limit_strong = false, no_elem_ops = false, range_err = false, no_limit_claim = false;
        bool stream = false, untouched = false, lookup = false;
        VKind kind = V_MODEL;
        MVV given;
        MVV ins;                               // M_INSERT: what may be added
        size_t cnt = 0;
        struct Keep { int slot; size_t idx; const void* addr; }; std::vector<Keep> keep;
        int cap_keep = -1, new_slot = -1, transfer = 0;
        int min_cap = -1; size_t min_cap_v = 0;
    };
    Slot s_[NC];
    RunObs* o_ = nullptr;

    static int alloc_id(const C& c) { if constexpr (has_alloc) return c.get_allocator().id(); else return 0; }
    static int fstate(const C& c) { if constexpr (ordered) return c.key_comp().state; else return c.key_eq().state; }

    template <class... A> void place(int i, A&&... a) { ::new ((void*)s_[i].c) C(std::forward<A>(a)...); }
    void raw_slot(int i) {
        s_[i].c = (C*)W.arena.alloc(sizeof(C), 1, sizeof(C), alignof(C), -1);
        s_[i].blk = W.arena.find(s_[i].c); s_[i].dirty = false;
    }
    void drop_slot(int i) {
        s_[i].c = nullptr;
        if (s_[i].blk >= 0) W.arena.released(s_[i].blk);
        s_[i].blk = -1; s_[i].m.clear(); s_[i].dirty = false;
    }
    void ensure(int i) {
        if (s_[i].c) return;
        raw_slot(i);
        F f(i == 1 ? 1 : 0);
        if constexpr (has_alloc) { typename C::allocator_type al(i % 2 + 1); place(i, f, al); }
        else place(i, f);
        s_[i].m.clear(); s_[i].alloc = alloc_id(*s_[i].c); s_[i].f = i == 1 ? 1 : 0;
    }
    void destroy(int i, const Op& op, bool faults) {
        if (!s_[i].c) return;
        W.phase = "destructor";
        C* c = s_[i].c;
        Outcome r = guarded(op, faults, [&] { c->~C(); });
        if (r != O_OK) W.violate(V_NOTHROW, "destructor let an exception out");
        if (W.op_alloc_attempts) W.soft(V_CAPACITY, "destructor allocates");
        if (!W.arena.guards_ok(W.arena.blocks[s_[i].blk])) W.violate(W.mk(V_ALLOC), "memory next to a container object was overwritten");
        drop_slot(i);
        W.phase = "";
    }
    // a container left in a valid but unspecified state is only cleared before it is used further
    void clean(int i) {
        if (!s_[i].c || !s_[i].dirty) return;
        Op none; const char* ph = W.phase; W.phase = "clear";
        Outcome r = guarded(none, false, [&] { s_[i].c->clear(); });
        if (r != O_OK) W.violate(V_NOTHROW, "clear() let an exception out");
        s_[i].m.clear(); s_[i].dirty = false;
        check_slot(i, {}, M_EXACT, V_BASIC, "after clear");
        W.phase = ph;
    }

    Snap snap(int i) {
        Snap s; if (!s_[i].c) return s;
        const C& c = *s_[i].c;
        for (CI it = c.begin(); it != c.end(); ++it) s.addr.push_back(&*it);
        s.cap = c.capacity(); s.av = c.available(); s.heap = is_heap(i); s.alloc = alloc_id(c);
        return s;
    }
    bool is_heap(int i) {
        if constexpr (is_static) return false;
        const C& c = *s_[i].c;
        const char* d = (const char*)c.data(); const char* lo = (const char*)s_[i].c;
        return d != nullptr && !(d >= lo && d < lo + sizeof(C));
    }

    static MV val_of(const Op& op, int i) {
        MV v; int32_t span = (4 + umod(op.d >> 5, 40)) * (op.b >= 200 ? 16 : 1), step = 1 + umod(op.d >> 2, 11);
        v.k = Val{i == 0 ? (op.e & 0xff) : umod((op.e & 0xff) + i * step, span), (op.e >> 8) * 2048 + i};
        if (is_map) v.m = Val{umod(v.k.key * 5 + 3, 64), (op.e >> 8) * 2048 + 1024 + i};
        return v;
    }
    static MVV values_of(const Op& op, int n) { MVV v; for (int i = 0; i < n; ++i) v.push_back(val_of(op, i)); return v; }
    static KE mk_k(const MV& v) { return KE(v.k.key, v.k.tag); }
    static ME mk_m(const MV& v) { return ME(v.m.key, v.m.tag); }
    static void put(void* p, const MV& v) {
        if constexpr (is_map) ::new (p) V(std::piecewise_construct, std::forward_as_tuple(v.k.key, v.k.tag), std::forward_as_tuple(v.m.key, v.m.tag));
        else ::new (p) V(v.k.key, v.k.tag);
    }
    static V mk(const MV& v) {
        if constexpr (is_map) return V(std::piecewise_construct, std::forward_as_tuple(v.k.key, v.k.tag), std::forward_as_tuple(v.m.key, v.m.tag));
        else return V(v.k.key, v.k.tag);
    }
    static const KE& keyof(const V& v) { if constexpr (is_map) return v.first; else return v; }
    template <class Q> static auto& mkey(Q& v) { if constexpr (is_map) return v.first; else return v; }
    static MV peekv(const V& v) { MV r; r.k = keyof(v).peek(); if constexpr (is_map) r.m = v.second.peek(); return r; }

    struct Arr {
        V* p = nullptr; size_t n = 0; void* raw = nullptr;
        explicit Arr(const MVV& v) { raw = aligned_alloc(OA_ALIGN, (sizeof(V) * (v.size() + 1) + OA_ALIGN - 1) / OA_ALIGN * OA_ALIGN); p = (V*)raw; for (auto& x : v) { put(p + n, x); ++n; } }
        ~Arr() { for (size_t i = 0; i < n; ++i) p[i].~V(); free(raw); }
        Arr(const Arr&) = delete;
    };
    template <class Cat, RefMode RM, class G> Outcome with_range(const Op& op, bool faults, const MVV& v, Exp& x, std::string& what, G f) {
        Arr a(v); Stream<V> st; st.data = a.p; st.n = a.n; st.single = std::is_same<Cat, std::input_iterator_tag>::value;
        using It = SrcIt<V, Cat, RM>;
        x.stream = true;
        Outcome r = guarded(op, faults, [&] { f(It(&st, 0), It(&st, st.n)); }, &what);
        if (r == O_OK) {
            if (st.single && st.pos != st.n) W.soft(V_STREAM, "single-pass input left at item %zu of %zu after success", st.pos, st.n);
            if (st.maxread != st.n) W.soft(V_STREAM, "only %zu of %zu items of the range were read", st.maxread, st.n);
        }
        return r;
    }
    template <class G> Outcome with_ilist(const Op& op, bool faults, const MVV& v, std::string& what, G f) {
        if constexpr (!copyable) return O_OK; else
        switch (v.size()) {
        case 0: { std::initializer_list<V> il = {}; return guarded(op, faults, [&] { f(il); }, &what); }
        case 1: { std::initializer_list<V> il = {mk(v[0])}; return guarded(op, faults, [&] { f(il); }, &what); }
        case 2: { std::initializer_list<V> il = {mk(v[0]), mk(v[1])}; return guarded(op, faults, [&] { f(il); }, &what); }
        default: { std::initializer_list<V> il = {mk(v[0]), mk(v[1]), mk(v[2])}; return guarded(op, faults, [&] { f(il); }, &what); }
        }
    }

    // ---- model helpers ----
    static bool moved_any(const MVV& v) { for (auto& x : v) if (x.k.moved() || x.m.moved()) return true; return false; }
    MVV read(int i) { MVV v; const C& c = *s_[i].c; size_t n = c.size(), k = 0; for (CI it = c.begin(); it != c.end(); ++it) { if (++k > n + 4) break; v.push_back(peekv(*it)); } return v; }
    static bool in_order(const MVV& v, int f) {
        for (size_t k = 0; k + 1 < v.size(); ++k) { int32_t a = fk(v[k].k.key, f), b = fk(v[k + 1].k.key, f); if (multi ? b < a : b <= a) return false; }
        return true;
    }
    static bool valid(const MVV& v, int f) {
        if (moved_any(v)) return false;
        if (ordered) return in_order(v, f);
        if (!multi) for (size_t a = 0; a < v.size(); ++a) for (size_t b = a + 1; b < v.size(); ++b) if (fk(v[a].k.key, f) == fk(v[b].k.key, f)) return false;
        return true;
    }
    static size_t find(const MVV& m, int32_t key, int f) { for (size_t k = 0; k < m.size(); ++k) if (fk(m[k].k.key, f) == fk(key, f)) return k; return m.size(); }
    static size_t count(const MVV& m, int32_t key, int f) { size_t n = 0; for (auto& e : m) n += fk(e.k.key, f) == fk(key, f); return n; }
    static size_t lower(const MVV& m, int32_t key, int f) { size_t k = 0; while (k < m.size() && fk(m[k].k.key, f) < fk(key, f)) ++k; return k; }
    static size_t upper(const MVV& m, int32_t key, int f) { size_t k = 0; while (k < m.size() && fk(m[k].k.key, f) <= fk(key, f)) ++k; return k; }
    static MVV insert_first(MVV m, const MVV& add, int f) { for (auto& v : add) { if (!multi && find(m, v.k.key, f) != m.size()) continue; if (ordered) m.insert(m.begin() + std::ptrdiff_t(upper(m, v.k.key, f)), v); else m.push_back(v); } return m; }
    static std::string show(const MVV& m) { std::string b = "["; size_t k = 0; for (auto& v : m) { if (++k > 40) break; char t[80]; if (is_map) snprintf(t, sizeof t, "%d/%d=%d/%d ", v.k.key, v.k.tag, v.m.key, v.m.tag); else snprintf(t, sizeof t, "%d/%d ", v.k.key, v.k.tag); b += t; } return b.substr(0, 500) + "]"; }

    // ---- full comparison of a container with its model ----
    void check_slot(int i, const MVV& want, Mode mode, VKind kind, const char* where, const MVV* add = nullptr, size_t prefix = 0) {
        ++W.st.checks;
        const C& c = *s_[i].c;
        size_t n = c.size();
        if (n > size_t(4 * BIGSZ)) W.violate(V_BASIC, "%s: container %d reports size %zu", where, i, n);
        int own = alloc_id(c);
        size_t k = 0;
        for (CI it = c.begin(), en = c.end(); it != en; ++it, ++k) {
            if (k >= n) W.violate(kind, "%s: container %d iterates past size() = %zu", where, i, n);
            const V& e = *it; peekv(e);
            int b = W.arena.containing(&e);
            if (b < 0) W.violate(W.mk(V_ALLOC), "%s: container %d holds an element outside its storage", where, i);
            const Block& bl = W.arena.blocks[b];
            if (!bl.live) W.violate(W.mk(V_ALLOC), "%s: container %d holds an element in released storage", where, i);
            if (bl.group == -1) { if (b != s_[i].blk) W.violate(V_ALLOC, "%s: container %d holds an element inside another container object", where, i); }
            else if (bl.group != own) W.violate(V_ALLOC, "%s: container %d (allocator %d) holds storage of allocator %d", where, i, own, bl.group);
        }
        if (k != n) W.violate(kind, "%s: container %d iterates %zu elements but size() is %zu", where, i, k, n);
        if (c.empty() != (n == 0)) W.violate(kind, "%s: container %d empty() wrong", where, i);
        size_t cap = c.capacity();
        if (cap < n) W.soft(V_CAPACITY, "%s: container %d capacity %zu below size %zu", where, i, cap, n);
        if (c.available() != cap - n) W.soft(V_CAPACITY, "%s: available() %zu != capacity %zu - size %zu", where, size_t(c.available()), cap, n);
        if constexpr (is_static) { if (cap != N || c.max_size() != N || c.full() != (n == N)) W.soft(V_CAPACITY, "static capacity/full wrong"); }
        if (mode == M_NONE) return;
        MVV got = read(i); const int f = fstate(c);
        auto bad = [&](const char* how) { W.violate(kind, "%s: container %d (functor %d) %s: expected %s%s but holds %s", where, i, f, how, show(want).c_str(), add ? (" plus " + show(*add)).c_str() : "", show(got).c_str()); };
        if (!valid(got, f)) bad(ordered ? "is out of order, has duplicate keys or moved-from elements" : "has duplicate keys or moved-from elements");
        if (mode == M_EXACT) { if (got != want) bad("differs"); }
        else if (mode == M_SET) { if (ordered ? got != want : mv_sorted(got) != mv_sorted(want)) bad("differs"); }
        else if (mode == M_PREFIX) {
            if (got.size() != want.size() || mv_sorted(got) != mv_sorted(want)) bad("differs");
            for (size_t q = 0; q < prefix; ++q) if (got[q] != want[q]) bad("reordered elements before the erased position");
        } else {
            // want (the old contents) plus a selection of `add`
            MVV w = mv_sorted(want), g = mv_sorted(got), rest, ad = mv_sorted(*add);
            std::set_difference(g.begin(), g.end(), w.begin(), w.end(), std::back_inserter(rest), mv_less);
            if (g.size() != w.size() + rest.size()) bad("lost elements");
            MVV extra; std::set_difference(rest.begin(), rest.end(), ad.begin(), ad.end(), std::back_inserter(extra), mv_less);
            if (!extra.empty()) bad("holds elements nobody inserted");
            MVV e = insert_first(want, *add, f);
            if (got.size() != e.size()) bad("holds the wrong number of elements");
            if (ordered) { size_t q = 0; for (auto& v : got) if (q < want.size() && v == want[q]) ++q; if (q != want.size()) bad("changed the order of elements"); }
        }
    }

    template <class Q> static constexpr bool is_const_c() { return std::is_const<Q>::value; }
    // agreement of all observers with the model, through a const or a mutable reference
    template <class Q> void check_access_on(Q& c, int i, const MVV& want) {
        const size_t n = want.size();
        auto bad = [&](const char* w, size_t k) { W.violate(V_RETURN, "container %d: %s%s disagrees at %zu of %zu", i, std::is_const<Q>::value ? "const " : "", w, k, n); };
        if (c.size() != n || c.empty() != (n == 0)) bad("size", 0);
        auto d = c.data();
        for (size_t k = 0; k < n; ++k) {
            const V* p = &*(c.begin() + std::ptrdiff_t(k));
            if (peekv(*p) != want[k]) bad("begin()+k", k);
            if (&*c.nth(k) != p) bad("nth", k);
            if (size_t(c.index_of(c.nth(k))) != k) bad("index_of", k);
            if (&c.begin()[std::ptrdiff_t(k)] != p) bad("iterator[]", k);
            if (&*(c.end() - std::ptrdiff_t(n - k)) != p) bad("end()-k", k);
            if (&*(c.cbegin() + std::ptrdiff_t(k)) != p) bad("cbegin()+k", k);
            if (d + k != p) bad("data", k);
            if constexpr (ordered) { if (&*(c.rbegin() + std::ptrdiff_t(n - 1 - k)) != p || &*(c.crbegin() + std::ptrdiff_t(n - 1 - k)) != p) bad("rbegin()+k", k); }
        }
        if (c.nth(n) != c.end() || size_t(c.index_of(c.end())) != n || c.cend() != c.end() || c.cend() - c.cbegin() != std::ptrdiff_t(n)) bad("end", n);
        if constexpr (ordered) { if (c.rend() - c.rbegin() != std::ptrdiff_t(n) || c.crend() != c.rend() || c.crend() - c.crbegin() != std::ptrdiff_t(n)) bad("rend", n); }
        { size_t k = 0; auto it = c.begin(); while (it != c.end()) { auto j = it++; if (peekv(*j) != want[k]) bad("iterator++", k); ++k; } while (it != c.begin()) { --it; --k; if (peekv(*it) != want[k]) bad("iterator--", k); } }
        iterator_laws(c, n, bad);
        if (fstate(c) != s_[i].f) W.violate(V_MODEL, "container %d has functor state %d, expected %d", i, fstate(c), s_[i].f);
        if (n >= 2) {
            Op none; (void)none; const V& a = *c.begin(); const V& b = *(c.end() - 1);
            if constexpr (ordered) { if (c.value_comp()(a, b) != (fk(want[0].k.key, s_[i].f) < fk(want[n - 1].k.key, s_[i].f))) bad("value_comp", 0); }
            else if constexpr (is_map) { if (c.value_eq()(a, b) != (fk(want[0].k.key, s_[i].f) == fk(want[n - 1].k.key, s_[i].f))) bad("value_eq", 0); }
        }
    }
    template <class Q, class K> void check_lookup_on(Q& c, int i, int32_t key, const K& probe) {
        const MVV& m = s_[i].m; const int f = s_[i].f; const size_t n = m.size(), cnt = count(m, key, f);
        auto bad = [&](const char* w) { W.violate(V_RETURN, "container %d: %s%s of key %d disagrees with the model (%zu equal keys, functor %d)", i, std::is_const<Q>::value ? "const " : "", w, key, cnt, f); };
        auto b = c.begin(); uint64_t calls0 = W.op_calls; uint64_t lg = 1; while ((1ull << lg) < n + 1) ++lg;
        auto most = [&](uint64_t may, const char* w) { if (W.op_calls - calls0 > may) W.soft(V_COST, "container %d: %s made %llu comparisons of keys among %zu elements", i, w, (unsigned long long)(W.op_calls - calls0), n); calls0 = W.op_calls; };
        const uint64_t one = ordered ? 3 * lg + 6 : 2 * n + 2;
        { auto it = c.find(probe); most(one, "find"); size_t p = size_t(it - b); if ((p == n) != (cnt == 0)) bad("find"); if (p > n || (p < n && fk(m[p].k.key, f) != fk(key, f))) bad("find"); }
        if (c.count(probe) != cnt) bad("count");
        most(ordered ? 2 * one + cnt : one, "count");
        if (c.contains(probe) != (cnt != 0)) bad("contains");
        most(one, "contains");
        if constexpr (ordered) {
            if (size_t(c.lower_bound(probe) - b) != lower(m, key, f)) bad("lower_bound");
            most(one, "lower_bound");
            if (size_t(c.upper_bound(probe) - b) != upper(m, key, f)) bad("upper_bound");
            most(one, "upper_bound");
            auto er = c.equal_range(probe); most(2 * one, "equal_range");
            if (size_t(er.first - b) != lower(m, key, f) || size_t(er.second - b) != upper(m, key, f)) bad("equal_range");
        }
    }
    void check_access(int i) {
        const C& cc = *s_[i].c; check_access_on(cc, i, s_[i].m); check_access_on(*s_[i].c, i, s_[i].m);
    }

    void global_checks(const char* where) {
        if (!o_->isolated) return;
        size_t n = 0; for (auto& s : s_) if (s.c) n += s.c->size() * per;
        if (W.reg.live() != n) W.violate(V_LIFETIME, "%s: %u elements are alive but the containers hold %zu", where, W.reg.live(), n);
    }

    // ---- the work a call may do: construction, assignment, comparison of elements, allocation ----
    void check_cost(const Op& op, Outcome r, const Exp& x, const Snap* before) {
        if (r == O_OTHER || !(W.enabled >> V_COST & 1)) return;
        const int i = umod(op.c, NC), j = umod(op.c + 1 + umod(op.d, NC - 1), NC), code = op.code;
        const uint64_t n0 = before[i].addr.size(), n1 = before[j].addr.size(), n = code == A_burst ? x.cnt : x.ins.size(), slack = r == O_OK ? 1 : 2;
        const uint64_t work = (W.op_ctor + W.op_assigns) / (per ? per : 1); uint64_t lg = 1; while ((1ull << lg) < std::max(n0, n1) + n + 1) ++lg;
        auto most = [&](uint64_t did, uint64_t may, const char* what) { if (did > may * slack) W.soft(V_COST, "%llu %s where %llu are enough (sizes %llu and %llu, %llu)", (unsigned long long)did, what, (unsigned long long)may, (unsigned long long)n0, (unsigned long long)n1, (unsigned long long)n); };
        if (x.new_slot >= 0 && r != O_OK) return;
        const bool grew = s_[i].c && (s_[i].c->capacity() != before[i].cap || (r != O_OK && !x.fits));
        uint64_t elems = ~0ull >> 4, calls = ~0ull >> 4, allocs = 1;
        int nops; const uint32_t cls = ops(nops)[code].cls;
        if (code == A_compare_near) return;
        if (code == A_burst) {
            const uint64_t k = n + n0; allocs = 4 * lg + 6; elems = ordered ? 2 * n * k + 12 * k + 32 : 12 * k + 32; calls = ordered ? n * (3 * lg + 8) : 2 * n * (k + 1);
            most(W.op_alloc_elems, 20 * k + 64 + 16 * N, "elements' worth of memory obtained");
        } else if (code == A_al_erase || code == A_erase_key || code == A_erase_het) {
            calls = ordered ? 4 * lg + 8 + (multi ? n0 : 0) : 2 * n0 + 2; elems = ordered ? n0 + 6 : multi ? 3 * n0 + 8 : 6; allocs = 0;
        } else if (code >= A_insert_in && code <= A_insert_ilist) {
            // one at a time
            elems = ordered ? n * (2 * (n0 + n) + 8) + 8 : 6 * n + 8; if (grew) elems += 4 * (n0 + n); calls = ordered ? n * (3 * lg + 8) : 2 * n * (n0 + n + 1); allocs = 2 * lg + 6;
        } else if ((cls & OC_KEYED) || (cls & (OC_ALIAS))) {
            // a single insertion
            const size_t pos = exists_or_pos(x, before[i].addr.size(), i);
            elems = ordered ? 2 * (n0 - std::min<size_t>(pos, n0)) + 10 : 10; if (grew) elems += 2 * n0;
            calls = multi && !ordered ? 0 : ordered ? 3 * lg + 8 : 2 * n0 + 2;
        } else if (code == A_erase_pos || code == A_erase_range) {
            const uint64_t gone = n0 - (s_[i].c ? s_[i].c->size() : 0);
            elems = r != O_OK ? 2 * n0 + 4 : ordered ? 2 * (n0 - gone - std::min<uint64_t>(x.prefix, n0 - gone)) + 4 : 2 * std::min<uint64_t>(gone, n0 - gone - std::min<uint64_t>(x.prefix, n0 - gone)) + 4;
            if (!ordered && code == A_erase_range) elems = 2 * (n0 - gone) + 4;
            calls = 0; allocs = 0;
        } else if (code == A_erase_if) {
            elems = 3 * n0 + 8; calls = n0 + 2; allocs = 0;
            if (ordered && work > elems * slack && W.known("erase-if-shifts")) elems = n0 * n0 + 2 * n0 + 8; // every erased element shifts the rest
        }
        else if (cls & OC_CAP) { elems = 2 * n0 + 4; calls = 0; }
        else if (cls & OC_CLEAR) { elems = 0; calls = 0; allocs = 0; }
        else if (cls & OC_SWAP) { elems = before[i].heap && before[j].heap ? 0 : code == A_self_swap ? 3 * n0 + 4 : 3 * (n0 + n1) + 4; calls = 0; allocs = 0; }
        else if (code == A_compare) { elems = 0; allocs = 0; if (ordered) calls = (8 * std::min(n0, n1) + 8 + (n0 == n1 ? 2 * n0 + 2 : 0)) * 4; else if (n0 != n1) calls = 0; }
        else if (code == A_a_eq_copy || code == A_a_eq_move) { elems = 2 * n1 + 8; calls = 0; }
        else if (code == A_a_self_copy || code == A_a_self_move) { elems = 2 * n0 + 8; calls = 0; }
        else if (code == A_c_copy || code == A_c_copy_alloc || code == A_c_move || code == A_c_move_alloc) { elems = n1 + 4; calls = 0; }
        else if (code <= A_c_comp_alloc) { elems = 0; calls = 0; allocs = 0; }
        else if (code <= A_c_ilist || code == A_a_eq_ilist) { elems = ordered ? n * (2 * n + 8) + 8 : 10 * n + 8; calls = ordered ? n * (3 * lg + 8) : 2 * n * (n + 1); allocs = 2 * lg + 6; }
        else if (code == A_at || code == A_at_het) { elems = 0; allocs = 0; calls = ordered ? 3 * lg + 6 : 2 * n0 + 2; }
        else if (code == A_lookup || code == A_lookup_het) { elems = 0; allocs = 0; }
        else if (code == A_mutate) { elems = 2; allocs = 0; calls = 0; }
        most(work, elems, "element constructions and assignments");
        most(W.op_calls, calls, "comparisons or predicate calls");
        most(W.op_alloc_attempts, allocs, "allocations");
    }
    // where a single key goes, as far as that can be told
    size_t exists_or_pos(const Exp& x, size_t n0, int i) const {
        if (x.ins.size() != 1 || s_[i].m.size() != n0) return n0;
        return lower(s_[i].m, x.ins[0].k.key, s_[i].f);
    }

    // ---- shared epilogue of every call ----
    void finish(const Op& op, int idx, Outcome r, Exp& x, const Snap* before, const std::string& what, uint32_t live_blocks_before) {
        int nops; const OpInfo* tbl = ops(nops);
        const char* nm = tbl[op.code].name;
        if (W.op_index != idx) W.op_index = idx;
        W.phase = nm;
        uint64_t sig = mix(op.code, uint64_t(r) * 31 + uint64_t(r == O_FAULT ? W.last_fault_kind : 0));
        if (r == O_OTHER && !W.fired_in_op) W.violate(V_UNEXPECTED, "an unexpected exception came out: %s", what.c_str());
        if (r == O_OTHER) W.violate(V_NEUTRAL, "an exception other than the injected one came out: %s", what.c_str());
        if (r == O_OK && W.fired_in_op) W.violate(V_NEUTRAL, "the injected %s failure was swallowed", fault_names[W.last_fault_kind]);
        if ((r == O_LENGTH || r == O_RANGE) && W.fired_in_op) W.violate(V_NEUTRAL, "the injected %s failure was replaced by %s", fault_names[W.last_fault_kind], outcome_names[r]);
        if (r == O_LENGTH && !x.exceeds && !x.no_limit_claim) W.violate(V_LIMIT, "length_error (%s) although max_size() is not exceeded", what.c_str());
        if (r == O_OK && x.exceeds) W.violate(V_LIMIT, "max_size() exceeded without length_error");
        if (r == O_RANGE && !x.range_err) W.violate(V_LIMIT, "unexpected out_of_range");
        if (r == O_OK && x.range_err) W.violate(V_LIMIT, "out_of_range not reported");
        if (r == O_FAULT && x.nothrow) W.violate(V_NOTHROW, "exception came out of a call that must not throw");
        if (x.fits && W.op_alloc_attempts) W.soft(V_CAPACITY, "allocation attempted although the call fits into the available capacity");
        if constexpr (is_static) { if (r == O_OK && W.op_news) W.soft(V_CAPACITY, "static container used dynamic memory"); }
        else {
            if (r == O_OK && W.op_news) W.violate(V_ALLOC, "memory obtained outside the allocator");
            if (W.op_alloc_attempts && W.op_alloc_max <= N) W.soft(V_CAPACITY, "small container allocated for %llu elements although N = %zu", (unsigned long long)W.op_alloc_max, N);
        }
        if (x.lookup && (W.op_ctor || W.op_copies || W.op_moves || W.op_assigns || W.op_alloc_attempts)) W.soft(V_CALLBACK, "lookup constructed, copied, moved or allocated something");
        if (x.untouched && r == O_OK && (W.op_assigns || W.op_alloc_attempts)) W.soft(V_CALLBACK, "an element was assigned to or storage allocated although the key exists");

        check_cost(op, r, x, before);
        if (x.new_slot >= 0 && r != O_OK) {
            int i = x.new_slot;
            W.arena.released(s_[i].blk); s_[i].c = nullptr; s_[i].blk = -1; s_[i].m.clear();
            if (o_->isolated && W.arena.live_blocks != live_blocks_before) W.violate(V_ALLOC, "failed constructor left %d blocks allocated", int(W.arena.live_blocks) - int(live_blocks_before));
        }
        if (r == O_OK) {
            if (x.no_elem_ops && (W.op_copies || W.op_moves)) W.soft(V_TRANSFER, "storage transfer copied or moved %llu elements", (unsigned long long)(W.op_copies + W.op_moves));
            for (int i = 0; i < NC; ++i) if (s_[i].c) {
                if (!(x.touched >> i & 1)) { check_slot(i, s_[i].m, s_[i].dirty ? M_NONE : M_EXACT, V_MODEL, "untouched container"); continue; }
                const int f = fstate(*s_[i].c), wf = x.want_f[i] >= 0 ? x.want_f[i] : s_[i].f;
                if (x.mode[i] == M_NONE) { s_[i].m = read(i); check_slot(i, s_[i].m, M_NONE, V_BASIC, "after call"); s_[i].f = f; s_[i].dirty = !valid(s_[i].m, f); }
                else {
                    if (f != wf) W.violate(x.kind, "container %d has functor state %d, expected %d", i, f, wf);
                    s_[i].f = f;
                    check_slot(i, x.want[i], x.mode[i], x.kind, "after call", &x.ins, x.prefix);
                    s_[i].m = read(i); s_[i].dirty = false;
                }
                int id = alloc_id(*s_[i].c);
                int wid = x.want_alloc[i] >= 0 ? x.want_alloc[i] : (i == x.new_slot ? id : s_[i].alloc);
                if (id != wid) W.violate(V_PROPAGATE, "container %d has allocator %d, expected %d", i, id, wid);
                s_[i].alloc = id;
            }
            if (x.cap_keep >= 0 && s_[x.cap_keep].c->capacity() != before[x.cap_keep].cap) W.soft(V_CAPACITY, "capacity changed from %zu to %zu", before[x.cap_keep].cap, size_t(s_[x.cap_keep].c->capacity()));
            if (x.min_cap >= 0 && s_[x.min_cap].c->capacity() < x.min_cap_v) W.soft(V_STRONG, "capacity %zu after reserve(%zu)", size_t(s_[x.min_cap].c->capacity()), x.min_cap_v);
            for (auto& k : x.keep) {
                if (!s_[k.slot].c) continue;
                if (k.idx >= s_[k.slot].c->size()) W.violate(V_STABLE, "kept element is gone");
                const C& c = *s_[k.slot].c;
                if ((const void*)&*c.nth(k.idx) != k.addr) W.soft(V_STABLE, "element %zu of container %d moved from arena offset %lld to %lld", k.idx, k.slot, (long long)W.rel(k.addr), (long long)W.rel(&*c.nth(k.idx)));
            }
        } else {
            ++W.st.ops_failed;
            MVV old[NC]; for (int i = 0; i < NC; ++i) if (x.touched >> i & 1) old[i] = s_[i].m;
            for (int i = 0; i < NC; ++i) if (s_[i].c) {
                if (!(x.touched >> i & 1)) { check_slot(i, s_[i].m, s_[i].dirty ? M_NONE : M_EXACT, V_BASIC, "untouched container after failure"); continue; }
                bool must_same = (r == O_FAULT && (x.strong || x.push)) || (r == O_LENGTH && x.limit_strong) || r == O_RANGE;
                VKind k = r == O_LENGTH || r == O_RANGE ? V_LIMIT : x.strong ? V_STRONG : V_PUSH;
                if (must_same && !s_[i].dirty) {
                    check_slot(i, s_[i].m, M_EXACT, k, "after failed call");
                    if (fstate(*s_[i].c) != s_[i].f) W.violate(k, "failed call changed the functor");
                    if (x.strong || r != O_FAULT) {
                        Snap a = snap(i);
                        if (a.cap != before[i].cap || a.addr != before[i].addr) W.violate(k, "failed call changed capacity or element addresses (capacity %zu -> %zu)", before[i].cap, a.cap);
                        if (alloc_id(*s_[i].c) != s_[i].alloc) W.violate(k, "failed call changed the allocator");
                    }
                    continue;
                }
                MVV got = read(i); const int f = fstate(*s_[i].c);
                check_slot(i, got, M_NONE, V_BASIC, "after failed call");
                const bool ok = valid(got, f), was_dirty = s_[i].dirty && !(x.mode[i] == M_EXACT && i == umod(op.c, NC) && false);
                if (nt && !ok && !was_dirty && x.transfer != i + 1)
                    W.violate(V_BASIC, "after failed call container %d (functor %d) is out of order, has duplicate keys or moved-from elements: %s", i, f, show(got).c_str());
                // nothing invented
                for (auto& v : got) {
                    if (nt && !was_dirty) {
                        if (v.k.moved() || v.m.moved()) continue;
                        size_t have = 0, had = 0; for (auto& u : got) have += u == v;
                        for (int j = 0; j < NC; ++j) if (x.touched >> j & 1) for (auto& u : old[j]) had += u == v;
                        for (auto& u : x.given) had += u == v;
                        if (!had && is_map && (op.fmask & (1u << F_COPYASG | 1u << F_MOVEASG))) { // std::pair assignment stopped half way
                            bool kf = false, mf = false;
                            for (int j = 0; j < NC; ++j) if (x.touched >> j & 1) for (auto& u : old[j]) { kf |= u.k == v.k; mf |= u.m == v.m; }
                            for (auto& u : x.given) { kf |= u.k == v.k; mf |= u.m == v.m; }
                            if (kf && mf) continue;
                        }
                        if (have > had) W.violate(x.stream ? V_STREAM : V_BASIC, "after failure container %d holds %zu of %s, of which %zu existed", i, have, show({v}).c_str(), had);
                    } else {
                        bool kf = v.k.moved(), mf = !is_map || v.m.moved();
                        for (int j = 0; j < NC; ++j) if (x.touched >> j & 1) for (auto& u : old[j]) { kf |= u.k == v.k; mf |= u.m == v.m; }
                        for (auto& u : x.given) { kf |= u.k == v.k; mf |= u.m == v.m; }
                        if (!kf || !mf) W.violate(V_BASIC, "after failure container %d holds %s which nobody put there", i, show({v}).c_str());
                    }
                }
                s_[i].m = got; s_[i].f = f; s_[i].dirty = !ok;
                s_[i].alloc = alloc_id(*s_[i].c);
            }
        }
        // contiguous storage stays where it is unless the capacity changes hands
        if (!x.transfer && x.new_slot < 0) for (int i = 0; i < NC; ++i) if ((x.touched >> i & 1) && s_[i].c && !before[i].addr.empty() && s_[i].c->size() && s_[i].c->capacity() == before[i].cap && alloc_id(*s_[i].c) == before[i].alloc)
            if ((const void*)&*s_[i].c->begin() != before[i].addr[0]) W.soft(V_STABLE, "storage of container %d moved although its capacity did not change", i);
        global_checks("after call");
        if (r == O_OK && ((op.d >> 3) & 3) == 0) for (int i = 0; i < NC; ++i) if ((x.touched >> i & 1) && s_[i].c && !s_[i].dirty) {
            W.window = false; check_access(i);
            int32_t key = s_[i].m.empty() ? 3 : s_[i].m[size_t(umod(op.a, int(s_[i].m.size())))].k.key + umod(op.b, 2);
            KE probe(key, -5); const C& cc = *s_[i].c;
            check_lookup_on(cc, i, key, probe); check_lookup_on(*s_[i].c, i, key, probe);
        }
        for (int i = 0; i < NC; ++i) if (s_[i].c && (x.touched >> i & 1)) {
            size_t n = s_[i].m.size();
            sig = mix(sig, ((n == 0 ? 0 : n == N ? 2 : n < N ? 1 : n % 4 + 3) * 64 + std::min<size_t>(before[i].av, 3) * 8 + before[i].heap) * 4 + size_t(s_[i].f));
            o_->obs = mix(o_->obs, n * 64 + size_t(i) * 4 + size_t(s_[i].f));
            for (auto& v : s_[i].m) { o_->obs = mix(o_->obs, (uint64_t(uint32_t(v.k.key)) << 32) | uint32_t(v.k.tag)); if (is_map) o_->obs = mix(o_->obs, (uint64_t(uint32_t(v.m.key)) << 32) | uint32_t(v.m.tag)); }
        }
        o_->obs = mix(o_->obs, uint64_t(r) * 1315423911u + op.code);
        if (o_->sigs) o_->sigs->insert(sig);
        W.phase = "";
    }

    uint64_t read_task(int which) override {
        uint64_t h = uint64_t(which) * 77 + 5;
        for (int i = 0; i < NC; ++i) if (s_[i].c) {
            const C& c = *s_[i].c; Op none;
            if (!s_[i].dirty) {
                guarded(none, false, [&] { check_access_on(c, i, s_[i].m); });
                for (int32_t key : {which, which + 3, 7}) {
                    KE probe(key, -6); bool own = true; (void)own;
                    guarded(none, false, [&] { check_lookup_on(c, i, key, probe); });
                    if constexpr (transp) { HKey hk{key, -7}; guarded(none, false, [&] { check_lookup_on(c, i, key, hk); }); }
                    if constexpr (is_map && !multi) { Val got; Outcome r = guarded(none, false, [&] { got = c.at(probe).peek(); }); h = mix(h, uint64_t(r)); h = mix(h, uint64_t(uint32_t(got.tag))); }
                }
                for (int j = 0; j < NC; ++j) if (s_[j].c && !s_[j].dirty) { const C& d = *s_[j].c; bool a = false; guarded(none, false, [&] { a = c == d; }); h = mix(h, a * 2); }
            }
            if constexpr (copyable) { guarded(none, false, [&] { C copy(c); h = mix(h, copy.size()); }); }
            size_t k = 0; for (CI it = c.begin(); it != c.end(); ++it, ++k) { MV v = peekv(*it); h = mix(h, (uint64_t(uint32_t(v.k.key)) << 32) | uint32_t(v.k.tag)); h = mix(h, uint32_t(v.m.tag)); }
            h = mix(h, k); h = mix(h, c.capacity());
        }
        return h;
    }
    void each_object(const std::function<void(const void*, size_t)>& f) override { for (auto& s : s_) if (s.c) f(s.c, sizeof(C)); }
    static int sel(int id) { return P::sel ? (id < SELECT_BIT ? id + SELECT_BIT : id) : id; }
    static int aid(int d) { return P::ae ? 0 : 1 + umod(d, 3); }

    void exec(const Program& p, RunObs& o) override { if (body(p, o)) conclude(p, o); }
    bool body(const Program& p, RunObs& o) override {
        o_ = &o;
        for (auto& s : s_) s = Slot();
        g_max_elems = p.max_elems ? size_t(p.max_elems) : (size_t(1) << 40);
        int nops; const OpInfo* tbl = ops(nops);
        for (size_t i = 0; i < p.ops.size(); ++i) {
            const Op& op = p.ops[i];
            W.past_limit = false; W.op_index = int(i); W.phase = tbl[op.code].name; W.op_owned = (tbl[op.code].cls & W.own_cls) != 0;
            ++W.st.ops;
            int r = step(op, int(i), true, p.max_elems != 0);
            if (r < 0) ++W.st.ops_skipped;
            if (o.counts) { OpCount oc; memcpy(oc.kind, W.kind_count, sizeof oc.kind); if (r < 0) memset(oc.kind, 0, sizeof oc.kind); o.counts->push_back(oc); }
            if (o.stop_on_error && (r == O_LENGTH || r == O_RANGE)) { o.stop_op = int(i); return false; }
            if (o.op_obs) o.op_obs->push_back(mix(o.obs, W.hash));
            if (o.plain_obs) o.plain_obs->push_back(o.obs);
            W.yield();
        }
        W.oom_left = 0;
        W.past_limit = false; W.op_index = int(p.ops.size()); W.op_owned = false;
        return true;
    }
    void conclude(const Program& p, RunObs& o) override {
        o_ = &o;
        for (int i = 0; i < NC; ++i) if (s_[i].c) {
            W.phase = "recovery"; clean(i);
            Op none; MV v; v.k = Val{77, 9999}; if (is_map) v.m = Val{5, 9998};
            if (!p.max_elems && (!is_static || s_[i].m.size() < N)) {
                V e = mk(v);
                Outcome r = guarded(none, false, [&] { s_[i].c->insert(std::move(e)); });
                if (r != O_OK) W.violate(V_BASIC, "insert fails after failures stopped");
                MVV add{v}; check_slot(i, s_[i].m, M_INSERT, V_BASIC, "recovery insert", &add);
                s_[i].m = read(i);
            }
            check_access(i);
            KE probe(77, 1); check_lookup_on(*s_[i].c, i, 77, probe);
        }
        Op kill; kill.fmode = FM_TOTAL; kill.fmask = (1u << F_COUNT) - 1;
        for (int i = 0; i < NC; ++i) destroy(i, kill, true);
        W.phase = "teardown";
        if (o.isolated) {
            if (W.reg.live()) W.violate(V_LIFETIME, "%u elements still alive after all containers were destroyed", W.reg.live());
            if (W.arena.live_blocks != dead_objects()) W.violate(V_ALLOC, "%d allocated blocks never released", int(W.arena.live_blocks) - int(dead_objects()));
            for (auto& b : W.arena.blocks) if (!W.arena.guards_ok(b)) W.violate(W.mk(V_ALLOC), "memory next to block #%u was overwritten", b.serial);
            for (auto& b : W.arena.blocks) if (b.group != -1) {
                const unsigned char* q = (const unsigned char*)W.arena.at(b);
                for (uint32_t k = 0; k < b.bytes; ++k) if (q[k] != 0xDD) W.violate(W.mk(V_ALLOC), "released block #%u was written to", b.serial);
            }
        }
        W.phase = "";
    }
    uint32_t dead_objects() const { return W.arena.objects; }

    // result of a single-element insertion
    struct Ret { CI it; int inserted = -1; };
    static Ret ret(const std::pair<I, bool>& p) { return Ret{CI(p.first), int(p.second)}; }
    static Ret ret(const I& it) { return Ret{CI(it), -1}; }

    int step(const Op& op, int idx, bool faults, bool limited) {
        const int i = umod(op.c, NC);
        const int j = umod(op.c + 1 + umod(op.d, NC - 1), NC);
        Exp x; std::string what; Outcome r = O_OK;
        const int code = op.code;
        if (!supported(code)) return -1;
        int nops; const OpInfo* tbl = ops(nops);
        if (code == A_destroy) { if (!s_[i].c) return -1; Op k = op; if (op.fmode) { k.fmode = FM_TOTAL; k.fmask = ~0u; } destroy(i, k, faults); global_checks("after destroy"); return 0; }
        const bool is_ctor = code <= A_c_move_alloc;
        const bool from_j = code == A_c_copy || code == A_c_copy_alloc || code == A_c_move || code == A_c_move_alloc || code == A_a_eq_copy || code == A_a_eq_move;
        const bool two = from_j || code == A_swap || code == A_swap_free || code == A_compare;
        if (two) ensure(j);
        if (is_ctor) { Op none; if (s_[i].c) destroy(i, none, false); } else ensure(i);
        const bool ok_dirty = code == A_a_eq_copy || code == A_a_eq_move || code == A_a_eq_ilist || code == A_clear || code == A_swap || code == A_swap_free || code == A_self_swap || code == A_a_self_move;
        if (!is_ctor && !ok_dirty) clean(i);
        if (two && !(code == A_swap || code == A_swap_free)) clean(j);
        Snap before[NC]; for (int k = 0; k < NC; ++k) before[k] = snap(k);
        const uint32_t lb = W.arena.live_blocks + (is_ctor ? 1 : 0);
        const size_t n0 = s_[i].c ? s_[i].m.size() : 0;
        const size_t maxsz = is_static ? N : op.b >= 200 || n0 > MAXSZ ? size_t(BIGSZ) : size_t(MAXSZ);
        const size_t msz = limited ? g_max_elems : unlimited_size<P>(sizeof(V));
        const size_t msz_hi = is_static ? (size_t(1) << 40) : std::max(msz, N);
        W.op_index = idx; W.phase = tbl[code].name;
        x.touched = 1u << i;
        size_t nb = op.b >= 200 ? size_t(umod(op.b - 200, 500)) : size_t(umod(op.b, 41));
        if (op.b >= 100 && op.b < 116) {
            const bool total = tbl[code].cls & (OC_ASSIGN | OC_RESIZE | OC_CAP) || is_ctor;
            const int64_t lm = limited ? int64_t(msz) : int64_t(N), base = total ? 0 : int64_t(n0);
            const int64_t at[4] = {total ? int64_t(before[i].cap) : int64_t(before[i].av), int64_t(n0), int64_t(N) - base, lm - base};
            const int64_t v = at[(op.b - 100) & 3] + ((op.b - 100) >> 2) - 1;
            nb = size_t(std::min<int64_t>(std::max<int64_t>(v, 0), n0 > MAXSZ ? BIGSZ : 40));
        }
        auto room = [&](size_t add) { return n0 + add <= maxsz; };
        auto lim = [&](size_t final_size) { if (final_size > msz_hi) W.past_limit = x.exceeds = true; else if (final_size > msz) x.no_limit_claim = true; };
        auto want = [&](int s, Mode md, MVV v) { x.want[s] = std::move(v); x.mode[s] = md; };
        C* c = s_[i].c; MVV& m0 = s_[i].m; const int f0 = s_[i].f;
        auto av = [&] { return before[i].av; };

        // single insertion with key v.k; assign: an existing mapped value is replaced
        bool exists = false; size_t at = 0; bool hinted = false; CI hint;
        auto prep = [&](const MV& v, bool assign, bool emplaced) {
            at = multi ? n0 : find(m0, v.k.key, f0); exists = !multi && at != n0;
            x.given = {v};
            if (exists) {
                MVV w = m0; if (assign) { w[at].m = v.m; x.given.push_back(MV{m0[at].k, v.m}); } else x.untouched = !emplaced;
                want(i, M_EXACT, w); x.fits = !(emplaced && !ordered);
                if (emplaced && !ordered && n0 + 1 > msz) x.no_limit_claim = true;
                x.cap_keep = emplaced && !ordered ? -1 : i;
                if (!ordered && !assign) x.push = nt || copyable;
            } else {
                want(i, M_INSERT, m0); x.ins = {v}; lim(n0 + 1); x.limit_strong = true;
                if (is_static || av() >= 1) x.fits = true;
                if (!ordered) x.push = nt || copyable;
            }
        };
        auto hint_it = [&](const MV& v) {  // a good, a slightly wrong or an arbitrary hint
            size_t p = 0;
            if (ordered) switch (umod(op.a, 4)) { case 0: p = lower(m0, v.k.key, f0); break; case 1: p = upper(m0, v.k.key, f0); break; case 2: p = std::min(n0, lower(m0, v.k.key, f0) + 1); break; default: p = size_t(umod(op.a >> 2, int(n0) + 1)); }
            else p = size_t(umod(op.a >> 2, int(n0) + 1));
            hint = c->cbegin() + std::ptrdiff_t(p); hinted = true;
        };
        auto check_ret = [&](const MV& v, const Ret& q) {
            if (r != O_OK) return;
            size_t p = size_t(q.it - c->cbegin()), n = c->size();
            if (exists) { if (p != at) W.soft(x.kind == V_ALIAS ? V_ALIAS : V_RETURN, "returned position %zu instead of the existing element at %zu", p, at); if (q.inserted == 1) W.soft(V_RETURN, "reports an insertion although the key exists"); }
            else { if (p >= n || peekv(*q.it) != v) W.soft(x.kind == V_ALIAS ? V_ALIAS : V_RETURN, "returned iterator does not refer to the inserted element"); if (q.inserted == 0) W.soft(V_RETURN, "reports no insertion although the key was absent"); }
        };
        auto range_prep = [&](const MVV& v) {
            want(i, M_INSERT, m0); x.ins = v; x.given = v; MVV e = insert_first(m0, v, f0); lim(e.size());
            if (is_static || v.size() <= av()) x.fits = true;
        };

        switch (code) {
        // ------------------------------------------------------------ constructors
        case A_c_default: case A_c_comp: case A_c_alloc: case A_c_comp_alloc: {
            raw_slot(i); x.new_slot = i; want(i, M_EXACT, {}); x.nothrow = true; x.fits = true;
            int st = umod(op.d >> 4, 4), id = aid(op.d);
            x.want_f[i] = code == A_c_comp || code == A_c_comp_alloc ? st : 0; x.want_alloc[i] = code == A_c_alloc || code == A_c_comp_alloc ? id : 0;
            if (code == A_c_default) r = guarded(op, faults, [&] { place(i); }, &what);
            else if (code == A_c_comp) { F f(st); r = guarded(op, faults, [&] { place(i, static_cast<const F&>(f)); }, &what); }
            else if constexpr (has_alloc) {
                typename C::allocator_type al(id); F f(st);
                if (code == A_c_alloc) r = guarded(op, faults, [&] { place(i, al); }, &what);
                else r = guarded(op, faults, [&] { place(i, static_cast<const F&>(f), al); }, &what);
            }
            break; }
        case A_c_range_in: case A_c_range_fwd: case A_c_range_mv: case A_c_ilist: {
            size_t n = code == A_c_ilist ? nb % 4 : nb; if (n > maxsz) n = maxsz;
            MVV v = values_of(op, int(n)); raw_slot(i); x.new_slot = i; const int var = is_static ? umod(op.d, 2) : umod(op.d, 4);
            const int st = var & 1 ? umod(op.d >> 4, 4) : 0, id = var & 2 ? aid(op.d >> 6) : 0; const F f(st);
            x.want_f[i] = st; x.want_alloc[i] = id; want(i, M_INSERT, {}); x.ins = v; lim(insert_first({}, v, st).size());
            if (n <= N && !(code == A_c_ilist)) x.fits = true;
            auto go = [&](auto a, auto b) {
                if constexpr (has_alloc) { typename C::allocator_type al(id); if (var == 0) place(i, a, b); else if (var == 1) place(i, a, b, f); else if (var == 2) place(i, a, b, al); else place(i, a, b, f, al); }
                else { if (var == 0) place(i, a, b); else place(i, a, b, f); }
            };
            auto gol = [&](std::initializer_list<V> il) {
                if constexpr (!copyable) (void)il;
                else if constexpr (has_alloc) { typename C::allocator_type al(id); if (var == 0) place(i, il); else if (var == 1) place(i, il, f); else if (var == 2) place(i, il, al); else place(i, il, f, al); }
                else { if (var == 0) place(i, il); else place(i, il, f); }
            };
            if (code == A_c_range_mv) { if (op.d & 32) r = with_range<std::input_iterator_tag, RM_MOVE>(op, faults, v, x, what, go); else r = with_range<std::forward_iterator_tag, RM_MOVE>(op, faults, v, x, what, go); }
            else if constexpr (copyable) {
                if (code == A_c_range_in) r = with_range<std::input_iterator_tag, RM_CONST>(op, faults, v, x, what, go);
                else if (code == A_c_range_fwd) r = with_range<std::forward_iterator_tag, RM_CONST>(op, faults, v, x, what, go);
                else r = with_ilist(op, faults, v, what, gol);
            }
            break; }
        case A_c_copy: case A_c_copy_alloc: if constexpr (copyable) {
            raw_slot(i); x.new_slot = i; want(i, M_SET, s_[j].m); x.want_f[i] = s_[j].f; x.kind = V_TRANSFER; x.given = s_[j].m; if (s_[j].m.size() <= N) x.fits = true;
            lim(s_[j].m.size());
            const C& src = *s_[j].c;
            if (code == A_c_copy) { x.want_alloc[i] = has_alloc ? sel(s_[j].alloc) : 0; r = guarded(op, faults, [&] { place(i, src); }, &what); }
            else if constexpr (has_alloc) { int id = aid(op.d); x.want_alloc[i] = id; typename C::allocator_type al(id); r = guarded(op, faults, [&] { place(i, src, al); }, &what); }
            } break;
        case A_c_move: case A_c_move_alloc: {
            raw_slot(i); x.new_slot = i; want(i, M_EXACT, s_[j].m); x.want_f[i] = s_[j].f; x.kind = V_TRANSFER; x.touched |= 1u << j; x.transfer = j + 1; x.given = s_[j].m;
            C& src = *s_[j].c; const int sid = s_[j].alloc; bool steal = before[j].heap;
            if (code == A_c_move) x.want_alloc[i] = has_alloc ? sid : 0;
            else { int id = aid(op.d); x.want_alloc[i] = id; if (id != sid) steal = false; }
            x.want_alloc[j] = sid; lim(s_[j].m.size());
            if (steal) { x.no_elem_ops = true; for (size_t q = 0; q < before[j].addr.size(); ++q) x.keep.push_back({i, q, before[j].addr[q]}); x.nothrow = true; x.fits = true; }
            else if (s_[j].m.size() <= N) { x.fits = true; if (nt) x.nothrow = true; }
            if (code == A_c_move) r = guarded(op, faults, [&] { place(i, std::move(src)); }, &what);
            else if constexpr (has_alloc) { typename C::allocator_type al(aid(op.d)); r = guarded(op, faults, [&] { place(i, std::move(src), al); }, &what); }
            break; }
        // ------------------------------------------------------------ assignment
        case A_a_eq_copy: if constexpr (copyable) {
            const C& src = *s_[j].c; want(i, M_SET, s_[j].m); x.want_f[i] = s_[j].f; x.kind = V_TRANSFER; x.given = s_[j].m; lim(s_[j].m.size());
            x.want_alloc[i] = P::pocca && has_alloc ? s_[j].alloc : s_[i].alloc;
            if ((!P::pocca || s_[i].alloc == s_[j].alloc) && s_[j].m.size() <= before[i].cap) x.fits = true;
            x.touched |= 1u << j; want(j, M_EXACT, s_[j].m);
            r = guarded(op, faults, [&] { *c = src; }, &what);
            if (r != O_OK) { x.touched &= ~(1u << j); }
            } break;
        case A_a_eq_move: {
            C& src = *s_[j].c; want(i, M_EXACT, s_[j].m); x.want_f[i] = s_[j].f; x.kind = V_TRANSFER; x.given = {}; lim(s_[j].m.size()); x.touched |= 1u << j; x.transfer = j + 1;
            x.want_alloc[i] = P::pocma && has_alloc ? s_[j].alloc : s_[i].alloc; x.want_alloc[j] = s_[j].alloc;
            if (before[j].heap && (P::pocma || s_[i].alloc == s_[j].alloc)) { x.no_elem_ops = true; x.nothrow = true; x.fits = true; for (size_t q = 0; q < before[j].addr.size(); ++q) x.keep.push_back({i, q, before[j].addr[q]}); }
            else if (is_static && nt) x.nothrow = true;
            r = guarded(op, faults, [&] { *c = std::move(src); }, &what);
            break; }
        case A_a_eq_ilist: if constexpr (copyable) {
            size_t n = std::min<size_t>(nb % 4, maxsz); MVV v = values_of(op, int(n)); want(i, M_INSERT, {}); x.ins = v; x.given = v; lim(insert_first({}, v, f0).size());
            if (n <= before[i].cap) x.fits = true;
            r = with_ilist(op, faults, v, what, [&](std::initializer_list<V> il) { *c = il; });
            } break;
        case A_a_self_copy: if constexpr (copyable) { want(i, M_EXACT, m0); x.kind = V_TRANSFER; C& self = *c; x.fits = true; x.nothrow = true; r = guarded(op, faults, [&] { *c = static_cast<const C&>(self); }, &what); } break;
        case A_a_self_move: { C& self = *c; x.given = m0; x.transfer = i + 1; r = guarded(op, faults, [&] { *c = std::move(self); }, &what); break; }
        // ------------------------------------------------------------ insertion of one element
        case A_emplace: case A_emplace_pw: case A_emplace_hint: {
            if (!room(1)) return -1;
            MV v = val_of(op, 0); prep(v, false, true); Ret q; if (code == A_emplace_hint) hint_it(v);
            const HKey hk{v.k.key, v.k.tag}, hm{v.m.key, v.m.tag};
            if constexpr (is_map) {
                if (code == A_emplace_pw) {
                    if (op.d & 1) r = guarded(op, faults, [&] { q = ret(c->emplace(std::piecewise_construct, std::forward_as_tuple(hk), std::forward_as_tuple(v.m.key, v.m.tag))); }, &what);
                    else r = guarded(op, faults, [&] { q = ret(c->emplace(hk, hm)); }, &what);
                } else {
                    KE k = mk_k(v); ME mm = mk_m(v);
                    if (code == A_emplace) r = guarded(op, faults, [&] { q = ret(c->emplace(std::move(k), std::move(mm))); }, &what);
                    else r = guarded(op, faults, [&] { q = ret(c->emplace_hint(hint, std::move(k), std::move(mm))); }, &what);
                }
            } else {
                if (code == A_emplace_pw) r = guarded(op, faults, [&] { q = ret(c->emplace(hk)); }, &what);
                else if (code == A_emplace) r = guarded(op, faults, [&] { q = ret(c->emplace(v.k.key, v.k.tag)); }, &what);
                else { KE k = mk_k(v); r = guarded(op, faults, [&] { q = ret(c->emplace_hint(hint, std::move(k))); }, &what); }
            }
            check_ret(v, q); break; }
        case A_insert_c: case A_insert_m: case A_insert_hint_c: case A_insert_hint_m: {
            if (!room(1)) return -1;
            MV v = val_of(op, 0); prep(v, false, false); Ret q; if (code == A_insert_hint_c || code == A_insert_hint_m) hint_it(v);
            V e = mk(v);
            if (code == A_insert_m) r = guarded(op, faults, [&] { q = ret(c->insert(std::move(e))); }, &what);
            else if (code == A_insert_hint_m) r = guarded(op, faults, [&] { q = ret(c->insert(hint, std::move(e))); }, &what);
            else if constexpr (copyable) {
                if (code == A_insert_c) r = guarded(op, faults, [&] { q = ret(c->insert(static_cast<const V&>(e))); }, &what);
                else r = guarded(op, faults, [&] { q = ret(c->insert(hint, static_cast<const V&>(e))); }, &what);
                if (peekv(e) != v) W.violate(V_MODEL, "insert(const value_type&) modified its argument");
            }
            check_ret(v, q); break; }
        case A_insert_p: case A_insert_hint_p: if constexpr (is_map || (transp && !multi)) {
            if (!room(1)) return -1;
            MV v = val_of(op, 0); prep(v, false, is_map); Ret q; if (code == A_insert_hint_p) hint_it(v);
            HKey hk{v.k.key, v.k.tag}, hm{v.m.key, v.m.tag};
            if constexpr (is_map) {
                std::pair<HKey, HKey> p(hk, hm);
                if (code == A_insert_p) r = guarded(op, faults, [&] { q = ret(c->insert(std::move(p))); }, &what);
                else r = guarded(op, faults, [&] { q = ret(c->insert(hint, p)); }, &what);
            } else {
                if (code == A_insert_p) r = guarded(op, faults, [&] { q = ret(c->insert(hk)); }, &what);
                else r = guarded(op, faults, [&] { q = ret(c->insert(hint, std::move(hk))); }, &what);
                if (exists && r == O_OK && W.op_ctor) W.soft(V_CALLBACK, "heterogeneous insert of an existing key constructed an element");
            }
            check_ret(v, q); } break;
        // ------------------------------------------------------------ insertion of ranges
        case A_insert_in: case A_insert_fwd: case A_insert_mv: case A_insert_inmv: case A_insert_ilist: {
            size_t n = code == A_insert_ilist ? nb % 4 : nb; if (!room(n)) return -1;
            MVV v = values_of(op, int(n)); range_prep(v);
            auto go = [&](auto a, auto b) { c->insert(a, b); };
            if (code == A_insert_mv) r = with_range<std::forward_iterator_tag, RM_MOVE>(op, faults, v, x, what, go);
            else if (code == A_insert_inmv) r = with_range<std::input_iterator_tag, RM_MOVE>(op, faults, v, x, what, go);
            else if constexpr (copyable) {
                if (code == A_insert_in) r = with_range<std::input_iterator_tag, RM_CONST>(op, faults, v, x, what, go);
                else if (code == A_insert_fwd) r = with_range<std::forward_iterator_tag, RM_CONST>(op, faults, v, x, what, go);
                else r = with_ilist(op, faults, v, what, [&](std::initializer_list<V> il) { c->insert(il); });
            }
            break; }
        // ------------------------------------------------------------ insert_or_assign, try_emplace, operator[]
        case A_ioa_c: case A_ioa_m: case A_ioa_het: case A_ioa_hint_c: case A_ioa_hint_m: case A_ioa_hint_het: if constexpr (is_map && !multi) {
            if (!room(1)) return -1;
            MV v = val_of(op, 0); prep(v, true, false); Ret q;
            if (code == A_ioa_hint_c || code == A_ioa_hint_m || code == A_ioa_hint_het) hint_it(v);
            KE k = mk_k(v); ME mm = mk_m(v); const HKey hk{v.k.key, v.k.tag};
            if (code == A_ioa_m) r = guarded(op, faults, [&] { q = ret(c->insert_or_assign(std::move(k), std::move(mm))); }, &what);
            else if (code == A_ioa_hint_m) r = guarded(op, faults, [&] { q = ret(c->insert_or_assign(hint, std::move(k), std::move(mm))); }, &what);
            if constexpr (transp) {
                if (code == A_ioa_het) r = guarded(op, faults, [&] { q = ret(c->insert_or_assign(hk, std::move(mm))); }, &what);
                else if (code == A_ioa_hint_het) r = guarded(op, faults, [&] { q = ret(c->insert_or_assign(hint, hk, std::move(mm))); }, &what);
            }
            if constexpr (copyable) {
                if (code == A_ioa_c) r = guarded(op, faults, [&] { q = ret(c->insert_or_assign(static_cast<const KE&>(k), static_cast<const ME&>(mm))); }, &what);
                else if (code == A_ioa_hint_c) r = guarded(op, faults, [&] { q = ret(c->insert_or_assign(hint, static_cast<const KE&>(k), static_cast<const ME&>(mm))); }, &what);
            }
            check_ret(exists ? MV{m0[at].k, v.m} : v, q); } break;
        case A_te_c: case A_te_m: case A_te_het: case A_te_hint_c: case A_te_hint_m: case A_te_hint_het: if constexpr (is_map && !multi) {
            if (!room(1)) return -1;
            MV v = val_of(op, 0); prep(v, false, false); Ret q;
            if (code == A_te_hint_c || code == A_te_hint_m || code == A_te_hint_het) hint_it(v);
            KE k = mk_k(v); ME mm = mk_m(v); const HKey hk{v.k.key, v.k.tag};
            if (code == A_te_m) r = guarded(op, faults, [&] { q = ret(c->try_emplace(std::move(k), std::move(mm))); }, &what);
            else if (code == A_te_hint_m) r = guarded(op, faults, [&] { q = ret(c->try_emplace(hint, std::move(k), std::move(mm))); }, &what);
            if constexpr (transp) {
                if (code == A_te_het) r = guarded(op, faults, [&] { q = ret(c->try_emplace(hk, v.m.key, v.m.tag)); }, &what);
                else if (code == A_te_hint_het) r = guarded(op, faults, [&] { q = ret(c->try_emplace(hint, hk, std::move(mm))); }, &what);
            }
            if constexpr (copyable) {
                if (code == A_te_c) r = guarded(op, faults, [&] { q = ret(c->try_emplace(static_cast<const KE&>(k), std::move(mm))); }, &what);
                else if (code == A_te_hint_c) r = guarded(op, faults, [&] { q = ret(c->try_emplace(hint, static_cast<const KE&>(k), v.m.key, v.m.tag)); }, &what);
            }
            if (r == O_OK && exists) {
                if (W.op_ctor || W.op_copies || W.op_moves) W.soft(V_CALLBACK, "try_emplace of an existing key constructed or moved something");
                if (k.peek() != v.k || mm.peek() != v.m) W.soft(V_CALLBACK, "try_emplace of an existing key changed its arguments");
            }
            check_ret(v, q); } break;
        case A_sub_c: case A_sub_m: case A_sub_het: if constexpr (is_map && !multi) {
            if (!room(1)) return -1;
            MV v = val_of(op, 0); v.m = Val{0, 0}; prep(v, false, false); KE k = mk_k(v); const HKey hk{v.k.key, v.k.tag}; ME* p = nullptr;
            if (code == A_sub_m) r = guarded(op, faults, [&] { p = &(*c)[std::move(k)]; }, &what);
            if constexpr (copyable) { if (code == A_sub_c) r = guarded(op, faults, [&] { p = &(*c)[static_cast<const KE&>(k)]; }, &what); }
            if constexpr (transp) { if (code == A_sub_het) r = guarded(op, faults, [&] { p = &(*c)[hk]; }, &what); }
            if (r == O_OK) {
                MVV now = read(i); size_t w = find(now, v.k.key, f0);
                if (w == now.size() || p != &(c->begin() + std::ptrdiff_t(w))->second) W.soft(V_RETURN, "operator[] returns a reference to something else than the element's value");
                if (exists && (W.op_ctor || W.op_copies || W.op_moves)) W.soft(V_CALLBACK, "operator[] of an existing key constructed or moved something");
            }
            } break;
        // ------------------------------------------------------------ arguments that refer to elements of the container
        case A_al_insert: case A_al_insert_hint: case A_al_emplace: if constexpr (copyable) {
            if (!n0 || !room(1)) return -1;
            size_t src = size_t(umod(op.d, int(n0))); MV v = m0[src]; Ret q;
            const V& ref = *(c->cbegin() + std::ptrdiff_t(src));
            if (code == A_al_insert_hint) hint_it(v);
            if (is_map && code == A_al_emplace && (op.d & 1024)) { // new key, mapped value taken from an element
                v.k = val_of(op, 0).k; prep(v, false, true); x.kind = V_ALIAS; KE k = mk_k(v);
                if constexpr (is_map) r = guarded(op, faults, [&] { q = ret(c->emplace(std::move(k), ref.second)); }, &what);
            } else {
                prep(v, false, code == A_al_emplace); x.kind = V_ALIAS;
                if (code == A_al_insert) r = guarded(op, faults, [&] { q = ret(c->insert(ref)); }, &what);
                else if (code == A_al_insert_hint) r = guarded(op, faults, [&] { q = ret(c->insert(hint, ref)); }, &what);
                else r = guarded(op, faults, [&] { q = ret(c->emplace(ref)); }, &what);
            }
            check_ret(v, q); } break;
        case A_al_ioa: case A_al_te: if constexpr (copyable && is_map && !multi) {
            if (!n0 || !room(1)) return -1;
            size_t src = size_t(umod(op.d, int(n0))); MV v; v.m = m0[src].m; Ret q;
            const size_t ks = size_t(umod(op.a >> 3, int(n0))); const bool own_key = op.d & 2048;
            v.k = own_key ? m0[ks].k : val_of(op, 0).k;
            prep(v, code == A_al_ioa, false); x.kind = V_ALIAS; x.untouched = false;
            const V& ref = *(c->cbegin() + std::ptrdiff_t(src)); const V& kr = *(c->cbegin() + std::ptrdiff_t(ks));
            KE k = mk_k(v); const KE& kk = own_key ? kr.first : k;
            if (code == A_al_ioa) r = guarded(op, faults, [&] { q = ret(c->insert_or_assign(kk, ref.second)); }, &what);
            else r = guarded(op, faults, [&] { q = ret(c->try_emplace(kk, ref.second)); }, &what);
            check_ret(exists && code == A_al_ioa ? MV{m0[at].k, v.m} : v, q); } break;
        case A_al_erase: {
            if (!n0) return -1;
            size_t src = size_t(umod(op.d, int(n0))); const MV v = m0[src]; const KE& kr = keyof(*(c->cbegin() + std::ptrdiff_t(src)));
            MVV w; size_t rem = 0, cnt = 0; for (auto& e : m0) if (fk(e.k.key, f0) == fk(v.k.key, f0)) ++rem; else w.push_back(e);
            want(i, M_SET, w); x.kind = V_ALIAS; x.fits = true; x.cap_keep = i;
            if (op.e & 1) { auto& km = mkey(*(c->begin() + std::ptrdiff_t(src))); r = guarded(op, faults, [&] { cnt = c->erase(km); }, &what); }
            else r = guarded(op, faults, [&] { cnt = c->erase(kr); }, &what);
            if (r == O_OK && cnt != rem) W.violate(V_ALIAS, "erase by a key inside the container removed %zu elements instead of %zu", cnt, rem);
            break; }
        // ------------------------------------------------------------ erasure
        case A_erase_pos: case A_erase_range: {
            if (!n0) return -1;
            size_t a = size_t(umod(op.a, int(n0))), b = a + 1;
            if (code == A_erase_range) { a = size_t(umod(op.a, int(n0) + 1)); b = a + size_t(umod(op.d, int(n0 - a) + 1)); }
            MVV w = m0; w.erase(w.begin() + std::ptrdiff_t(a), w.begin() + std::ptrdiff_t(b)); want(i, ordered ? M_EXACT : M_PREFIX, w); x.prefix = a;
            x.fits = true; x.cap_keep = i; if (nt) x.nothrow = true;
            for (size_t q = 0; q < a; ++q) x.keep.push_back({i, q, before[i].addr[q]});
            I fi = c->begin() + std::ptrdiff_t(a); CI f = fi, l = c->cbegin() + std::ptrdiff_t(b); I q;
            if (code == A_erase_range) r = guarded(op, faults, [&] { q = c->erase(f, l); }, &what);
            else if (op.d & 1) r = guarded(op, faults, [&] { q = c->erase(fi); }, &what);
            else r = guarded(op, faults, [&] { q = c->erase(f); }, &what);
            if (r == O_OK && size_t(q - c->begin()) != a) W.soft(V_RETURN, "erase returned position %td instead of %zu", q - c->begin(), a);
            break; }
        case A_erase_key: case A_erase_het: {
            int32_t key = n0 && (op.d & 3) ? m0[size_t(umod(op.a, int(n0)))].k.key : (op.e & 0xff);
            MVV w; size_t rem = 0, cnt = 0; for (auto& e : m0) if (fk(e.k.key, f0) == fk(key, f0)) ++rem; else w.push_back(e);
            want(i, M_SET, w); x.fits = true; x.cap_keep = i; KE k(key, -3); const HKey hk{key, -4};
            if (code == A_erase_key) r = guarded(op, faults, [&] { cnt = c->erase(static_cast<const KE&>(k)); }, &what);
            else if constexpr (transp) r = guarded(op, faults, [&] { cnt = c->erase(hk); }, &what);
            if (r == O_OK && cnt != rem) W.soft(V_RETURN, "erase by key returned %zu instead of %zu", cnt, rem);
            if (r == O_OK && W.op_ctor && code == A_erase_het) W.soft(V_CALLBACK, "erase by key constructed elements");
            break; }
        case A_erase_if: {
            int md = 2 + umod(op.d, 3), rem = umod(op.a, md); size_t removed = 0, cnt = 0; MVV w; MVV seen;
            for (auto& q : m0) if (umod(q.k.key, md) == rem) ++removed; else w.push_back(q);
            want(i, M_SET, w); x.fits = true; x.cap_keep = i;
            r = guarded(op, faults, [&] { cnt = erase_if(*c, [&](const V& e) {
                W.ev(15, 0); W.yield(); cb_check(keyof(e), "the predicate"); if constexpr (is_map) cb_check(e.second, "the predicate"); W.point(F_PRED);
                World::Own own; MV q; q.k = Val{keyof(e).key(), keyof(e).tag()}; if constexpr (is_map) q.m = Val{e.second.key(), e.second.tag()}; seen.push_back(q);
                return umod(q.k.key, md) == rem; }); }, &what);
            if (r == O_OK) {
                if (cnt != removed) W.soft(V_RETURN, "erase_if returned %zu instead of %zu", cnt, removed);
                if (seen.size() != m0.size()) W.soft(V_CALLBACK, "predicate called %zu times for %zu elements", seen.size(), m0.size());
                if (mv_sorted(seen) != mv_sorted(m0)) W.soft(V_CALLBACK, "predicate was not applied exactly once to each element");
            }
            break; }
        case A_erase_loop: { // the usual loop over the returned iterators
            int md = 2 + umod(op.d, 3), rem = umod(op.a, md); MVV w, seen; for (auto& q : m0) if (umod(q.k.key, md) != rem) w.push_back(q);
            want(i, M_SET, w); x.fits = true; x.cap_keep = i; if (nt) x.nothrow = true; size_t steps = 0;
            r = guarded(op, faults, [&] { auto it = c->begin(); while (it != c->end()) {
                if (++steps > 4 * n0 + 4) W.violate(V_HANG, "erase loop does not reach end()");
                MV q = peekv(*it); { World::Own own; seen.push_back(q); }
                if (umod(q.k.key, md) == rem) it = c->erase(it); else ++it; } }, &what);
            if (r == O_OK && mv_sorted(seen) != mv_sorted(m0)) W.soft(V_RETURN, "erase loop did not visit every element exactly once: visited %s of %s", show(seen).c_str(), show(m0).c_str());
            break; }
        // ------------------------------------------------------------ capacity
        case A_reserve: if constexpr (has_alloc) {
            if (op.b >= 116 && op.b < 124) { // far above max_size()
                const size_t top = ~size_t(0), half = top >> 1; const size_t es = sizeof(typename C::value_type);
                const size_t at[8] = {top, top - m0.size(), top - m0.size() + 1, half, msz + 1, half / es + 1, top / es + 2, top - before[i].cap + 1};
                size_t h = at[op.b - 116]; if (h <= msz || h <= before[i].cap) h = top;
                want(i, M_EXACT, m0); W.past_limit = x.exceeds = true; x.limit_strong = true; x.kind = V_STRONG;
                r = guarded(op, faults, [&] { c->reserve(h); }, &what); break;
            }
            want(i, M_EXACT, m0); x.strong = nt || copyable; x.limit_strong = true; x.kind = V_STRONG; x.min_cap = i; x.min_cap_v = nb; lim(nb);
            if (nb <= before[i].cap) { x.fits = true; x.cap_keep = i; }
            r = guarded(op, faults, [&] { c->reserve(nb); }, &what); } break;
        case A_shrink: if constexpr (has_alloc) {
            want(i, M_EXACT, m0); x.strong = nt || copyable; x.kind = V_STRONG;
            r = guarded(op, faults, [&] { c->shrink_to_fit(); }, &what);
            if (r == O_OK && c->capacity() > before[i].cap && c->capacity() > N) W.soft(V_CAPACITY, "shrink_to_fit increased the capacity");
            } break;
        case A_clear: want(i, M_EXACT, {}); x.cap_keep = i; x.nothrow = true; x.fits = true; r = guarded(op, faults, [&] { c->clear(); }, &what); break;
        // ------------------------------------------------------------ swap
        case A_swap: case A_swap_free: {
            if (has_alloc && !P::pocs && s_[i].alloc != s_[j].alloc) return -1;
            x.kind = V_TRANSFER; x.touched |= 1u << j; x.transfer = i + 1;
            want(i, s_[j].dirty ? M_NONE : M_EXACT, s_[j].m); want(j, s_[i].dirty ? M_NONE : M_EXACT, m0); x.want_f[i] = s_[j].f; x.want_f[j] = f0;
            x.want_alloc[i] = P::pocs && has_alloc ? s_[j].alloc : s_[i].alloc; x.want_alloc[j] = P::pocs && has_alloc ? s_[i].alloc : s_[j].alloc;
            x.fits = true;
            if (before[i].heap && before[j].heap) {
                x.no_elem_ops = true; x.nothrow = true;
                for (size_t q = 0; q < before[j].addr.size(); ++q) x.keep.push_back({i, q, before[j].addr[q]});
                for (size_t q = 0; q < before[i].addr.size(); ++q) x.keep.push_back({j, q, before[i].addr[q]});
            } else if (nt) x.nothrow = true;
            C& o2 = *s_[j].c;
            if (code == A_swap) r = guarded(op, faults, [&] { c->swap(o2); }, &what);
            else r = guarded(op, faults, [&] { using std::swap; swap(*c, o2); }, &what);
            break; }
        case A_self_swap: { if (s_[i].dirty) x.mode[i] = M_NONE; else want(i, M_EXACT, m0); x.kind = V_TRANSFER; C& self = *c; x.nothrow = true; x.fits = true; x.cap_keep = i; r = guarded(op, faults, [&] { c->swap(self); }, &what); break; }
        // ------------------------------------------------------------ observation
        case A_lookup: case A_lookup_het: {
            want(i, M_EXACT, m0); x.strong = true; x.fits = true; x.lookup = true; x.cap_keep = i;
            int32_t key = n0 && (op.d & 3) ? m0[size_t(umod(op.a, int(n0)))].k.key : (op.e & 0xff); const C& cc = *c;
            if (code == A_lookup) { KE probe(key, -2); r = guarded(op, faults, [&] { check_lookup_on(cc, i, key, probe); check_lookup_on(*c, i, key, probe); }, &what); }
            else if constexpr (transp) { HKey probe{key, -2}; r = guarded(op, faults, [&] { check_lookup_on(cc, i, key, probe); check_lookup_on(*c, i, key, probe); }, &what); }
            break; }
        case A_at: case A_at_het: if constexpr (is_map && !multi) {
            want(i, M_EXACT, m0); x.strong = true; x.fits = true; x.lookup = true; x.cap_keep = i;
            int32_t key = n0 && (op.d & 3) ? m0[size_t(umod(op.a, int(n0)))].k.key : (op.e & 0xff) + 1; const C& cc = *c; const ME* p = nullptr;
            size_t w = find(m0, key, f0); x.range_err = w == n0;
            if (code == A_at) { KE probe(key, -2); r = guarded(op, faults, [&] { if (op.d & 4) p = &c->at(probe); else p = &cc.at(probe); }, &what); }
            else if constexpr (transp) { HKey probe{key, -2}; r = guarded(op, faults, [&] { if (op.d & 4) p = &c->at(probe); else p = &cc.at(probe); }, &what); }
            if (r == O_OK && !x.range_err && p != &(cc.begin() + std::ptrdiff_t(w))->second) W.soft(V_RETURN, "at() returns a reference to something else than the element's value");
            } break;
        case A_compare: {
            const C& a = *s_[i].c; const C& b = *s_[j].c; want(i, M_EXACT, m0); x.fits = true; x.strong = true; bool q[6] = {};
            const MVV &m = m0, &n = s_[j].m;
            if constexpr (ordered) {
                r = guarded(op, faults, [&] { q[0] = a == b; q[1] = a != b; q[2] = a < b; q[3] = a > b; q[4] = a <= b; q[5] = a >= b; }, &what);
                bool e = m == n, l = std::lexicographical_compare(m.begin(), m.end(), n.begin(), n.end(), mv_less), g = std::lexicographical_compare(n.begin(), n.end(), m.begin(), m.end(), mv_less);
                if (r == O_OK && (q[0] != e || q[1] == e || q[2] != l || q[3] != g || q[4] == g || q[5] == l)) W.soft(V_RETURN, "comparison operators disagree with the contents");
            } else {
                r = guarded(op, faults, [&] { q[0] = a == b; q[1] = a != b; }, &what);
                bool e = mv_sorted(m) == mv_sorted(n);
                if (r == O_OK && (q[0] != e || q[1] == e)) W.soft(V_RETURN, "equality disagrees with the contents");
            }
            if (r == O_OK && (W.op_copies || W.op_moves)) W.soft(V_CALLBACK, "comparison copied or moved elements");
            break; }
        // compared with a container that is almost the same: shuffled, an element exchanged, doubled or missing
        case A_compare_near: {
            if (moved_any(m0) || limited) return -1;
            want(i, M_EXACT, m0); x.strong = true; MVV w = m0; const int how = umod(op.d, 4); bool q[12] = {}; MVV got; uint64_t touched = 0;
            if (how && !n0) return -1;
            const size_t at = n0 ? size_t(umod(op.a, int(n0))) : 0, from = n0 ? size_t(umod(op.b, int(n0))) : 0;
            if (how == 1) w[at] = w[from]; else if (how == 2) { if (is_map && (op.d & 4)) w[at].m.tag ^= 1; else w[at].k.tag ^= 1; } else if (how == 3) w.erase(w.begin() + std::ptrdiff_t(at));
            if (!ordered || (op.d & 8)) std::rotate(w.begin(), w.begin() + std::ptrdiff_t(w.empty() ? 0 : umod(op.a + op.b, int(w.size()))), w.end());
            const C& a = *c; x.given = w; got.reserve(w.size() + 1);
            r = guarded(op, faults, [&] {
                C t(F(s_[i].f));
                for (auto& v : w) { if constexpr (is_map) t.emplace(mk_k(v), mk_m(v)); else t.emplace(v.k.key, v.k.tag); }
                got.clear(); for (CI it = t.begin(); it != t.end(); ++it) got.push_back(peekv(*it));
                touched = W.op_copies + W.op_moves;
                const C& b = t; q[0] = a == b; q[1] = a != b; q[2] = b == a; q[3] = b != a;
                if constexpr (ordered) { q[4] = a < b; q[5] = a > b; q[6] = a <= b; q[7] = a >= b; q[8] = b < a; }
                touched = W.op_copies + W.op_moves - touched;
            }, &what);
            if (r == O_OK) {
                const MVV& m = m0;
                if constexpr (ordered) {
                    bool e = m == got, l = std::lexicographical_compare(m.begin(), m.end(), got.begin(), got.end(), mv_less), g = std::lexicographical_compare(got.begin(), got.end(), m.begin(), m.end(), mv_less);
                    if (q[0] != e || q[1] == e || q[2] != e || q[3] == e || q[4] != l || q[5] != g || q[6] == g || q[7] == l || q[8] != g) W.soft(V_RETURN, "comparison operators disagree with the contents of two similar containers");
                } else {
                    bool e = mv_sorted(m) == mv_sorted(got);
                    if (q[0] != e || q[1] == e || q[2] != e || q[3] == e) W.soft(V_RETURN, "equality disagrees with the contents of two similar containers");
                }
                if (touched) W.soft(V_CALLBACK, "comparison copied or moved elements");
            }
            break; }
        case A_access: { want(i, M_EXACT, m0); x.strong = true; x.fits = true; x.cap_keep = i; r = guarded(op, faults, [&] { check_access(i); }, &what); break; }
        case A_mutate: if constexpr (is_map) {
            if (!n0) return -1;
            size_t k = size_t(umod(op.a, int(n0))); MVV w = m0; MV v = val_of(op, 0); w[k].m = v.m; want(i, M_EXACT, w); x.given = {MV{m0[k].k, v.m}}; x.fits = true;
            ME e = mk_m(v);
            if (op.d & 1) r = guarded(op, faults, [&] { (c->begin() + std::ptrdiff_t(k))->second = std::move(e); }, &what);
            else r = guarded(op, faults, [&] { c->nth(k)->second = std::move(e); }, &what);
            } break;
        // ------------------------------------------------------------ many single insertions
        case A_burst: {
            size_t k = 20 + nb * 5; k = std::min(k, is_static ? N - std::min(N, n0) : n0 < BIGSZ ? BIGSZ - n0 : 0);
            if (!k || limited) return -1;
            MVV v; const int way = umod(op.d, 3); // ascending, descending, mixed
            for (size_t q = 0; q < k; ++q) { const int32_t key = 100 + 2 * int32_t(way == 0 ? q : way == 1 ? k - 1 - q : (q * 37) % k); MV e; e.k = Val{key, (op.e >> 8) * 2048 + int32_t(q)}; if (is_map) e.m = Val{umod(key * 5 + 3, 64), (op.e >> 8) * 2048 + 1024 + int32_t(q)}; v.push_back(e); }
            want(i, M_INSERT, m0); x.ins = v; x.given = v; x.cnt = k; if (is_static || av() >= k) x.fits = true;
            r = guarded(op, faults, [&] { for (auto& q : v) { if constexpr (is_map) c->emplace(mk_k(q), mk_m(q)); else c->emplace(q.k.key, q.k.tag); } }, &what);
            break; }
        default: return -1;
        }
        finish(op, idx, r, x, before, what, lb);
        return int(r);
    }
private:
    std::string name_, fam_;
};

} // namespace sim
#endif
