// The simulated environment a container runs in: tracked elements, allocators,
// comparators, predicates and input streams. Every call into one of these is an
// event, a yield point and (where user code may fail) a fault point.
#ifndef SIM_ENV_HPP
#define SIM_ENV_HPP
#include "core.hpp"
#include <iterator>
#include <memory>
#include <limits>
#include <type_traits>
#include <utility>

namespace sim {

constexpr int32_t MOVED_KEY = -1000000;

struct Val {
    int32_t key = 0, tag = 0;
    friend bool operator==(const Val& a, const Val& b) { return a.key == b.key && a.tag == b.tag; }
    friend bool operator!=(const Val& a, const Val& b) { return !(a == b); }
    bool moved() const { return key == MOVED_KEY; }
};

// ---- construction/destruction path tracking (through allocator or directly) ----

extern const char ELEM_READ[];

// ---- element registry operations -------------------------------------------
inline void el_register(const void* p, int32_t key, int32_t tag, uint16_t type) {
    uintptr_t a = (uintptr_t)p;
    if (W.reg.find(a)) W.violate(V_LIFETIME, "element constructed over a living element (arena offset %lld)", (long long)W.rel(p));
    if (W.arena.inside(p)) {
        int bi = W.arena.containing(p);
        if (bi < 0) W.violate(W.mk(V_ALLOC), "element constructed outside any allocated block (arena offset %lld)", (long long)W.rel(p));
        if (!W.arena.blocks[bi].live) W.violate(W.mk(V_ALLOC), "element constructed in a deallocated block (#%u)", W.arena.blocks[bi].serial);
    }
    if (W.reg.crowded()) { World::Own own; if (!W.reg.tidy()) W.violate(V_HANG, "too many elements are alive"); }
    ERec* r = W.reg.insert(a);
    r->key = key; r->tag = tag; r->type = type;
    const char* c = (const char*)p;
    r->via = (c >= via.con_lo && c < via.con_hi) ? VIA_ALLOC : VIA_DIRECT;
    ++W.op_ctor;
}
inline ERec* el_use(const void* p, int32_t key, int32_t tag, uint16_t type, const char* what) {
    ERec* r = W.reg.find((uintptr_t)p);
    if (!r) W.violate(W.pk(p, V_LIFETIME), "%s of an element that is not alive (arena offset %lld)", what, (long long)W.rel(p));
    if (r->type != type || r->key != key || r->tag != tag)
        W.violate(V_LIFETIME, "%s of an element whose bytes were overwritten (holds %d/%d, constructed as %d/%d)", what, key, tag, r->key, r->tag);
    return r;
}
inline void el_destroy(const void* p, int32_t key, int32_t tag, uint16_t type) {
    ERec* r = W.reg.find((uintptr_t)p);
    if (!r) W.violate(W.pk(p, V_LIFETIME), "destruction of an element that is not alive (arena offset %lld)", (long long)W.rel(p));
    if (r->type != type || r->key != key || r->tag != tag)
        W.violate(V_LIFETIME, "destruction of an element whose bytes were overwritten");
    if (W.arena.inside(p)) {
        const char* c = (const char*)p;
        bool in_con = c >= via.con_lo && c < via.con_hi; // unwinding of a partly built pair
        bool in_des = c >= via.des_lo && c < via.des_hi;
        if (!in_con) {
            if (r->via == VIA_ALLOC && !in_des) W.violate(V_ALLOC, "element constructed through the allocator destroyed without it");
            if (r->via == VIA_DIRECT && in_des) W.violate(V_ALLOC, "element constructed without the allocator destroyed through it");
        }
    }
    W.reg.erase(r);
    ++W.op_dtors;
}

// ---- elements -----------------------------------------------------------------
enum EKind { EK_NT = 0,   // copy may throw, move never throws (like std::string)
             EK_TM = 1,   // copy and move may throw
             EK_MO = 2,   // move-only, move never throws (like std::unique_ptr)
             EK_MT = 3,   // move-only, move may throw
             EK_CO = 4,   // copy-only (move is a throwing copy)
             EK_OA = 5,   // like EK_NT, over-aligned and large
             EK_TR = 6 }; // trivial (like int): nothing is tracked, only the values count
constexpr size_t OA_ALIGN = 64;

struct HKey { int32_t key, tag; };   // heterogeneous key / constructor argument

template <EKind K, int Role = 0>
class Elem {
public:
    static constexpr EKind kind = K;
    static constexpr uint16_t type_id = uint16_t(0x100 + K * 8 + Role);
    static constexpr bool nothrow_move = (K == EK_NT || K == EK_MO || K == EK_OA);
    static constexpr bool copyable = (K == EK_NT || K == EK_TM || K == EK_CO || K == EK_OA);
    static constexpr bool tracked = true;

    Elem() { pre(F_DEFAULT, 1); init(0, 0); }
    explicit Elem(const HKey& h) { pre(F_VALUE, 2); init(h.key, h.tag); }
    Elem(int32_t k, int32_t t) { pre(F_VALUE, 2); init(k, t); }
    ~Elem() { W.ev(3, uint64_t(uint32_t(key_))); el_destroy(this, key_, tag_, type_id); key_ = -7777777; tag_ = -7; }

    int32_t key() const { return key_; }
    int32_t tag() const { return tag_; }
    // value as the harness sees it (checks that the element is really alive)
    Val peek() const { el_use(this, key_, tag_, type_id, ELEM_READ); return Val{key_, tag_}; }

    void init_copy(const Elem& o) {
        el_use(&o, o.key_, o.tag_, type_id, "copy"); ++W.op_copies;
        pre(F_COPY, 4); init(o.key_, o.tag_);
    }
    void init_move(Elem& o, bool can_throw) {
        el_use(&o, o.key_, o.tag_, type_id, "move"); ++W.op_moves;
        if (can_throw) pre(F_MOVE, 5); else evonly(5, o.key_);
        int32_t k = o.key_, t = o.tag_;
        o.gone();
        init(k, t);
    }
    void assign_copy(const Elem& o) {
        el_use(this, key_, tag_, type_id, "assignment to"); el_use(&o, o.key_, o.tag_, type_id, "copy"); ++W.op_assigns; ++W.op_copies;
        pre(F_COPYASG, 6);
        set(o.key_, o.tag_);
    }
    void assign_move(Elem& o, bool can_throw) {
        el_use(this, key_, tag_, type_id, "assignment to"); el_use(&o, o.key_, o.tag_, type_id, "move"); ++W.op_assigns; ++W.op_moves;
        if (can_throw) pre(F_MOVEASG, 7); else evonly(7, o.key_);
        if (this == &o) return;                // self-move keeps the value
        int32_t k = o.key_, t = o.tag_;
        o.gone();
        set(k, t);
    }
protected:
    struct CopyOf {}; struct MoveOf {};
    Elem(CopyOf, const Elem& o) { init_copy(o); }
    Elem(MoveOf, Elem& o, bool can_throw) { init_move(o, can_throw); }
    void pre(FaultKind f, uint32_t tag) { W.ev(tag, uint64_t(f)); W.yield(); W.point(f); }
    void evonly(uint32_t tag, int32_t k) { W.ev(tag, uint64_t(uint32_t(k))); W.yield(); }
    void init(int32_t k, int32_t t) {
        if (K == EK_OA && (uintptr_t)this % OA_ALIGN) W.violate(W.mk(V_ALLOC), "element constructed at an address that is not aligned for its type");
        el_register(this, k, t, type_id); key_ = k; tag_ = t; }
    void set(int32_t k, int32_t t) {
        ERec* r = W.reg.find((uintptr_t)this);
        if (!r) W.violate(V_LIFETIME, "element destroyed while being assigned to");
        r->key = k; r->tag = t; r->st = k == MOVED_KEY ? E_MOVED : E_LIVE; key_ = k; tag_ = t;
    }
    void gone() { set(MOVED_KEY, 0); }
    int32_t key_, tag_;
    int32_t pad_[2] = {0x11, 0x22};
};

// Concrete element types differ only in which special members exist and may throw.
template <EKind K, int Role> struct ElemT;
template <int Role> struct ElemT<EK_NT, Role> : Elem<EK_NT, Role> {
    using Base = Elem<EK_NT, Role>; using Base::Base;
    ElemT() : Base() {}
    ElemT(const ElemT& o) : Base(typename Base::CopyOf{}, o) {}
    ElemT(ElemT&& o) noexcept : Base(typename Base::MoveOf{}, o, false) {}
    ElemT& operator=(const ElemT& o) { this->assign_copy(o); return *this; }
    ElemT& operator=(ElemT&& o) noexcept { this->assign_move(o, false); return *this; }
};
template <int Role> struct ElemT<EK_TM, Role> : Elem<EK_TM, Role> {
    using Base = Elem<EK_TM, Role>; using Base::Base;
    ElemT() : Base() {}
    ElemT(const ElemT& o) : Base(typename Base::CopyOf{}, o) {}
    ElemT(ElemT&& o) noexcept(false) : Base(typename Base::MoveOf{}, o, true) {}
    ElemT& operator=(const ElemT& o) { this->assign_copy(o); return *this; }
    ElemT& operator=(ElemT&& o) noexcept(false) { this->assign_move(o, true); return *this; }
};
template <int Role> struct ElemT<EK_MO, Role> : Elem<EK_MO, Role> {
    using Base = Elem<EK_MO, Role>; using Base::Base;
    ElemT() : Base() {}
    ElemT(ElemT&& o) noexcept : Base(typename Base::MoveOf{}, o, false) {}
    ElemT& operator=(ElemT&& o) noexcept { this->assign_move(o, false); return *this; }
};
template <int Role> struct ElemT<EK_MT, Role> : Elem<EK_MT, Role> {
    using Base = Elem<EK_MT, Role>; using Base::Base;
    ElemT() : Base() {}
    ElemT(ElemT&& o) noexcept(false) : Base(typename Base::MoveOf{}, o, true) {}
    ElemT& operator=(ElemT&& o) noexcept(false) { this->assign_move(o, true); return *this; }
};
template <int Role> struct ElemT<EK_CO, Role> : Elem<EK_CO, Role> {
    using Base = Elem<EK_CO, Role>; using Base::Base;
    ElemT() : Base() {}
    ElemT(const ElemT& o) : Base(typename Base::CopyOf{}, o) {}
    ElemT& operator=(const ElemT& o) { this->assign_copy(o); return *this; }
};

template <int Role> struct alignas(OA_ALIGN) ElemT<EK_OA, Role> : Elem<EK_OA, Role> {
    using Base = Elem<EK_OA, Role>; using Base::Base;
    ElemT() : Base() {}
    ElemT(const ElemT& o) : Base(typename Base::CopyOf{}, o) {}
    ElemT(ElemT&& o) noexcept : Base(typename Base::MoveOf{}, o, false) {}
    ElemT& operator=(const ElemT& o) { this->assign_copy(o); return *this; }
    ElemT& operator=(ElemT&& o) noexcept { this->assign_move(o, false); return *this; }
};
template <int Role> struct ElemT<EK_TR, Role> {
    static constexpr EKind kind = EK_TR;
    static constexpr bool nothrow_move = true, copyable = true, tracked = false;
    ElemT() = default;
    explicit ElemT(const HKey& h) : ElemT(h.key, h.tag) {}
    ElemT(int32_t k, int32_t t) { W.ev(2, uint64_t(F_VALUE)); W.yield(); W.point(F_VALUE); key_ = k; tag_ = t; }
    int32_t key() const { return key_; }
    int32_t tag() const { return tag_; }
    bool trash() const { return (uint32_t(key_) == 0xDDDDDDDDu && uint32_t(tag_) == 0xDDDDDDDDu) || (uint32_t(key_) == 0xCDCDCDCDu && uint32_t(tag_) == 0xCDCDCDCDu); }
    Val peek() const { if (trash()) W.violate(V_LIFETIME, "read of an element that is not alive (arena offset %lld)", (long long)W.rel(this)); return Val{key_, tag_}; }
private:
    int32_t key_, tag_;
};
static_assert(std::is_trivial<ElemT<EK_TR, 0>>::value, "");

template <class E> inline void cb_check(const E& e, const char* who) {
    if constexpr (!E::tracked) { if (e.trash()) W.violate(W.pk(&e, W.enabled >> V_CALLBACK & 1 ? V_CALLBACK : V_LIFETIME), "%s was given an element that is not alive (arena offset %lld)", who, (long long)W.rel(&e)); return; }
    ERec* r = W.reg.find((uintptr_t)&e);
    if (!r) W.violate(W.pk(&e, W.enabled >> V_CALLBACK & 1 ? V_CALLBACK : V_LIFETIME), "%s was given an element that is not alive (arena offset %lld)", who, (long long)W.rel(&e));
    if (r->st == E_MOVED) W.violate(V_CALLBACK, "%s was given a moved-from element", who);
    if (r->key != e.key() || r->tag != e.tag()) W.violate(V_LIFETIME, "%s was given an element whose bytes were overwritten", who);
}

template <EKind K, int R> inline bool operator==(const ElemT<K,R>& a, const ElemT<K,R>& b) {
    W.ev(8, 1); W.yield();
    cb_check(a, "operator=="); cb_check(b, "operator==");
    W.point(F_EQUAL);
    return a.key() == b.key() && a.tag() == b.tag();
}
template <EKind K, int R> inline bool operator!=(const ElemT<K,R>& a, const ElemT<K,R>& b) { return !(a == b); }
template <EKind K, int R> inline bool operator==(const ElemT<K,R>& a, const HKey& b) {
    W.ev(8, 2); W.yield(); cb_check(a, "operator=="); W.point(F_EQUAL);
    return a.key() == b.key && a.tag() == b.tag;
}
template <EKind K, int R> inline bool operator<(const ElemT<K,R>& a, const ElemT<K,R>& b) {
    W.ev(9, 1); W.yield();
    cb_check(a, "operator<"); cb_check(b, "operator<");
    W.point(F_COMPARE);
    return a.key() != b.key() ? a.key() < b.key() : a.tag() < b.tag();
}

// ---- functors ---------------------------------------------------------------
// state bit0: reversed order; bit1: keys are compared in pairs (k >> 1)
inline int32_t fk(int32_t key, int state) { int32_t k = (state & 2) ? (key >> 1) : key; return (state & 1) ? -k : k; }

struct FunctorState { int state = 0; };
template <bool Transparent> struct CmpBase {};
template <> struct CmpBase<true> { using is_transparent = void; };

template <class E, bool Transparent>
struct Cmp : CmpBase<Transparent> {
    int state = 0;
    Cmp() noexcept {}
    explicit Cmp(int s) noexcept : state(s) {}
    bool operator()(const E& a, const E& b) const {
        W.ev(10, 1); W.yield();
        cb_check(a, "the comparator"); cb_check(b, "the comparator");
        W.point(F_COMPARE);
        return fk(a.key(), state) < fk(b.key(), state);
    }
    template <bool T = Transparent, typename std::enable_if<T>::type* = nullptr>
    bool operator()(const E& a, const HKey& b) const {
        W.ev(10, 2); W.yield(); cb_check(a, "the comparator"); W.point(F_COMPARE);
        return fk(a.key(), state) < fk(b.key, state);
    }
    template <bool T = Transparent, typename std::enable_if<T>::type* = nullptr>
    bool operator()(const HKey& a, const E& b) const {
        W.ev(10, 3); W.yield(); cb_check(b, "the comparator"); W.point(F_COMPARE);
        return fk(a.key, state) < fk(b.key(), state);
    }
};
template <class E, bool Transparent>
struct Eq : CmpBase<Transparent> {
    int state = 0;
    Eq() noexcept {}
    explicit Eq(int s) noexcept : state(s) {}
    bool operator()(const E& a, const E& b) const {
        W.ev(11, 1); W.yield();
        cb_check(a, "the key equality"); cb_check(b, "the key equality");
        W.point(F_EQUAL);
        return fk(a.key(), state) == fk(b.key(), state);
    }
    template <bool T = Transparent, typename std::enable_if<T>::type* = nullptr>
    bool operator()(const E& a, const HKey& b) const {
        W.ev(11, 2); W.yield(); cb_check(a, "the key equality"); W.point(F_EQUAL);
        return fk(a.key(), state) == fk(b.key, state);
    }
    template <bool T = Transparent, typename std::enable_if<T>::type* = nullptr>
    bool operator()(const HKey& a, const E& b) const {
        W.ev(11, 3); W.yield(); cb_check(b, "the key equality"); W.point(F_EQUAL);
        return fk(a.key, state) == fk(b.key(), state);
    }
};

// ---- fancy pointer ------------------------------------------------------------
template <class T> class FPtr {
    T* p_ = nullptr;
public:
    using element_type = T; using value_type = typename std::remove_cv<T>::type; using difference_type = std::ptrdiff_t;
    using pointer = T*; using reference = typename std::add_lvalue_reference<T>::type; using iterator_category = std::random_access_iterator_tag;
    template <class U> using rebind = FPtr<U>;
    FPtr() noexcept {}
    FPtr(std::nullptr_t) noexcept {}
    struct Raw {};
    FPtr(T* p, Raw) noexcept : p_(p) {}
    template <class U, typename std::enable_if<std::is_convertible<U*, T*>::value>::type* = nullptr>
    FPtr(const FPtr<U>& o) noexcept : p_(o.raw()) {}
    FPtr& operator=(std::nullptr_t) noexcept { p_ = nullptr; return *this; }
    template <class U = T, typename std::enable_if<!std::is_void<U>::value>::type* = nullptr>
    static FPtr pointer_to(U& r) noexcept { return FPtr(std::addressof(r), Raw{}); }
    T* raw() const noexcept { return p_; }
    template <class U = T> typename std::add_lvalue_reference<U>::type operator*() const noexcept { return *p_; }
    T* operator->() const noexcept { return p_; }
    template <class U = T> typename std::add_lvalue_reference<U>::type operator[](std::ptrdiff_t n) const noexcept { return p_[n]; }
    FPtr& operator++() noexcept { ++p_; return *this; }
    FPtr operator++(int) noexcept { FPtr t = *this; ++p_; return t; }
    FPtr& operator--() noexcept { --p_; return *this; }
    FPtr operator--(int) noexcept { FPtr t = *this; --p_; return t; }
    FPtr& operator+=(std::ptrdiff_t n) noexcept { p_ += n; return *this; }
    FPtr& operator-=(std::ptrdiff_t n) noexcept { p_ -= n; return *this; }
    friend FPtr operator+(FPtr a, std::ptrdiff_t n) noexcept { a += n; return a; }
    friend FPtr operator+(std::ptrdiff_t n, FPtr a) noexcept { a += n; return a; }
    friend FPtr operator-(FPtr a, std::ptrdiff_t n) noexcept { a -= n; return a; }
    explicit operator bool() const noexcept { return p_ != nullptr; }
    friend bool operator==(const FPtr& a, std::nullptr_t) noexcept { return a.p_ == nullptr; }
    friend bool operator!=(const FPtr& a, std::nullptr_t) noexcept { return a.p_ != nullptr; }
};
template <class A, class B> std::ptrdiff_t operator-(const FPtr<A>& a, const FPtr<B>& b) noexcept { return a.raw() - b.raw(); }
template <class A, class B> bool operator==(const FPtr<A>& a, const FPtr<B>& b) noexcept { return a.raw() == b.raw(); }
template <class A, class B> bool operator!=(const FPtr<A>& a, const FPtr<B>& b) noexcept { return a.raw() != b.raw(); }
template <class A, class B> bool operator<(const FPtr<A>& a, const FPtr<B>& b) noexcept { return a.raw() < b.raw(); }
template <class A, class B> bool operator>(const FPtr<A>& a, const FPtr<B>& b) noexcept { return a.raw() > b.raw(); }
template <class A, class B> bool operator<=(const FPtr<A>& a, const FPtr<B>& b) noexcept { return a.raw() <= b.raw(); }
template <class A, class B> bool operator>=(const FPtr<A>& a, const FPtr<B>& b) noexcept { return a.raw() >= b.raw(); }

// ---- allocator ------------------------------------------------------------------
extern size_t g_max_elems;     // what allocator.max_size() reports in this run

template <class T, bool F> struct PtrSel { using type = T*; static T* make(void* p) { return (T*)p; } static void* raw(T* p) { return p; } };
template <class T> struct PtrSel<T, true> { using type = FPtr<T>; static FPtr<T> make(void* p) { return FPtr<T>((T*)p, typename FPtr<T>::Raw{}); } static void* raw(FPtr<T> p) { return p.raw(); } };

void* sim_allocate(size_t n, size_t esize, size_t align, int id);
void  sim_deallocate(void* p, size_t n, size_t esize, int id);

// policies
struct PolAlwaysEqual { static constexpr bool min = false, ae = true, pocca = false, pocma = false, pocs = false, fancy = false, sel = false; static constexpr const char* name = "AE"; };
struct PolNoProp      { static constexpr bool min = false, ae = false, pocca = false, pocma = false, pocs = false, fancy = false, sel = false; static constexpr const char* name = "NP"; };
struct PolAllProp     { static constexpr bool min = false, ae = false, pocca = true, pocma = true, pocs = true, fancy = false, sel = true; static constexpr const char* name = "PR"; };
struct PolMix1        { static constexpr bool min = false, ae = false, pocca = true, pocma = false, pocs = true, fancy = true, sel = true; static constexpr const char* name = "M1"; };
struct PolMix2        { static constexpr bool min = false, ae = false, pocca = false, pocma = true, pocs = false, fancy = true, sel = false; static constexpr const char* name = "M2"; };

struct PolMin         { static constexpr bool min = true, ae = false, pocca = false, pocma = false, pocs = false, fancy = false, sel = false; static constexpr const char* name = "MN"; };

constexpr int SELECT_BIT = 100; // id given to copies made by select_on_container_copy_construction

template <class T, class P>
class SimAlloc {
public:
    using value_type = T;
    using pointer = typename PtrSel<T, P::fancy>::type;
    using const_pointer = typename PtrSel<const T, P::fancy>::type;
    using size_type = std::size_t; using difference_type = std::ptrdiff_t;
    using propagate_on_container_copy_assignment = std::integral_constant<bool, P::pocca>;
    using propagate_on_container_move_assignment = std::integral_constant<bool, P::pocma>;
    using propagate_on_container_swap = std::integral_constant<bool, P::pocs>;
    using is_always_equal = std::integral_constant<bool, P::ae>;
    template <class U> struct rebind { using other = SimAlloc<U, P>; };

    SimAlloc() noexcept {}
    explicit SimAlloc(int id) noexcept : id_(P::ae ? 0 : id) {}
    template <class U> SimAlloc(const SimAlloc<U, P>& o) noexcept : id_(o.id()) {}

    pointer allocate(size_type n) { return PtrSel<T, P::fancy>::make(sim_allocate(n, sizeof(T), alignof(T), id_)); }
    void deallocate(pointer p, size_type n) { sim_deallocate(PtrSel<T, P::fancy>::raw(p), n, sizeof(T), id_); }
    size_type max_size() const noexcept { return g_max_elems; }
    template <class U, class... A> void construct(U* p, A&&... a) {
        Via save = via; via.con_lo = (const char*)p; via.con_hi = via.con_lo + sizeof(U);
        struct R { Via s; ~R() { via = s; } } r{save};
        ::new ((void*)p) U(std::forward<A>(a)...);
    }
    template <class U> void destroy(U* p) {
        Via save = via; via.des_lo = (const char*)p; via.des_hi = via.des_lo + sizeof(U);
        struct R { Via s; ~R() { via = s; } } r{save};
        p->~U();
    }
    SimAlloc select_on_container_copy_construction() const {
        if (P::sel) { SimAlloc a; a.id_ = id_ < SELECT_BIT ? id_ + SELECT_BIT : id_; return a; }
        return *this;
    }
    int id() const noexcept { return id_; }
    template <class U> friend bool operator==(const SimAlloc& a, const SimAlloc<U, P>& b) noexcept { return a.id() == b.id(); }
    template <class U> friend bool operator!=(const SimAlloc& a, const SimAlloc<U, P>& b) noexcept { return a.id() != b.id(); }
private:
    int id_ = 0;
};

// only what every allocator must have
template <class T>
class SimAlloc<T, PolMin> {
public:
    using value_type = T;
    SimAlloc() noexcept {}
    explicit SimAlloc(int id) noexcept : id_(id) {}
    template <class U> SimAlloc(const SimAlloc<U, PolMin>& o) noexcept : id_(o.id()) {}
    T* allocate(std::size_t n) { return (T*)sim_allocate(n, sizeof(T), alignof(T), id_); }
    void deallocate(T* p, std::size_t n) { sim_deallocate(p, n, sizeof(T), id_); }
    int id() const noexcept { return id_; }
    template <class U> friend bool operator==(const SimAlloc& a, const SimAlloc<U, PolMin>& b) noexcept { return a.id() == b.id(); }
    template <class U> friend bool operator!=(const SimAlloc& a, const SimAlloc<U, PolMin>& b) noexcept { return a.id() != b.id(); }
private:
    int id_ = 0;
};
template <class P> constexpr size_t unlimited_size(size_t value_size) { return P::min ? size_t(-1) / 2 / value_size : size_t(1) << 40; }

// ---- input ranges ------------------------------------------------------------------
template <class T> struct Stream {
    T* data = nullptr; size_t n = 0;
    size_t pos = 0;              // single-pass position
    uint32_t reads = 0;          // reads of the current item (single-pass)
    size_t maxread = 0;
    bool single = false;
};
enum RefMode { RM_CONST, RM_MOVE };
template <class T, class Cat, RefMode RM>
class SrcIt {
    Stream<T>* s_ = nullptr; size_t i_ = 0;
    static constexpr bool single = std::is_same<Cat, std::input_iterator_tag>::value;
    void cur() const {
        if (single && i_ != s_->pos) W.violate(V_STREAM, "stale copy of a single-pass iterator used (at %zu, stream is at %zu)", i_, s_->pos);
        if (i_ >= s_->n) W.violate(V_STREAM, "input range read past its end");
    }
public:
    using iterator_category = Cat; using value_type = T; using difference_type = std::ptrdiff_t;
    using reference = typename std::conditional<RM == RM_MOVE, T&&, const T&>::type;
    using pointer = const T*;
    SrcIt() {}
    SrcIt(Stream<T>* s, size_t i) : s_(s), i_(i) {}
    reference operator*() const {
        W.ev(12, i_); W.yield(); cur();
        W.point(F_ITER);
        if (single && ++s_->reads > 1) W.soft(V_STREAM, "item %zu of a single-pass input read twice", i_);
        if (i_ + 1 > s_->maxread) s_->maxread = i_ + 1;
        return static_cast<reference>(s_->data[i_]);
    }
    pointer operator->() const { return &s_->data[i_]; }
    SrcIt& operator++() {
        W.ev(13, i_); W.yield(); cur();
        W.point(F_ITER);
        if (single) {
            if (s_->reads == 0) W.violate(V_STREAM, "item %zu of a single-pass input skipped without being read", i_);
            s_->reads = 0; ++s_->pos;
        }
        ++i_; return *this;
    }
    struct Proxy { T* p; reference operator*() const { return static_cast<reference>(*p); } };
    SrcIt operator++(int) { SrcIt t = *this; ++*this; return t; }
    template <class C = Cat, typename std::enable_if<std::is_base_of<std::bidirectional_iterator_tag, C>::value>::type* = nullptr>
    SrcIt& operator--() { if (i_ == 0) W.violate(V_STREAM, "input range decremented before its beginning"); --i_; return *this; }
    template <class C = Cat, typename std::enable_if<std::is_base_of<std::bidirectional_iterator_tag, C>::value>::type* = nullptr>
    SrcIt operator--(int) { SrcIt t = *this; --*this; return t; }
    friend bool operator==(const SrcIt& a, const SrcIt& b) { W.ev(14, a.i_); return a.i_ == b.i_; }
    friend bool operator!=(const SrcIt& a, const SrcIt& b) { return !(a == b); }
    // random access
    SrcIt& operator+=(difference_type d) {
        difference_type r = difference_type(i_) + d;
        if (r < 0 || size_t(r) > s_->n) W.violate(V_STREAM, "input range advanced outside its bounds");
        i_ = size_t(r); return *this;
    }
    SrcIt& operator-=(difference_type d) { return *this += -d; }
    friend SrcIt operator+(SrcIt a, difference_type d) { a += d; return a; }
    friend SrcIt operator+(difference_type d, SrcIt a) { a += d; return a; }
    friend SrcIt operator-(SrcIt a, difference_type d) { a -= d; return a; }
    friend difference_type operator-(const SrcIt& a, const SrcIt& b) { return difference_type(a.i_) - difference_type(b.i_); }
    reference operator[](difference_type d) const { return *(*this + d); }
    friend bool operator<(const SrcIt& a, const SrcIt& b) { return a.i_ < b.i_; }
    friend bool operator>(const SrcIt& a, const SrcIt& b) { return a.i_ > b.i_; }
    friend bool operator<=(const SrcIt& a, const SrcIt& b) { return a.i_ <= b.i_; }
    friend bool operator>=(const SrcIt& a, const SrcIt& b) { return a.i_ >= b.i_; }
};

} // namespace sim
#endif
