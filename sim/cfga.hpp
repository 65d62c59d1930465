// Registration helpers for sets and maps.
#ifndef SIM_CFGA_HPP
#define SIM_CFGA_HPP
#include "assoc.hpp"
#include <sfl/small_flat_set.hpp>
#include <sfl/small_flat_map.hpp>
#include <sfl/small_flat_multiset.hpp>
#include <sfl/small_flat_multimap.hpp>
#include <sfl/small_unordered_flat_set.hpp>
#include <sfl/small_unordered_flat_map.hpp>
#include <sfl/small_unordered_flat_multiset.hpp>
#include <sfl/small_unordered_flat_multimap.hpp>
#include <sfl/static_flat_set.hpp>
#include <sfl/static_flat_map.hpp>
#include <sfl/static_flat_multiset.hpp>
#include <sfl/static_flat_multimap.hpp>
#include <sfl/static_unordered_flat_set.hpp>
#include <sfl/static_unordered_flat_map.hpp>
#include <sfl/static_unordered_flat_multiset.hpp>
#include <sfl/static_unordered_flat_multimap.hpp>
#define SIM_CAT2(a, b) a##b
#define SIM_CAT(a, b) SIM_CAT2(a, b)
namespace sim {
template <bool O, class K, bool T> struct FunctorOf { using type = Cmp<K, T>; };
template <class K, bool T> struct FunctorOf<false, K, T> { using type = Eq<K, T>; };
}
// ORD ordered, MUL multi, TR transparent functor
#define SMALL_SET(TMPL, ORD, MUL, EK, POL, TR, N) \
    static Reg SIM_CAT(reg_, __COUNTER__)(#TMPL "_" #EK "_" #POL "_" #N, [] { using K = ElemT<EK, 0>; using F = FunctorOf<ORD, K, TR>::type; using C = sfl::TMPL<K, N, F, SimAlloc<K, POL>>; \
        return std::unique_ptr<Driver>(new AssocDriver<AT<C, K, void, F, POL, ORD, MUL, false, TR, N>>(#TMPL "_" #EK "_" #POL "_" #N, #TMPL)); });
#define SMALL_MAP(TMPL, ORD, MUL, EK, EM, POL, TR, N) \
    static Reg SIM_CAT(reg_, __COUNTER__)(#TMPL "_" #EK "_" #EM "_" #POL "_" #N, [] { using K = ElemT<EK, 0>; using M = ElemT<EM, 1>; using F = FunctorOf<ORD, K, TR>::type; using C = sfl::TMPL<K, M, N, F, SimAlloc<std::pair<K, M>, POL>>; \
        return std::unique_ptr<Driver>(new AssocDriver<AT<C, K, M, F, POL, ORD, MUL, false, TR, N>>(#TMPL "_" #EK "_" #EM "_" #POL "_" #N, #TMPL)); });
#define STATIC_SET(TMPL, ORD, MUL, EK, TR, N) \
    static Reg SIM_CAT(reg_, __COUNTER__)(#TMPL "_" #EK "_" #N, [] { using K = ElemT<EK, 0>; using F = FunctorOf<ORD, K, TR>::type; using C = sfl::TMPL<K, N, F>; \
        return std::unique_ptr<Driver>(new AssocDriver<AT<C, K, void, F, PolAlwaysEqual, ORD, MUL, true, TR, N>>(#TMPL "_" #EK "_" #N, #TMPL)); });
#define STATIC_MAP(TMPL, ORD, MUL, EK, EM, TR, N) \
    static Reg SIM_CAT(reg_, __COUNTER__)(#TMPL "_" #EK "_" #EM "_" #N, [] { using K = ElemT<EK, 0>; using M = ElemT<EM, 1>; using F = FunctorOf<ORD, K, TR>::type; using C = sfl::TMPL<K, M, N, F>; \
        return std::unique_ptr<Driver>(new AssocDriver<AT<C, K, M, F, PolAlwaysEqual, ORD, MUL, true, TR, N>>(#TMPL "_" #EK "_" #EM "_" #N, #TMPL)); });
#endif
