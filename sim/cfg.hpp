// Registration helpers: one configuration = container x element kind x allocator policy x N.
#ifndef SIM_CFG_HPP
#define SIM_CFG_HPP
#include "seq.hpp"
#define SIM_CAT2(a, b) a##b
#define SIM_CAT(a, b) SIM_CAT2(a, b)
#define SEQ_A(TMPL, FAM, SK, EK, POL) \
    static Reg SIM_CAT(reg_, __COUNTER__)(FAM "_" #EK "_" #POL, [] { using E = ElemT<EK, 0>; using C = TMPL<E, SimAlloc<E, POL>>; \
        return std::unique_ptr<Driver>(new SeqDriver<C, E, POL, SK, 4>(FAM "_" #EK "_" #POL, FAM)); });
#define SEQ_N(TMPL, FAM, SK, EK, POL, N) \
    static Reg SIM_CAT(reg_, __COUNTER__)(FAM "_" #EK "_" #POL "_" #N, [] { using E = ElemT<EK, 0>; using C = TMPL<E, N, SimAlloc<E, POL>>; \
        return std::unique_ptr<Driver>(new SeqDriver<C, E, POL, SK, N>(FAM "_" #EK "_" #POL "_" #N, FAM)); });
#define SEQ_S(TMPL, FAM, SK, EK, N) \
    static Reg SIM_CAT(reg_, __COUNTER__)(FAM "_" #EK "_" #N, [] { using E = ElemT<EK, 0>; using C = TMPL<E, N>; \
        return std::unique_ptr<Driver>(new SeqDriver<C, E, PolAlwaysEqual, SK, N>(FAM "_" #EK "_" #N, FAM)); });
#endif
