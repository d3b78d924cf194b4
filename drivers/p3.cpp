#include "inst.hpp"
#ifdef SA_AC
EREL(swap) EREL(swap_self)
#else
#define E2(op) E(op, n, BUF<Nm>) E(op, i, BUF<In>)
E2(access) E2(at_range) E2(sizes) E2(const) E2(iter_arith) E2(iter_step) E2(iter_cmp) E2(iter_ends)
E(compare, r, BUF<Rl>) EREL(swap) EREL(swap_self)
E2(huge_set_capacity) E2(huge_resize) E2(huge_assign) E2(huge_ctor)
#define EL(op) E(op, l, BUF<Lm>)
EL(sizes) EL(huge_set_capacity) EL(huge_resize) EL(huge_assign) EL(huge_ctor) EL(within) E2(within)
EALL(huge_insert) EALL(huge_rinsert)
#define EK(op) extern "C" void sa_entry_alias_##op##_n() { op_alias_##op<BUF<Nm>, false>(); } extern "C" void sa_entry_alias_##op##_i() { op_alias_##op<BUF<In>, false>(); } \
    extern "C" void sa_entry_aliask_##op##_n() { op_alias_##op<BUF<Nm>, true>(); } extern "C" void sa_entry_aliask_##op##_i() { op_alias_##op<BUF<In>, true>(); }
EK(insert) EK(rinsert) EK(insert_n) EK(rinsert_n)
#ifdef SA_SO
EK(push_back) EK(push_front) EK(resize) EK(rresize)
#else
#define EK1(op) extern "C" void sa_entry_alias_##op##_n() { op_alias_##op<BUF<Nm>, false>(); } extern "C" void sa_entry_alias_##op##_i() { op_alias_##op<BUF<In>, false>(); }
EK1(push_back) EK1(push_front) EK1(resize) EK1(rresize)
#endif
#endif
