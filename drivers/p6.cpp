#include "inst.hpp"
#include "ops6.hpp"
#define M2(op) E(op, n, SBuf<Nm>) E(op, i, SBuf<In>)
M2(amort_push_back) M2(amort_push_front) M2(amort_push_back_def) M2(amort_push_front_def) M2(amort_pop_back) M2(amort_pop_front) M2(amort_erase) M2(amort_rerase) M2(amort_insert) M2(shrink)
#define ME(op) E(op, i, SBuf<In>)
ME(amedge_push_back) ME(amedge_push_front) ME(amedge_pop_back) ME(amedge_pop_front)
ME(shrinkedge)
