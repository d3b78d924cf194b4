#include "inst.hpp"
#include "ops5.hpp"
#define M2(op) E(misuse_##op, n, BUF<Nm>) E(misuse_##op, i, BUF<In>)
M2(access) M2(empty) M2(end) M2(range) M2(capacity) M2(source) M2(insert) M2(insert_r) M2(erase) M2(pair) M2(use) M2(leave) M2(far) M2(dead)
#ifndef SA_SO
M2(erase_count)
#endif
