#include "inst.hpp"
#include "ops4.hpp"
#define H2(op) E(held_##op, n, BUF<Nm>) E(held_##op, c, BUF<Cp>)
H2(push_back) H2(push_front) H2(pop_back) H2(pop_front) H2(insert) H2(rinsert) H2(insert_n) H2(rinsert_n) H2(erase) H2(rerase) H2(erase_range) H2(rerase_range)
H2(clear) H2(linearize) H2(rotate) H2(set_capacity) H2(rset_capacity) H2(resize) H2(rresize) H2(assign_n) H2(assign_r) H2(assign_copy)
H2(swap) H2(move) H2(iters) H2(outlive) H2(two) H2(singular) H2(invalid)
#ifndef SA_SO
H2(erase_begin) H2(erase_end)
#endif
