#include "inst.hpp"
#include "ops7.hpp"
#define W2(op) E(op, n, BUF<Nm>) E(op, c, BUF<Cp>) E(op, i, BUF<In>)
#define W3(op) E(op##_r0, n, BUF<Nm>) E(op##_r1, n, BUF<Nm>) E(op##_r2, n, BUF<Nm>)
W2(work_insert) W2(work_insert_rv) W2(work_insert_n) W2(work_rinsert_n) W2(work_erase) W2(work_erase_range) W2(work_remove) W2(work_linearize) W2(work_rotate)
W2(work_set_capacity) W2(work_resize) W2(work_assign) W2(work_copy) W2(work_move)
E(work_compare, c, BUF<Cp>)
W3(work_insert) W3(work_rinsert) W3(work_assign) W3(work_assign_cap) W3(work_ctor)
E(work_insert_single, n, BUF<Nm>) E(work_rinsert_single, n, BUF<Nm>)
