#include "inst.hpp"
EALL(ctor_def) EALL(ctor_cap) EALL(ctor_n) EALL(ctor_cap_n) EALL(ctor_copy) EREL(ctor_move)
ERNG(ctor, 0) ERNG(ctor, 1) ERNG(ctor, 2) ERNG(ctor_cap, 0) ERNG(ctor_cap, 1) ERNG(ctor_cap, 2)
EALL(assign_copy) EALL(assign_self) EREL(assign_move) EALL(assign_n) EALL(assign_cap_n)
ERNG(assign, 0) ERNG(assign, 1) ERNG(assign, 2) ERNG(assign_cap, 0) ERNG(assign_cap, 1) ERNG(assign_cap, 2)
EREL(set_capacity) EREL(rset_capacity) EALL(resize) EALL(rresize)
EREL(arrays) EREL(linearize) EREL(rotate)
#ifndef SA_AC
#define EI(op) E(op, i, BUF<In>)
EI(ctor_nint) EI(ctor_cap_nint) EI(assign_nint) EI(assign_cap_nint)
#endif
EMIX(set_capacity) EMIX(rset_capacity) EMIX(linearize) EMIX(rotate) EMIX(resize) EMIX(rresize)
