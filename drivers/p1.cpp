#include "inst.hpp"
EALL(push_back) EALL(push_front) EMOV(push_back_rv) EMOV(push_front_rv) EMOV(push_back_def) EMOV(push_front_def)
EREL(pop_back) EREL(pop_front) EREL(erase) EREL(erase_range) EREL(rerase) EREL(rerase_range) EREL(clear) EREL(dtor)
EALL(insert) EALL(rinsert) EMOV(insert_rv) EMOV(rinsert_rv) EMOV(insert_def) EMOV(rinsert_def)
EALL(insert_n) EALL(rinsert_n)
ERNG(insert, 0) ERNG(insert, 1) ERNG(insert, 2) ERNG(rinsert, 0) ERNG(rinsert, 1) ERNG(rinsert, 2)
#ifndef SA_SO
EREL(erase_begin) EREL(erase_end)
#endif
#ifndef SA_AC
E(insert_nint, i, BUF<In>) E(rinsert_nint, i, BUF<In>)
#endif
EMIX(push_back) EMIX(push_front) EMIX(push_back_rv) EMIX(push_front_rv) EMIX(pop_back) EMIX(pop_front) EMIX(erase) EMIX(rerase) EMIX(insert) EMIX(rinsert)
