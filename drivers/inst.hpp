#pragma once
#include "ops3.hpp"
using namespace sa;
#ifdef SA_SO
#define BUF SBuf
#else
#define BUF PBuf
#endif
#define E(op, s, ...) extern "C" void sa_entry_##op##_##s() { op_##op<__VA_ARGS__>(); }
#ifdef SA_AC   // element and allocator that insist on construct and destroy of the allocator
#define EA(op) E(op, a, BUF<Ac>)
#define EALL(op) EA(op)
#define EMOV(op) EA(op)
#define EREL(op) EA(op)
#define ERNG(op, K) E(op##_r##K, a, BUF<Ac>)
#else
#define EALL(op) E(op, c, BUF<Cp>) E(op, n, BUF<Nm>) E(op, t, BUF<Tm>) E(op, i, BUF<In>)
#ifdef SA_NO_MO   // the tree under analysis does not compile for element types that cannot be copied
#define EMO(op)
#define EMT(op)
#else
#define EMO(op) E(op, m, BUF<Mo>)
#define EMT(op) E(op, x, BUF<Mt>)
#endif
#ifdef SA_SO
#define EMOV(op) E(op, n, BUF<Nm>) E(op, t, BUF<Tm>) EMO(op)
#else
#define EMOV(op) E(op, n, BUF<Nm>) E(op, t, BUF<Tm>) EMO(op) EMT(op)
#endif
#define EREL(op) E(op, c, BUF<Cp>) E(op, n, BUF<Nm>) E(op, t, BUF<Tm>) EMO(op) E(op, i, BUF<In>)
#define ERNG(op, K) E(op##_r##K, c, BUF<Cp>) E(op##_r##K, n, BUF<Nm>) E(op##_r##K, i, BUF<In>)
#endif
#if defined(SA_AC) || BOOST_CB_ENABLE_DEBUG
#define EMIX(op)
#else   // move construction and move assignment differ in whether they may throw
#define EMIX(op) E(op, y, BUF<Na>) E(op, z, BUF<Nc>) E(op, b, BUF<Ch>)
#endif
#define KINDS(op) template <class H> void op_##op##_r0() { op_##op##_r<H, 0>(); } template <class H> void op_##op##_r1() { op_##op##_r<H, 1>(); } template <class H> void op_##op##_r2() { op_##op##_r<H, 2>(); }
KINDS(insert) KINDS(rinsert) KINDS(ctor) KINDS(ctor_cap) KINDS(assign) KINDS(assign_cap)
