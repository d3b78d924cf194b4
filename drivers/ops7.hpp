// Work: constructions, assignments, destructions, comparisons and loop iterations of each operation against its documented complexity.
// From states of one larger capacity (W slots), with the item position and count at its ends and in between.
#pragma once
#include "ops3.hpp"
namespace sa {
#define W ((ul)__sa_bound())
template <class H> struct Work { typedef typename H::value T; H& a; ul S; long c0, d0, i0, k0;
    Work(H& x) : a(x) { __sa_assume(a.shape != 0); ul I = a.C;
        if constexpr (H::so) { I = a.I; int m = __sa_choice(2); __sa_assume(a.C == (m ? I : I + 2)); __sa_assume(a.M == 0); }
        __sa_assume(I == W); int k = __sa_choice(2); __sa_assume(a.F == (k ? W / 2 + 1 : 0));
        S = a.S; switch (__sa_choice(5)) { case 0: __sa_assume(S == 0); break; case 1: __sa_assume(S == 1); break; case 2: __sa_assume(S == W / 2); break; case 3: __sa_assume(S == W - 1); break; default: __sa_assume(S == W); } }
    ul pos(const char* n = "p", int ends = 0) { ul p = __sa_sym(n, 0, ends ? S - 1 : S); switch (__sa_choice(6)) { case 0: __sa_assume(p == 0); break; case 4: __sa_assume(p > 1 && p > S / 2 && p == 7 * S / 8 && p + 1 < S); break; case 1: __sa_assume(p == 1); break; case 2: __sa_assume(p > 1 && p == S / 2 && p + 1 < S); break; case 3: __sa_assume(p > 1 && p + 1 == S); break; default: __sa_assume(p > 1 && p == S); } return p; }
    void count(ul n) { switch (__sa_choice(5)) { case 0: __sa_assume(n == 0); break; case 1: __sa_assume(n == 1); break; case 2: __sa_assume(n == 4); break; case 3: __sa_assume(n == W); break; default: __sa_assume(n == W + 2); } }
    ul count() { ul n = __sa_sym("n", 0, MAXC); count(n); return n; }
    void start() { c0 = __sa_work(0); d0 = __sa_work(1); i0 = __sa_work(2); k0 = __sa_work(3); __sa_throwmode(0); }
    void end(ul c, ul d) {
        __sa_check("C32", __sa_work(0) - c0 <= (long)(4 * c + 8), "more elements are constructed or assigned than the documented complexity allows");
        __sa_check("C32", __sa_work(1) - d0 <= (long)(4 * d + 8), "more elements are destroyed than the documented complexity allows");
        __sa_check("C32", __sa_work(2) - i0 <= (long)(8 * (c + d) + 24), "more steps are taken than the documented complexity allows");
        __sa_end(); }
    void same(ul q) { end(q, q); } };
static inline ul lo(ul a, ul b) { return a < b ? a : b; }
// what one operation of the space optimized buffer may do beyond the plain one: exchange its storage
template <class H> ul extra(H& a) { return H::so ? a.S : 0; }
template <class H> void op_work_insert() { typedef typename H::value T; A_(H, a); Work<H> w(a); ul p = w.pos(); int k = __sa_choice(4); const T& x = item<T>(); w.start();
    switch (k) { case 0: a.cb.insert(a.it(p), x); break; case 1: a.cb.insert(a.it(p)); break; case 2: a.cb.rinsert(a.it(p), x); break; default: a.cb.rinsert(a.it(p)); }
    w.same((k < 2 ? w.S - p : p) + extra(a)); }
template <class H> void op_work_insert_rv() { typedef typename H::value T; A_(H, a); Work<H> w(a); ul p = w.pos(); int k = __sa_choice(2); T& x = ritem<T>(); w.start();
    if (k) a.cb.insert(a.it(p), std::move(x)); else a.cb.rinsert(a.it(p), std::move(x));
    w.same((k ? w.S - p : p) + extra(a)); }
template <class H> void op_work_insert_n() { typedef typename H::value T; A_(H, a); Work<H> w(a); ul p = w.pos(), n = w.count(); const T& x = item<T>(); w.start();
    a.cb.insert(a.it(p), n, x); w.same(lo(a.C, w.S - p + n) + extra(a)); }
template <class H> void op_work_rinsert_n() { typedef typename H::value T; A_(H, a); Work<H> w(a); ul p = w.pos(), n = w.count(); const T& x = item<T>(); w.start();
    a.cb.rinsert(a.it(p), n, x); w.same(lo(a.C, p + n) + extra(a)); }
template <class H, int K> void op_work_insert_r() { typedef typename H::value T; A_(H, a); Work<H> w(a); ul p = w.pos(); Rng<T, K> r; ul n = r.n; w.count(n); if (K == 2) __sa_assume(p == w.S); w.start();
    a.cb.insert(a.it(p), r.b(), r.e()); ul q = w.S - p + n; w.same((K == 0 ? lo(a.C, q) : q) + extra(a)); }
template <class H, int K> void op_work_rinsert_r() { typedef typename H::value T; A_(H, a); Work<H> w(a); ul p = w.pos(); Rng<T, K> r; ul n = r.n; w.count(n); if (K == 2) __sa_assume(p == 0 && n <= 1); w.start();
    a.cb.rinsert(a.it(p), r.b(), r.e()); ul q = p + n; w.same((K == 0 ? lo(a.C, q) : q) + extra(a)); }
template <class H> void op_work_insert_single() { typedef typename H::value T; A_(H, a); Work<H> w(a); ul p = w.pos(); Rng<T, 2> r; ul n = r.n; w.count(n); __sa_assume(p < w.S); w.start();
    a.cb.insert(a.it(p), r.b(), r.e()); w.same(w.S - p + n + extra(a)); }
template <class H> void op_work_rinsert_single() { typedef typename H::value T; A_(H, a); Work<H> w(a); ul p = w.pos(); Rng<T, 2> r; ul n = r.n; w.count(n); __sa_assume(p > 0 || n > 1); w.start();
    a.cb.rinsert(a.it(p), r.b(), r.e()); w.same(p + n + extra(a)); }
template <class H> void op_work_erase() { A_(H, a); Work<H> w(a); __sa_assume(w.S > 0); ul p = w.pos("p", 1); int k = __sa_choice(2); w.start();
    if (k) a.cb.erase(a.it(p)); else a.cb.rerase(a.it(p)); w.same((k ? w.S - p : p + 1) + extra(a)); }
template <class H> void op_work_erase_range() { A_(H, a); Work<H> w(a); ul p = w.pos(), q = w.pos("q"); __sa_assume(p <= q); int k = __sa_choice(2); w.start();
    if (k) a.cb.erase(a.it(p), a.it(q)); else a.cb.rerase(a.it(p), a.it(q)); w.same((k ? w.S - p : q) + extra(a)); }
template <class H> void op_work_remove() { A_(H, a); Work<H> w(a); ul n = w.pos("n"); int k = __sa_choice(3); w.start();
    ul q = n; if constexpr (H::so) { if (k == 0) a.cb.erase(a.it(0), a.it(n)); else if (k == 1) a.cb.erase(a.it(w.S - n), a.it(w.S)); else { q = w.S; a.cb.clear(); } q = w.S; }
    else { if (k == 0) a.cb.erase_begin(n); else if (k == 1) a.cb.erase_end(n); else { q = w.S; a.cb.clear(); } }
    w.same(q); }
template <class H> void op_work_linearize() { A_(H, a); Work<H> w(a); w.start(); a.cb.linearize(); w.same(w.S); }
template <class H> void op_work_rotate() { A_(H, a); Work<H> w(a); __sa_assume(w.S > 0); ul p = w.pos("p", 1); w.start(); a.cb.rotate(a.cit(p));
    ul C = a.cb.m_end - a.cb.m_buff; w.same(w.S == a.C && w.S == C ? 0 : lo(p, w.S - p) + extra(a)); }
template <class H> void op_work_set_capacity() { A_(H, a); Work<H> w(a); ul c = w.count(); int k = __sa_choice(2); w.start();
    if constexpr (H::so) { typename H::CB::capacity_type cc(c, 0); if (k) a.cb.set_capacity(cc); else a.cb.rset_capacity(cc); }
    else { if (k) a.cb.set_capacity(c); else a.cb.rset_capacity(c); }
    w.end(lo(w.S, c), w.S); }
template <class H> void op_work_resize() { typedef typename H::value T; A_(H, a); Work<H> w(a); ul n = __sa_sym("!n", 0, MAXC); switch (__sa_choice(5)) { case 0: __sa_assume(n == 0); break; case 1: __sa_assume(n == W / 2); break; case 2: __sa_assume(n == W); break; case 3: __sa_assume(n == W + 2); break; default: __sa_assume(n == 3 * W); } int k = __sa_choice(2); const T& x = item<T>(); w.start();
    if (k) a.cb.resize(n, x); else a.cb.rresize(n, x); w.same(n + w.S); }
template <class H> void op_work_assign() { typedef typename H::value T; A_(H, a); Work<H> w(a); ul n = w.count(); const T& x = item<T>(); w.start(); a.cb.assign(n, x); w.end(n, w.S + n); }
template <class H, int K> void op_work_assign_r() { typedef typename H::value T; A_(H, a); Work<H> w(a); Rng<T, K> r; ul n = r.n; w.count(n); w.start(); a.cb.assign(r.b(), r.e()); w.end(n, w.S + n); }
template <class H, int K> void op_work_assign_cap_r() { typedef typename H::value T; A_(H, a); Work<H> w(a); Rng<T, K> r; ul n = r.n; w.count(n); ul c = __sa_sym("c", 0, MAXC); switch (__sa_choice(3)) { case 0: __sa_assume(c == 0); break; case 1: __sa_assume(c == W / 2); break; default: __sa_assume(c == W); } w.start();
    if constexpr (H::so) a.cb.assign(typename H::CB::capacity_type(c, 0), r.b(), r.e()); else a.cb.assign(c, r.b(), r.e()); ul q = K == 0 ? lo(n, c) : n; w.end(q, w.S + q); }
template <class H> void op_work_copy() { typedef typename H::CB CB; A_(H, a); Work<H> w(a); B_(H, b); __sa_assume(b.S <= 2); int k = __sa_choice(3); w.start();
    if (k == 0) { { CB c(a.cb); } w.same(w.S); } else if (k == 1) { b.cb = a.cb; w.end(w.S, b.S); } else { a.cb = b.cb; w.end(b.S, w.S); } }
template <class H> void op_work_move() { typedef typename H::CB CB; A_(H, a); Work<H> w(a); BA_(H, b); __sa_assume(b.S <= 2); int k = __sa_choice(3); w.start();
    if (k == 0) { { CB c(std::move(a.cb)); } w.end(0, w.S); } else if (k == 1) { b.cb = std::move(a.cb); w.end(0, b.S); } else { a.cb.swap(b.cb); w.end(0, 0); } }
template <class H, int K> void op_work_ctor_r() { typedef typename H::value T; typedef typename H::CB CB; Rng<T, K> r; ul n = r.n; ul c = __sa_sym("c", 0, MAXC);
    switch (__sa_choice(3)) { case 0: __sa_assume(c == 0); break; case 1: __sa_assume(c == 4); break; default: __sa_assume(c == W); }
    switch (__sa_choice(4)) { case 0: __sa_assume(n == 0); break; case 1: __sa_assume(n == 1); break; case 2: __sa_assume(n == 4); break; default: __sa_assume(n == W + 2); }
    long c0 = __sa_work(0), i0 = __sa_work(2), d0 = __sa_work(1); __sa_throwmode(0); int k = __sa_choice(2);
    { typename H::A al(1); if (k) { CB cb(r.b(), r.e(), al); } else { CB cb(typename CB::capacity_type(c), r.b(), r.e(), al); } }
    ul q = K == 0 && !k ? lo(n, c) : n;
    __sa_check("C32", __sa_work(0) - c0 <= (long)(4 * q + 8) && __sa_work(1) - d0 <= (long)(4 * q + 8), "more elements are constructed, assigned or destroyed than the documented complexity allows");
    __sa_check("C32", __sa_work(2) - i0 <= (long)(16 * q + 24), "more steps are taken than the documented complexity allows"); __sa_end(); }
template <class H> void op_work_compare() { A_(H, a); Work<H> w(a); H b("D", "G", "R", T_B, 2); __sa_assume(b.shape != 0); ul J = b.cb.m_end - b.cb.m_buff; __sa_assume(J == W && b.S + 1 >= w.S && b.S <= w.S + 1 && b.cb.m_first == b.cb.m_buff);
    if constexpr (H::so) __sa_assume(b.C == J && b.M == 0);
    int k = __sa_choice(2); w.start(); if (k) (void)(a.cb == b.cb); else (void)(a.cb < b.cb);
    __sa_check("C32", __sa_work(3) - w.k0 <= (long)(4 * w.S + 8), "more elements are compared than the documented complexity allows"); w.same(w.S); }
#define KIND7(op) template <class H> void op_##op##_r0() { op_##op##_r<H, 0>(); } template <class H> void op_##op##_r1() { op_##op##_r<H, 1>(); } template <class H> void op_##op##_r2() { op_##op##_r<H, 2>(); }
KIND7(work_insert) KIND7(work_rinsert) KIND7(work_assign) KIND7(work_assign_cap) KIND7(work_ctor)
#undef KIND7
}
