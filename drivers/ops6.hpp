// Amortised cost of single pushes and pops of the space optimized buffer, and release of unused memory.
// For a potential P >= 0 of the state, every operation from every state has (elements relocated) + P(after) - P(before) <= A;
// summed over any sequence of n operations at most A*n + P(start) elements are relocated.
#pragma once
#include "ops3.hpp"
namespace sa {
enum { AMORT = 24, UNIT = 15 };
// potential times 15: grows while the buffer fills up towards the next growth or empties towards the next shrinking
inline long potential(ul S_, ul I_, ul K, ul M) { long S = S_, I = I_, r = 0;
    if (I_ < K && 3 * S > 2 * I) r += 300 * S - 200 * I;
    if (I_ < M) r += 15 * I;
    if (I_ > M && 2 * I > 5 * S) r += 30 * I - 75 * S;
    return r; }
template <class H> void op_amort(int k, bool edge = false) { typedef typename H::value T; A_(H, a); ul I = a.I, S = a.S, M = a.M, K = a.C; const T* B = a.B;
    const T& x = item<T>(); ul p = 0; if (k >= 6) p = __sa_sym("p", 0, k == 8 ? S : S - 1);
    if (edge) { __sa_assume(a.F == 0); if (k < 4) __sa_assume(S == I); else __sa_assume(I > M && S * 2 < I); }   // where storage is exchanged: larger capacities
    long before = potential(S, I, K, M);
    __sa_throwmode(0);
    switch (k) { case 0: a.cb.push_back(x); break; case 1: a.cb.push_front(x); break; case 2: a.cb.push_back(); break; case 3: a.cb.push_front(); break;
        case 4: __sa_assume(S > 0); a.cb.pop_back(); break; case 5: __sa_assume(S > 0); a.cb.pop_front(); break;
        case 6: __sa_assume(S > 0); a.cb.erase(a.it(p)); break; case 7: __sa_assume(S > 0); a.cb.rerase(a.it(p)); break; default: a.cb.insert(a.it(p), x); }
    ul J = a.cb.m_end - a.cb.m_buff, R = a.cb.m_size; bool moved = a.cb.m_buff != B;
    long after = potential(R, J, K, M), cost = moved ? UNIT * (long)S : 0;
    __sa_check("C28", cost + after - before <= UNIT * AMORT, "relocating all elements is not paid for by the operations before it: amortised cost not constant");
    if (k < 6 && !moved) { bool full = S == K, back = k == 0 || k == 2, front = k == 1 || k == 3;
        inplace(a, [&](ul i) -> long { return back ? (full ? (i + 1 < S ? (long)i + 1 : -1) : i < S ? (long)i : -1) : front ? (long)i - 1 : k == 4 ? (long)i : (long)i + 1; }, "C28"); }
    __sa_end(); }
#define AM(nm, k) template <class H> void op_amort_##nm() { op_amort<H>(k); } template <class H> void op_amedge_##nm() { op_amort<H>(k, true); }
AM(push_back, 0) AM(push_front, 1) AM(push_back_def, 2) AM(push_front_def, 3) AM(pop_back, 4) AM(pop_front, 5) AM(erase, 6) AM(rerase, 7) AM(insert, 8)
#undef AM
// memory is given back as elements are removed
template <class H> void op_shrink() { A_(H, a); ul M = a.M; int k = __sa_choice(9); ul p = 0, q = 0; const typename H::value& x = item<typename H::value>();
    if (k == 2 || k == 3) p = __sa_sym("p", 0, a.S - 1);
    if (k == 4 || k == 5) { p = __sa_sym("p", 0, a.S); q = __sa_sym("q", p, a.S); __sa_assume(p < q); }
    if (k >= 7) p = __sa_sym("p", 0, a.S - 1);
    __sa_assume(a.S > 0); __sa_throwmode(0);
    switch (k) { case 7: a.cb.resize(p, x); break; case 8: a.cb.rresize(p, x); break; case 0: a.cb.pop_back(); break; case 1: a.cb.pop_front(); break; case 2: a.cb.erase(a.it(p)); break; case 3: a.cb.rerase(a.it(p)); break;
        case 4: a.cb.erase(a.it(p), a.it(q)); break; case 5: a.cb.rerase(a.it(p), a.it(q)); break; default: a.cb.clear(); }
    ul J = a.cb.m_end - a.cb.m_buff, R = a.cb.m_size;
    __sa_check("C17", J <= M || J <= 4 * R + 4, "memory that is no longer needed is kept after elements were removed");
    __sa_end(); }
// the same at larger capacities
template <class H> void op_shrinkedge() { A_(H, a); ul M = a.M; __sa_assume(a.F == 0 && a.S > 0 && a.S * 2 < a.I); int k = __sa_choice(6); ul n = 0; const typename H::value& x = item<typename H::value>();
    if (k >= 2) __sa_assume(a.S <= 6);
    if (k >= 3) n = __sa_sym("n", 0, a.S - 1);
    __sa_throwmode(0);
    switch (k) { case 0: a.cb.pop_back(); break; case 1: a.cb.pop_front(); break; case 2: a.cb.clear(); break; case 3: a.cb.erase(a.it(n), a.it(a.S)); break; case 4: a.cb.resize(n, x); break; default: a.cb.rresize(n, x); }
    ul J = a.cb.m_end - a.cb.m_buff, R = a.cb.m_size;
    __sa_check("C17", J <= M || J <= 4 * R + 4, "memory that is no longer needed is kept after elements were removed");
    __sa_end(); }
}
