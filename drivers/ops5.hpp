// Debug support: every documented misuse is stopped by an assertion before anything is damaged.
#pragma once
#include "ops3.hpp"
namespace sa {
// ends the path where the call returns: an assertion ends it before
#define MISUSE(...) __sa_flag_set(EV_MISUSE); __sa_flags_clear(EV_CCTOR | EV_MCTOR | EV_CASG | EV_MASG | EV_DTOR | EV_ALLOC | EV_DEALLOC); __sa_throwmode(0); \
    __VA_ARGS__; __sa_flags_clear(EV_MISUSE); __sa_check("C31", false, "a call that breaks a documented precondition returns unnoticed"); __sa_end()
// ---- elements that are not there
template <class H> void op_misuse_access() { typedef typename H::CB CB; A_(H, a); const CB& c = a.cb; ul i = WIDE("!i", a.S); int k = __sa_choice(2);
    MISUSE(if (k) (void)a.cb[i]; else (void)c[i]); }
template <class H> void op_misuse_empty() { typedef typename H::CB CB; A_(H, a); __sa_assume(a.S == 0); const CB& c = a.cb; int k = __sa_choice(6);
    MISUSE(switch (k) { case 0: (void)a.cb.front(); break; case 1: (void)a.cb.back(); break; case 2: (void)c.front(); break; case 3: (void)c.back(); break; case 4: a.cb.pop_back(); break; default: a.cb.pop_front(); }); }
template <class H> void op_misuse_erase_count() { A_(H, a); ul n = WIDE("!n", a.S + 1); int k = __sa_choice(2);
    MISUSE(if (k) a.cb.erase_begin(n); else a.cb.erase_end(n)); }
template <class H> void op_misuse_end() { A_(H, a); int k = __sa_choice(3);
    MISUSE(if (k == 0) a.cb.erase(a.cb.end()); else if (k == 1) a.cb.rerase(a.cb.end()); else a.cb.rotate(a.cb.end())); }
template <class H> void op_misuse_range() { A_(H, a); ul p = __sa_sym("p", 0, a.S), q = __sa_sym("q", 0, a.S); __sa_assume(q < p); int k = __sa_choice(2);
    MISUSE(if (k) a.cb.erase(a.it(p), a.it(q)); else a.cb.rerase(a.it(p), a.it(q))); }
template <class H> void op_misuse_capacity() { typedef typename H::CB CB; typedef typename H::value T; A_(H, a); CAPS2; ul n = __sa_sym("n", K + 1, MAXC); const T& x = item<T>(); int k = __sa_choice(2); Mem<CB> m; typename H::A al(1);
    if constexpr (std::is_integral<T>::value) { int g = __sa_choice(2); MISUSE(if (g) { if (k) a.cb.assign(mkcap<CB>(K, M), (T)n, (T)x); else new (m.p()) CB(mkcap<CB>(K, M), (T)n, (T)x, al); } else if (k) a.cb.assign(mkcap<CB>(K, M), n, x); else new (m.p()) CB(mkcap<CB>(K, M), n, x, al)); }
    else { MISUSE(if (k) a.cb.assign(mkcap<CB>(K, M), n, x); else new (m.p()) CB(mkcap<CB>(K, M), n, x, al)); } }
template <class H> void op_misuse_source() { typedef typename H::value T; typedef typename H::CB CB; A_(H, a); CAPS2; ul n = __sa_sym("n", 1, MAXC); const T* s = static_cast<const T*>(__sa_ext(n, sizeof(T), T_EXT, 0)); const T* e = s + n; int k = __sa_choice(6); Mem<CB> m; typename H::A al(1);
    MISUSE(switch (k) { case 0: new (m.p()) CB(e, s, al); break; case 1: new (m.p()) CB(mkcap<CB>(K, M), e, s, al); break; case 2: a.cb.assign(e, s); break; case 3: a.cb.assign(mkcap<CB>(K, M), e, s); break; case 4: a.cb.insert(a.cb.begin(), e, s); break; default: a.cb.rinsert(a.cb.begin(), e, s); }); }
// ---- iterators that must not be used: singular, of another container, invalidated, of a destroyed container
template <class H> void bad(H& a, typename H::CB::iterator& it, ul* q) { typedef typename H::CB::iterator I; int w = __sa_choice(4);
    if (w == 0) it = I();
    else if (w == 1) { __sa_assume(a.S > 0); it = a.it(a.S - 1); a.cb.pop_back(); if constexpr (!H::so) a.S = a.S - 1; else a.S = a.S - 1; }
    else if (w == 2) { __sa_assume(a.S > 0); it = a.it(0); a.cb.clear(); a.S = 0; }
    else { H* b = static_cast<H*>((void*)q); it = b->it(__sa_choice(2) ? 0 : b->S); } }
#define BAD() A_(H, a); B_(H, b); typename H::CB::iterator it; bad(a, it, (ul*)&b); typename H::CB::const_iterator ct = it; (void)ct
template <class H> void op_misuse_insert() { typedef typename H::value T; BAD(); const T& x = item<T>(); int k = __sa_choice(6);
    MISUSE(switch (k) { case 0: a.cb.insert(it, x); break; case 1: a.cb.rinsert(it, x); break; case 2: a.cb.insert(it, 1, x); break; case 3: a.cb.rinsert(it, 1, x); break; case 4: a.cb.insert(it); break; default: a.cb.rinsert(it); }); }
template <class H> void op_misuse_insert_r() { typedef typename H::value T; BAD(); Rng<T, 0> r; int k = __sa_choice(2); __sa_assume(r.n > 0);
    MISUSE(if (k) a.cb.insert(it, r.b(), r.e()); else a.cb.rinsert(it, r.b(), r.e())); }
template <class H> void op_misuse_erase() { BAD(); int k = __sa_choice(7);
    MISUSE(switch (k) { case 0: a.cb.erase(it); break; case 1: a.cb.rerase(it); break; case 2: a.cb.erase(it, a.cb.end()); break; case 3: a.cb.rerase(a.cb.begin(), it); break; case 4: a.cb.erase(a.cb.begin(), it); break; case 5: a.cb.rerase(it, a.cb.end()); break; default: a.cb.rotate(it); }); }
// comparing and subtracting iterators, one of which is not usable together with the other
template <class H> void op_misuse_pair() { BAD(); typename H::CB::iterator g = a.cb.end(); typename H::CB::const_iterator cg = g; int k = __sa_choice(16); bool r = false; long d = 0;
    MISUSE(switch (k) { case 0: r = it == g; break; case 1: r = g == it; break; case 2: r = it != cg; break; case 3: r = cg != it; break; case 4: r = it < g; break; case 5: r = g < ct; break; case 6: r = it > g; break; case 7: r = cg > it; break;
        case 8: r = it <= g; break; case 9: r = g <= it; break; case 10: r = ct >= g; break; case 11: r = g >= ct; break; case 12: d = it - g; break; case 13: d = g - it; break; case 14: d = ct - cg; break; default: d = cg - ct; }); }
// using an iterator that was invalidated or belongs to nothing
template <class H> void op_misuse_use() { typedef typename H::CB::iterator I; A_(H, a); I it; typename H::CB::const_iterator ct; int w = __sa_choice(3), k = __sa_choice(10); ul i = 0;
    if (w == 1) { __sa_assume(a.S > 0); it = a.it(a.S - 1); ct = it; a.cb.pop_back(); } else if (w == 2) { __sa_assume(a.S > 0); i = __sa_sym("i", 0, a.S - 1); it = a.it(i); ct = it; a.cb.clear(); }
    else __sa_assume(k < 4);   // a singular iterator has no container to ask
    MISUSE(switch (k) { case 0: (void)*it; break; case 1: (void)*ct; break; case 2: (void)it.operator->(); break; case 3: (void)ct.operator->(); break; case 4: ++it; break; case 5: ++ct; break; case 6: it += 1; break; case 7: ct -= 1; break; case 8: --it; break; default: (void)it[0]; }); }
// leaving the sequence
template <class H> void op_misuse_leave() { A_(H, a); int k = __sa_choice(14); typename H::CB::iterator e = a.cb.end(), b = a.cb.begin(); typename H::CB::const_iterator ce = e, cb = b; ul i = __sa_sym("i", 0, a.S); long over = __sa_ssym("over", (long)(a.S - i) + 1, (long)MAXC), under = __sa_ssym("under", (long)i + 1, (long)MAXC); typename H::CB::iterator it = a.it(i);
    MISUSE(switch (k) { case 0: (void)*e; break; case 1: (void)*ce; break; case 2: (void)e.operator->(); break; case 3: ++e; break; case 4: ++ce; break; case 5: e++; break; case 6: --b; break; case 7: --cb; break; case 8: b--; break;
        case 9: it += over; break; case 10: (void)(it + over); break; case 11: it -= under; break; case 12: (void)(it - under); break; default: it += -under; }); }
// any distance of the type that leaves the sequence
template <class H> void op_misuse_far() { A_(H, a); int k = __sa_choice(8); ul i = __sa_sym("i", 0, a.S); typename H::CB::iterator it = a.it(i); typename H::CB::const_iterator ct = it; bool up = (k & 1) != 0;
    long n = __sa_choice(2) ? __sa_ssym("n", (long)((up ? a.S - i : i) + 1), ~0ul >> 1) : __sa_ssym("n", (long)(1ul << 63), -(long)((up ? i : a.S - i) + 1));
    MISUSE(switch (k) { case 1: it += n; break; case 3: (void)(it + n); break; case 5: ct += n; break; case 7: (void)it[n]; break; case 0: it -= n; break; case 2: (void)(it - n); break; case 4: ct -= n; break; default: (void)(ct - n); }); }
// ---- iterators that outlive their container
template <class H> void op_misuse_dead() { typedef typename H::CB CB; alignas(H) char mem[sizeof(H)]; H* a = new (mem) H("C", "F", "S", T_A, 1); ul i = __sa_sym("i", 0, a->S); typename CB::iterator it = a->it(i); typename CB::const_iterator ct = it; int k = __sa_choice(3);
    a->cb.~CB();
    MISUSE(if (k == 0) (void)*it; else if (k == 1) (void)*ct; else ++it); }
}
