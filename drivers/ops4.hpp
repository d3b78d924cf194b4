// Debug support: iterators held across an operation. j designates the held iterator (j == S: end()).
#pragma once
#include "ops3.hpp"
namespace sa {
// kept: the documentation keeps the iterator valid. An iterator that is still accepted designates a live element or the end.
// the registry is a list of exactly the iterators n0..n4 that are registered with it (null pointers are skipped)
template <class CB> void registry(const CB& cb, const void* n0, const void* n1 = 0, const void* n2 = 0, const void* n3 = 0, const void* n4 = 0) {
    typedef boost::cb_details::debug_iterator_base DB; const void* n[5] = { n0, n1, n2, n3, n4 }; bool seen[5] = { false, false, false, false, false };
    int k = 0;
    for (const DB* p = cb.m_iterators; p != 0; p = p->m_next) {
        if (++k > 5) { __sa_check("C23", false, "the registry of iterators holds an iterator twice or one that does not exist"); __sa_end(); }
        bool hit = false;
        for (int i = 0; i < 5; ++i) if (n[i] && (const void*)p == n[i]) { __sa_check("C23", !seen[i], "an iterator is registered twice"); seen[i] = true; hit = true; }
        __sa_check("C23", hit, "the registry holds an iterator that no longer exists or is not valid");
        if (!hit) __sa_end();
        __sa_check("C23", p->m_registry == static_cast<const boost::cb_details::debug_iterator_registry*>(&cb), "an iterator that is invalid or belongs to another container is in the registry");
    }
    for (int i = 0; i < 5; ++i) if (n[i] && static_cast<const DB*>(n[i])->m_registry == static_cast<const boost::cb_details::debug_iterator_registry*>(&cb)) __sa_check("C23", seen[i], "a valid iterator is missing in the registry");
}
template <class H, class I> void held(H& a, bool th, I& h, bool kept, const void* h2 = 0, const void* h3 = 0, const void* h4 = 0) {
    if (__sa_choice(2)) { registry(a.cb, &h, h2, h3, h4); __sa_end(); }
    bool v = h.is_valid(&a.cb);
    if (!th && kept) __sa_check("C23", v, "an iterator the documentation keeps valid is rejected by the debug support");
    if (v && h.m_it != 0) {
        __sa_check("C23", a.cb.m_buff != 0 && __sa_sameobj(h.m_it, a.cb.m_buff), "an iterator into storage that was given up is still accepted by the debug support");
        __sa_check("C23", __sa_status(h.m_it) == 1, "an iterator to an element that no longer exists is still accepted by the debug support"); }
    __sa_end();
}
#define HELD() A_(H, a); ul S = a.S, C = a.C, j = __sa_sym("j", 0, a.S); (void)S; (void)C; typename H::CB::iterator h = a.it(j); typename H::CB::const_iterator h2 = h; (void)h2
#define POS() ul p = __sa_sym("p", 0, S)
#define NUM() ul n = __sa_sym("n", 0, MAXC)
#define KEEP(c) held(a, th, h, H::so ? j == S : (c), &h2)   // the space optimized buffer may replace its storage, which keeps only end()
template <class H> void op_held_push_back() { HELD(); const typename H::value& x = item<typename H::value>(); RUN(a.cb.push_back(x)); KEEP(!(S == C && j == 0) || j == S); }
template <class H> void op_held_push_front() { HELD(); const typename H::value& x = item<typename H::value>(); RUN(a.cb.push_front(x)); KEEP(!(S == C && j + 1 == S) || j == S); }
template <class H> void op_held_pop_back() { HELD(); __sa_assume(S > 0); RUN(a.cb.pop_back()); KEEP(j + 1 != S); }
template <class H> void op_held_pop_front() { HELD(); __sa_assume(S > 0); RUN(a.cb.pop_front()); KEEP(j != 0); }
template <class H> void op_held_insert() { HELD(); POS(); const typename H::value& x = item<typename H::value>(); RUN(a.cb.insert(a.it(p), x)); KEEP(j == S || (j < p && !(S == C && j == 0))); }
template <class H> void op_held_rinsert() { HELD(); POS(); const typename H::value& x = item<typename H::value>(); RUN(a.cb.rinsert(a.it(p), x)); KEEP(j == S || (j >= p && !(S == C && j + 1 == S))); }
template <class H> void op_held_insert_n() { HELD(); POS(); NUM(); const typename H::value& x = item<typename H::value>(); RUN(a.cb.insert(a.it(p), n, x)); KEEP(j == S || (j < p && !(S + n > C && j < S + n - C))); }
template <class H> void op_held_rinsert_n() { HELD(); POS(); NUM(); const typename H::value& x = item<typename H::value>(); RUN(a.cb.rinsert(a.it(p), n, x)); KEEP(j == S || (j >= p && !(S + n > C && S - 1 - j < S + n - C))); }
template <class H> void op_held_erase() { HELD(); POS(); __sa_assume(p < S); RUN(a.cb.erase(a.it(p))); KEEP(j == S || j < p); }
template <class H> void op_held_rerase() { HELD(); POS(); __sa_assume(p < S); RUN(a.cb.rerase(a.it(p))); KEEP(j == S || j > p); }
template <class H> void op_held_erase_range() { HELD(); POS(); ul q = __sa_sym("q", p, S); __sa_assume(p < q); RUN(a.cb.erase(a.it(p), a.it(q))); KEEP(j == S || j < p); }
template <class H> void op_held_rerase_range() { HELD(); POS(); ul q = __sa_sym("q", p, S); __sa_assume(p < q); RUN(a.cb.rerase(a.it(p), a.it(q))); KEEP(j == S || j >= q); }
template <class H> void op_held_erase_begin() { HELD(); ul n = __sa_sym("n", 0, S); RUN(a.cb.erase_begin(n)); KEEP(j == S || j >= n); }
template <class H> void op_held_erase_end() { HELD(); ul n = __sa_sym("n", 0, S); RUN(a.cb.erase_end(n)); KEEP(j == S || j < S - n); }
template <class H> void op_held_clear() { HELD(); RUN(a.cb.clear()); KEEP(j == S); }
template <class H> void op_held_linearize() { HELD(); bool lin = a.F + a.S <= (ul)(a.cb.m_end - a.cb.m_buff); RUN(a.cb.linearize()); KEEP(j == S || lin); }
template <class H> void op_held_rotate() { HELD(); POS(); __sa_assume(p < S); ul m = S - p; RUN(a.cb.rotate(a.it(p))); KEEP(j == S || S == C || (m < p ? j < p : j >= p)); }
template <class H> void op_held_set_capacity() { HELD(); CAPS2; RUN(a.cb.set_capacity(mkcap<typename H::CB>(K, M))); KEEP(j == S || K == C); }
template <class H> void op_held_rset_capacity() { HELD(); CAPS2; RUN(a.cb.rset_capacity(mkcap<typename H::CB>(K, M))); KEEP(j == S || K == C); }
template <class H> void op_held_resize() { HELD(); NUM(); const typename H::value& x = item<typename H::value>(); RUN(a.cb.resize(n, x)); KEEP(j == S || (n <= C && (n >= S || j < n))); }
template <class H> void op_held_rresize() { HELD(); NUM(); const typename H::value& x = item<typename H::value>(); RUN(a.cb.rresize(n, x)); KEEP(j == S || (n <= C && (n >= S || j >= S - n))); }
template <class H> void op_held_assign_n() { HELD(); NUM(); const typename H::value& x = item<typename H::value>(); RUN(a.cb.assign(n, x)); KEEP(j == S); }
template <class H> void op_held_assign_r() { HELD(); Rng<typename H::value, 0> r; RUN(a.cb.assign(r.b(), r.e())); KEEP(j == S); }
template <class H> void op_held_assign_copy() { HELD(); B_(H, b); const typename H::CB& c = b.cb; RUN(a.cb = c); KEEP(j == S); }
template <class H> void op_held_swap() { HELD(); B_(H, b); RUN(a.cb.swap(b.cb)); held(a, th, h, false, &h2); }
template <class H> void op_held_move() { HELD(); B_(H, b); RUN(b.cb = std::move(a.cb)); held(a, th, h, false, &h2); }
// queries and iterators of one container leave held iterators valid; assigning and destroying iterators keeps the registry intact
template <class H> void op_held_iters() { HELD(); const typename H::CB& c = a.cb; ul i = __sa_sym("i", 0, S); int k = __sa_choice(6); typename H::CB::iterator g; typename H::CB::iterator g2(a.it(i));
    RUN(switch (k) {
        case 0: { typename H::CB::iterator x = a.it(i), y = x, z; z = y; x = h; break; }
        case 1: { typename H::CB::const_iterator x = c.begin(), y = c.end(); y = x; x = a.it(i); break; }
        case 2: { g = h; typename H::CB::iterator x = g; g = a.cb.end(); break; }
        case 3: { typename H::CB::reverse_iterator x = a.cb.rbegin(), y = a.cb.rend(); x = y; break; }
        case 4: { (void)c.array_one(); (void)c.array_two(); (void)c.is_linearized(); if (S) { (void)c.front(); (void)a.cb.back(); } break; }
        default: { typename H::CB::iterator x(h); typename H::CB::iterator y; y = x; h = h; g2 = h; } });
    if (__sa_choice(2)) { __sa_check("C23", h2.is_valid(&a.cb), "copying or destroying other iterators invalidates an iterator"); __sa_end(); }
    held(a, th, h, true, &h2, &g, &g2); }
template <class H> void op_held_two() { HELD(); B_(H, b); int k = __sa_choice(3);
    { typename H::CB::iterator x = a.it(j), y = b.cb.begin(); typename H::CB::const_iterator z = x; if (k == 0) x = y; else if (k == 1) y = x; else { z = y; x = b.cb.end(); y = h; }
      __sa_check("C23", x.is_valid(k == 1 ? &a.cb : &b.cb), "an iterator assigned from another container's iterator is rejected"); }
    { typename H::CB::iterator w = a.it(j); __sa_check("C23", w.is_valid(&a.cb) && h.is_valid(&a.cb) && h2.is_valid(&a.cb), "an iterator is lost when others are assigned"); }
    { typename H::CB::iterator w = b.cb.end(); __sa_check("C23", w.is_valid(&b.cb), "an iterator is lost when others are assigned"); }
    if (S > 0) a.cb.pop_back(); h = a.cb.end(); h2 = h;
    __sa_end(); }
// iterators that outlive the container, and an iterator of a destroyed container that is reassigned
template <class H> void op_held_outlive() { typedef typename H::CB CB; typename CB::iterator h, g; alignas(H) char mem[sizeof(H)]; alignas(H) char mem2[sizeof(H)];
    H* a = new (mem) H("C", "F", "S", T_A, 1); ul j = __sa_sym("j", 0, a->S); h = a->it(j); g = a->cb.end(); int k = __sa_choice(2);
    a->cb.~CB();
    __sa_check("C23", h.m_registry == 0 && g.m_registry == 0, "an iterator of a destroyed container is still linked to it");
    if (k) { H* b = new (mem2) H("D", "G", "R", T_B, 2); h = b->cb.begin(); __sa_check("C23", h.is_valid(&b->cb), "an iterator assigned again is rejected"); }
    __sa_end(); }
// iterators without a container or invalidated ones assigned to registered iterators, and the reverse
template <class H> void op_held_singular() { typedef typename H::CB CB; HELD(); int k = __sa_choice(8); typename CB::iterator s, g = a.it(j); typename CB::const_iterator cs, cg = g;
    if (k & 1) { s = g; s = typename CB::iterator(); }
    RUN(switch (k >> 1) { case 0: g = s; cg = cs; break; case 1: g = typename CB::iterator(); cg = g; break; case 2: { typename CB::iterator x(s), y; y = x; g = y; cg = y; break; } default: s = g; g = g; cs = s; g = typename CB::iterator(); cg = cs; cg = typename CB::const_iterator(); });
    int q = __sa_choice(3);
    if (q == 0) { registry(a.cb, &h, &h2, k >> 1 == 3 ? (const void*)&s : 0, k >> 1 == 3 ? (const void*)&cs : 0); }
    else if (q == 1) { __sa_check("C23", !g.is_valid(&a.cb) && !cg.is_valid(&a.cb), "an iterator assigned from a singular iterator is still accepted"); __sa_check("C23", g.m_registry == 0 && cg.m_registry == 0, "an iterator assigned from a singular iterator is linked to a container"); }
    else { __sa_check("C23", h.is_valid(&a.cb) && h2.is_valid(&a.cb), "an iterator is lost when others are assigned"); g = h; __sa_check("C23", g.is_valid(&a.cb), "an iterator assigned again is rejected"); registry(a.cb, &h, &h2, &g, k >> 1 == 3 ? (const void*)&s : 0, k >> 1 == 3 ? (const void*)&cs : 0); }
    __sa_end(); }
// an invalidated iterator is copied and assigned over valid ones
template <class H> void op_held_invalid() { typedef typename H::CB CB; HELD(); __sa_assume(S > 0); typename CB::iterator g = a.it(S - 1), v = a.cb.end(); int k = __sa_choice(4);
    a.cb.pop_back();
    __sa_check("C23", !g.is_valid(&a.cb), "an iterator to a removed element is still accepted");
    RUN(switch (k) { case 0: v = g; break; case 1: { typename CB::iterator x(g); v = x; break; } case 2: g = a.cb.end(); v = g; break; default: { typename CB::iterator x = v; x = g; v = x; } });
    if (k != 2) { __sa_check("C23", !v.is_valid(&a.cb) && !g.is_valid(&a.cb), "an iterator assigned from an invalidated iterator is accepted"); registry(a.cb, &h, &h2); }
    else { __sa_check("C23", v.is_valid(&a.cb) && g.is_valid(&a.cb), "an iterator assigned again is rejected"); registry(a.cb, &h, &h2, &g, &v); }
    __sa_end(); }
}
