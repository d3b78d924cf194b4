// Access, iterators, const operations, comparison, swap, aliasing arguments, impossible sizes
#pragma once
#include "ops2.hpp"
extern "C" long* __sa_ghost();
namespace sa {
#define WIDE(nm, lo) (__sa_choice(2) ? __sa_sym(nm, lo, ~0ul >> 1) : __sa_sym(nm, 1ul << 63, ~0ul))
#define NOLOOP(msg) __sa_check("C16", __sa_flag(EV_LOOP) == 0, msg)
#define UNTHROWN(what) if (th) { __sa_check("C06", false, what); __sa_end(); }
#define QUIET() __sa_check("C15", __sa_flag(EV_CCTOR | EV_MCTOR | EV_CASG | EV_MASG | EV_DEFCTOR | EV_DTOR | EV_ALLOC | EV_DEALLOC) == 0, "a query touches elements or memory")
// ------------------------------------------------------------------ element access
template <class H> void op_access() { typedef typename H::CB CB; typedef typename H::value T;
    A_(H, a); __sa_assume(a.S > 0); ul i = __sa_sym("i", 0, a.S - 1); const CB& c = a.cb;
    const T *p = 0, *q = 0; int k = __sa_choice(17); ul at = i; ul j = 0; if (k > 13) j = __sa_sym("j", 0, a.S); long d = (long)i - (long)j;
    RUN(switch (k) {
        case 0: p = &a.cb[i]; q = &c[i]; break;
        case 1: p = &a.cb.at(i); q = &c.at(i); break;
        case 2: p = &a.cb.front(); q = &c.front(); at = 0; break;
        case 3: p = &a.cb.back(); q = &c.back(); at = a.S - 1; break;
        case 4: p = &*(a.cb.begin() + i); q = &*(c.begin() + i); break;
        case 5: p = &a.cb.begin()[i]; q = &c.begin()[i]; break;
        case 6: p = &*(a.cb.end() - (a.S - i)); q = &*(c.end() - (a.S - i)); break;
        case 7: p = &*(a.cb.rbegin() + (a.S - 1 - i)); q = &*(c.rbegin() + (a.S - 1 - i)); break;
        case 8: p = &*(a.cb.rend() - (i + 1)); q = &*(c.rend() - (i + 1)); break;
        case 9: p = &*a.it(i); q = &*a.cit(i); break;
        case 10: p = a.it(i).operator->(); q = a.cit(i).operator->(); break;
        case 11: p = &*a.cb.begin(); q = &*c.begin(); at = 0; break;
        case 12: p = &*--a.cb.end(); q = &*--c.end(); at = a.S - 1; break;
        case 13: p = &*a.cb.rbegin(); q = &*c.rbegin(); at = a.S - 1; break;
        case 14: p = &a.it(j)[d]; q = &a.cit(j)[d]; break;
        case 15: p = &(*(d + a.it(j))); q = &(*(d + a.cit(j))); break;
        default: p = &typename CB::reverse_iterator(a.it(j))[-1 - d]; q = &typename CB::const_reverse_iterator(a.cit(j))[-1 - d]; });
    UNTHROWN("element access throws");
    if (__sa_choice(2)) { __sa_check("C13", p == a.slot(at), "an access path designates the wrong element"); __sa_check("C13", __sa_status(p) == 1, "an access path designates storage without an element"); }
    else { __sa_check("C13", q == a.slot(at), "a const access path designates the wrong element"); NOLOOP("element access contains a loop that depends on the size"); QUIET(); }
    __sa_end(); }
template <class H> void op_at_range() { typedef typename H::CB CB;
    A_(H, a); ul i = WIDE("!i", a.S); const CB& c = a.cb; int k = __sa_choice(2);
    RUN(if (k) a.cb.at(i); else c.at(i));
    __sa_check("C13", th, "at() accepts a position outside the sequence");
    __sa_check("C13", __sa_exc() == 4, "at() reports a wrong position with another exception than std::out_of_range"); QUIET();
    __sa_check("C13", a.cb.m_size == a.S, "at() changes the container");
    __sa_end(); }
template <class H> void op_sizes() { typedef typename H::CB CB; A_(H, a); const CB& c = a.cb;
    freeze(a, 1); ul s = 0, cap = 0, res = 0, mx = 0; bool e = false, f = false; int id = 0;
    RUN(s = c.size(); cap = c.capacity(); res = c.reserve(); e = c.empty(); f = c.full(); mx = c.max_size(); id = c.get_allocator().id);
    freeze(a, 0);
    UNTHROWN("a size query throws");
    int k = __sa_choice(2);
    if (k) { __sa_check("C13", s == a.S, "size() is wrong"); __sa_check("C13", cap == a.C, "capacity() is wrong"); __sa_check("C13", res == a.C - a.S, "reserve() is wrong");
        if constexpr (H::so) { __sa_check("C17", c.capacity().min_capacity() == a.M, "capacity() reports the wrong minimum"); }
    } else { __sa_check("C13", e == (a.S == 0), "empty() is wrong"); __sa_check("C13", f == (a.S == a.C), "full() is wrong"); __sa_check("C26", mx <= (1ul << 63) - 1, "max_size() exceeds the difference type"); __sa_check("C26", mx >= a.C || a.C > (~0ul) / sizeof(typename H::value), "max_size() is below a possible capacity"); __sa_check("C22", id == 1, "get_allocator() returns another allocator"); NOLOOP("a query contains a loop"); QUIET(); if constexpr (requires_limit<typename H::A>::value) __sa_check("C26", mx == a.cb.alloc().lim, "max_size() ignores the limit of the allocator"); }
    __sa_end(); }
// all const operations together: nothing is written
template <class H> void op_const() { typedef typename H::CB CB; typedef typename H::value T; A_(H, a); const CB& c = a.cb; ul i = __sa_sym("i", 0, a.S);
    int k = __sa_choice(8); freeze(a, 1);
    RUN(switch (k) {
        case 0: { auto x = c.begin(); auto y = c.end(); auto n = y - x; (void)n; if (i < a.S) { auto z = x + i; const T* p = &*z; (void)p; ++z; --z; z++; z--; } break; }
        case 1: { auto x = c.rbegin(); auto y = c.rend(); (void)(y - x); if (i < a.S) (void)&x[i]; break; }
        case 2: { if (i < a.S) { (void)&c[i]; (void)&c.at(i); (void)&c.front(); (void)&c.back(); } break; }
        case 3: { (void)c.array_one(); (void)c.array_two(); (void)c.is_linearized(); break; }
        case 4: { (void)c.get_allocator(); (void)c.size(); (void)c.empty(); (void)c.full(); (void)c.reserve(); (void)c.capacity(); (void)c.max_size(); break; }
        case 5: { typename CB::const_iterator x = a.cit(i), y = c.begin(); bool b = x == y || x < y || x > y || x <= y || x >= y || x != y; (void)b; break; }
        case 6: { typename CB::const_iterator x = a.cit(i); x += (long)(a.S - i); x -= (long)i; x = c.end(); break; }
        default: { typename CB::iterator x = a.it(i); typename CB::const_iterator y = x; (void)(y == x); typename CB::iterator z = a.cb.end(); (void)(z - x); (void)a.cb.begin(); (void)a.cb.rbegin(); (void)a.cb.rend(); break; }
    });
    freeze(a, 0);
    UNTHROWN("a const operation throws"); QUIET(); NOLOOP("a const operation contains a loop");
    __sa_end(); }
// ------------------------------------------------------------------ iterators
template <class I> bool same(const I& x, const I& y) { return x.m_it == y.m_it && x.m_buff == y.m_buff; }
template <class H> void op_iter_arith() { typedef typename H::CB CB; typedef typename CB::iterator I; typedef typename CB::const_iterator CI;
    A_(H, a); ul i = __sa_sym("i", 0, a.S), j = __sa_sym("j", 0, a.S); long d = (long)j - (long)i; const CB& c = a.cb;
    int k = __sa_choice(16); I r; CI cr; long n = 0; bool isI = false, isC = false, isN = false;
    RUN(switch (k) {
        case 0: r = a.it(i) + d; isI = true; break;
        case 1: r = a.it(i); r += d; isI = true; break;
        case 2: r = a.it(i) - (-d); isI = true; break;
        case 3: r = a.it(i); r -= -d; isI = true; break;
        case 4: n = a.it(j) - a.it(i); isN = true; break;
        case 5: n = a.it(j) - a.cit(i); isN = true; break;
        case 6: n = a.cit(j) - a.it(i); isN = true; break;
        case 7: cr = a.cit(i) + d; isC = true; break;
        case 8: cr = a.cit(i); cr -= -d; isC = true; break;
        case 9: r = d + a.it(i); isI = true; break;
        case 10: r = a.cb.begin() + (long)j; isI = true; break;
        case 11: cr = c.end() - (long)(a.S - j); isC = true; break;
        case 12: cr = a.it(j); isC = true; break;
        case 13: n = c.end() - c.begin(); n = n - (long)a.S + d; isN = true; break;
        case 14: n = a.cb.begin() - a.cb.begin() + d; isN = true; break;
        default: r = a.it(i); r = a.it(j); isI = true; });
    UNTHROWN("iterator arithmetic throws");
    if (isN) __sa_check("C14", n == d, "the distance of two iterators is wrong");
    if (isI) __sa_check("C14", same(r, a.it(j)), "iterator arithmetic yields the wrong position");
    if (isC) __sa_check("C14", same(cr, a.cit(j)), "const iterator arithmetic yields the wrong position");
    NOLOOP("iterator arithmetic contains a loop"); QUIET();
    __sa_end(); }
template <class H> void op_iter_step() { typedef typename H::CB CB; typedef typename CB::iterator I; typedef typename CB::const_iterator CI;
    A_(H, a); ul i = __sa_sym("i", 0, a.S); int k = __sa_choice(8); I r, o; CI cr, co; ul to = 0, ret = 0;
    if (k & 1) __sa_assume(i > 0); else __sa_assume(i < a.S);
    r = a.it(i); cr = a.cit(i); to = ret = (k & 1) ? i - 1 : i + 1; o = a.it(ret); co = a.cit(ret);
    RUN(switch (k) {
        case 0: o = ++r; cr = r; break;
        case 1: o = --r; cr = r; break;
        case 2: o = r++; ret = i; cr = r; break;
        case 3: o = r--; ret = i; cr = r; break;
        case 4: co = ++cr; r = a.it(to); break;
        case 5: co = --cr; r = a.it(to); break;
        case 6: co = cr++; ret = i; r = a.it(to); break;
        default: co = cr--; ret = i; r = a.it(to); });
    UNTHROWN("stepping an iterator throws");
    __sa_check("C14", same(r, a.it(to)) && same(cr, a.cit(to)), "stepping an iterator reaches the wrong position");
    if (k < 4) __sa_check("C14", same(o, a.it(ret)), "stepping an iterator returns the wrong position"); else __sa_check("C14", same(co, a.cit(ret)), "stepping a const iterator returns the wrong position");
    NOLOOP("stepping contains a loop");
    __sa_end(); }
template <class H> void op_iter_cmp() { typedef typename H::CB CB;
    A_(H, a); ul i = __sa_sym("i", 0, a.S), j = __sa_sym("j", 0, a.S); int k = __sa_choice(6), m = __sa_choice(4); bool r = false, e = false;
#define SA_CMP(op) r = m == 0 ? a.it(i) op a.it(j) : m == 1 ? a.cit(i) op a.it(j) : m == 2 ? a.it(i) op a.cit(j) : a.cit(i) op a.cit(j); e = i op j; break
    RUN(switch (k) { case 0: SA_CMP(==); case 1: SA_CMP(!=); case 2: SA_CMP(<); case 3: SA_CMP(<=); case 4: SA_CMP(>); default: SA_CMP(>=); });
    UNTHROWN("comparing iterators throws");
    __sa_check("C14", r == e, "a comparison of iterators disagrees with their positions");
    NOLOOP("comparing iterators contains a loop"); QUIET();
    __sa_end(); }
// begin()/end() themselves
template <class H> void op_iter_ends() { typedef typename H::CB CB; A_(H, a); const CB& c = a.cb; int k = __sa_choice(2);
    if (k) { __sa_check("C14", same(a.cb.begin(), a.it(0)) && same(c.begin(), a.cit(0)), "begin() is wrong"); __sa_check("C14", same(a.cb.end(), a.it(a.S)) && same(c.end(), a.cit(a.S)), "end() is wrong"); }
    else { __sa_check("C14", (a.cb.begin() == a.cb.end()) == (a.S == 0), "begin() == end() does not mean empty"); __sa_check("C14", (c.rbegin() == c.rend()) == (a.S == 0), "rbegin() == rend() does not mean empty"); __sa_check("C14", c.rend() - c.rbegin() == (long)a.S, "the reverse range has the wrong length"); }
    __sa_end(); }
// ------------------------------------------------------------------ comparison
// the sequences first differ at position g[0]; there, the first container's element is less iff g[1]
struct Rl { long v;
    Rl() { __sa_elem_op(0, this, 0); } Rl(const Rl& o) { __sa_elem_op(1, this, &o); } Rl& operator=(const Rl& o) { __sa_elem_op(3, this, &o); return *this; } ~Rl() { __sa_elem_op_nt(5, this, 0); } };
inline bool pairck(const Rl& x, const Rl& y) {
    __sa_check("C25", __sa_status(&x) == 1 && __sa_status(&y) == 1, "a comparison reads storage that holds no element");
    __sa_check("C25", (__sa_tag(&x) == T_A && __sa_tag(&y) == T_B) || (__sa_tag(&x) == T_B && __sa_tag(&y) == T_A), "a comparison compares elements of one container");
    __sa_check("C25", __sa_idx(&x) == __sa_idx(&y), "a comparison compares elements at different positions"); __sa_maythrow(1); return true; }
inline bool operator==(const Rl& x, const Rl& y) { pairck(x, y); long* g = __sa_ghost(); long i = __sa_idx(&x); if (i < g[0]) return true; if (i == g[0]) return false; return __sa_anybool(); }
inline bool operator<(const Rl& x, const Rl& y) { pairck(x, y); long* g = __sa_ghost(); long i = __sa_idx(&x); if (i < g[0]) return false; if (i == g[0]) return (__sa_tag(&x) == T_A) == (g[1] != 0); return __sa_anybool(); }
template <class H> void op_compare() { A_(H, a); B_(H, b); ul m = a.S < b.S ? a.S : b.S; const typename H::CB &x = a.cb, &y = b.cb;
    ul d = __sa_sym("d", 0, m); int rel = __sa_choice(2); long* g = __sa_ghost(); g[0] = d; g[1] = rel;
    bool eq = a.S == b.S && d == m, lt = d < m ? rel != 0 : a.S < b.S, gt = d < m ? rel == 0 : b.S < a.S, r = false, e = false; int k = __sa_choice(6);
    freeze(a, 1); freeze(b, 1);
    RUN(switch (k) { case 0: r = x == y; e = eq; break; case 1: r = x != y; e = !eq; break; case 2: r = x < y; e = lt; break; case 3: r = x > y; e = gt; break; case 4: r = x <= y; e = !gt; break; default: r = x >= y; e = !lt; });
    freeze(a, 0); freeze(b, 0);
    if (!th) __sa_check("C25", r == e, "a comparison operator gives the wrong result"); else __sa_check("C25", __sa_exc() == 1, "a comparison throws by itself");
    QUIET();
    __sa_end(); }
// ------------------------------------------------------------------ swap
template <class H> void op_swap() { A_(H, a); BA_(H, b); int k = __sa_choice(2);
    RUN(if (k) a.cb.swap(b.cb); else swap(a.cb, b.cb));
    UNTHROWN("swap throws");
    int q = __sa_choice(5);
    if (q == 0) { repr("C01", a.cb); repr("C01", b.cb); untouched("C25"); NOLOOP("swap contains a loop"); __sa_leakcheck("C04", a.cb.m_buff, b.cb.m_buff, 0); }
    else if (q == 1) { __sa_check("C25", a.cb.m_buff == b.B && a.cb.m_size == b.S && logcap(a.cb) == b.C, "swap does not exchange storage, size and capacity"); __sa_check("C25", b.cb.m_buff == a.B && b.cb.m_size == a.S && logcap(b.cb) == a.C, "swap does not exchange storage, size and capacity");
        if constexpr (H::so) __sa_check("C25", a.cb.m_capacity_ctrl.m_min_capacity == b.M && b.cb.m_capacity_ctrl.m_min_capacity == a.M, "swap does not exchange the minimum capacities"); }
    else if (q == 2) { content("C25", a.cb, [](ul i) { return ex(T_B, i); }); }
    else if (q == 3) { content("C25", b.cb, [](ul i) { return ex(T_A, i); }); }
    else { __sa_check("C22", a.cb.alloc().id == bid && b.cb.alloc().id == 1, "swap does not exchange the allocators"); }
    __sa_end(); }
template <class H> void op_swap_self() { A_(H, a);
    RUN(a.cb.swap(a.cb));
    finish(a, th, "C25", NOTHROW | FIXED | CONSTT, a.S, a.C, [&](ul i) { return ex(T_A, i); }, [&]() { untouched("C25"); }); }
// ------------------------------------------------------------------ impossible sizes
template <class H> void rejected(H& a, bool th, bool resized = false) {
    __sa_check("C26", th, "a capacity above max_size() is accepted");
    __sa_check("C26", __sa_exc() == 3, "an impossible capacity is not reported as std::length_error");
    __sa_check("C26", __sa_flag(EV_ALLOC | EV_DEALLOC | EV_COPYOLD | EV_MOVEDOLD | EV_CASG | EV_MASG) == 0, "memory or elements are touched before an impossible capacity is rejected");
    __sa_check("C26", a.cb.m_buff == a.B && a.cb.m_size == a.S && ((H::so && resized) || a.logcap() == a.C) && (a.B == 0 || a.cb.m_first == a.B + a.F), "a rejected capacity changes the container");
    __sa_end(); }
template <class H> void op_huge_set_capacity() { typedef typename H::CB CB; A_(H, a); ul K = WIDE("!K", 0); __sa_assume(K > a.cb.max_size()); int k = __sa_choice(2);
    RUN(if (k) a.cb.set_capacity(mkcap<CB>(K, K)); else a.cb.rset_capacity(mkcap<CB>(K, K))); rejected(a, th); }
template <class H> void op_huge_resize() { typedef typename H::CB CB; A_(H, a); ul K = WIDE("!K", 0); __sa_assume(K > a.cb.max_size()); int k = __sa_choice(2); const typename H::value& x = item<typename H::value>();
    RUNM(2, if (k) a.cb.resize(K, x); else a.cb.rresize(K, x)); rejected(a, th, true); }
template <class H> void op_huge_assign() { typedef typename H::CB CB; A_(H, a); ul K = WIDE("!K", 0), n = __sa_sym("n", 0, MAXC); __sa_assume(n <= K); __sa_assume(K > a.cb.max_size()); int k = __sa_choice(3); const typename H::value& x = item<typename H::value>(); Rng<typename H::value, 0> r;
    RUN(if (k == 0) a.cb.assign(K, x); else if (k == 1) a.cb.assign(mkcap<CB>(K, K), n, x); else a.cb.assign(mkcap<CB>(K, K), r.b(), r.e())); rejected(a, th); }
template <class H> void op_huge_ctor() { typedef typename H::CB CB; typedef typename H::value T; Mem<CB> m; typename H::A al(1); ul K = WIDE("!K", 0), n = __sa_sym("n", 0, MAXC); __sa_assume(n <= K); Mem<CB> m2; { CB t(al); __sa_assume(K > t.max_size()); }
    int k = __sa_choice(4); const T& x = item<T>(); Rng<T, 0> r;
    RUN(if (k == 0) new (m.p()) CB(mkcap<CB>(K, K), al); else if (k == 1) { if constexpr (H::so) new (m.p()) CB(mkcap<CB>(K, K), x, al); else new (m.p()) CB(K, x, al); } else if (k == 2) new (m.p()) CB(mkcap<CB>(K, K), n, x, al); else new (m.p()) CB(mkcap<CB>(K, K), r.b(), r.e(), al));
    __sa_check("C26", th, "a capacity above max_size() is accepted"); __sa_check("C26", __sa_exc() == 3, "an impossible capacity is not reported as std::length_error");
    __sa_check("C26", __sa_flag(EV_ALLOC | EV_DEALLOC | EV_CCTOR | EV_DTOR) == 0, "memory or elements are touched before an impossible capacity is rejected");
    __sa_end(); }
// every capacity within the limit of the allocator is accepted
template <class H> void op_within() { typedef typename H::CB CB; typedef typename H::value T; A_(H, a); CAPS2; __sa_assume(K <= a.cb.max_size()); int k = __sa_choice(6); const T& x = item<T>(); ul n = __sa_sym("n", 0, MAXC); __sa_assume(n <= K);
    RUN(switch (k) { case 0: a.cb.set_capacity(mkcap<CB>(K, M)); break; case 1: a.cb.rset_capacity(mkcap<CB>(K, M)); break; case 2: a.cb.resize(K, x); break; case 3: a.cb.rresize(K, x); break; case 4: a.cb.assign(mkcap<CB>(K, M), n, x); break; default: a.cb.assign(K, x); });
    if (th) __sa_check("C26", __sa_exc() != 3, "a capacity the allocator can provide is rejected");
    __sa_end(); }
// any count: only as many as fit are inserted
template <class H> void op_huge_insert() { typedef typename H::value T; A_(H, a); const T& x = item<T>(); ul p = __sa_sym("p", 0, a.S), n = WIDE("!n", a.C + 1);
    RUN(a.cb.insert(a.it(p), n, x));
    finish(a, th, "C08", COPYOK | FIXED, a.C, a.C, [&](ul i) { ul q = a.S - p; return i < a.C - q ? ex(T_ITEM, 0) : ex(T_A, p + (i - (a.C - q))); }, None()); }
template <class H> void op_huge_rinsert() { typedef typename H::value T; A_(H, a); const T& x = item<T>(); ul p = __sa_sym("p", 0, a.S), n = WIDE("!n", a.C + 1);
    RUN(a.cb.rinsert(a.it(p), n, x));
    finish(a, th, "C08", COPYOK | FIXED, a.C, a.C, [&](ul i) { return i < p ? ex(T_A, i) : ex(T_ITEM, 0); }, None()); }
// ------------------------------------------------------------------ arguments inside the container
// KN selects the calls listed in known_findings.txt (they fail on the current tree); everything else is in the other entry
#define ALIAS() A_(H, a); __sa_assume(a.S > 0); ul i = __sa_sym("i", 0, a.S - 1); const typename H::value& x = *a.slot(i)
template <class H> bool grows(H& a, ul n) { if constexpr (H::so) { ul r = a.C - a.S; if (r < n) n = r; return a.S + n > a.I; } else return false; }   // storage is replaced before the argument is read
template <class H> bool shifted(H& a, ul p, ul n, ul i) { return i >= p || (a.S + n > a.C && i < a.S + n - a.C && p > 0 && p < a.S); }   // insert overwrites the argument's slot before the last copy
template <class H> bool rshifted(H& a, ul p, ul n, ul i) { return i < p || (a.S + n > a.C && a.S - 1 - i < a.S + n - a.C && p > 0 && p < a.S); }
template <class H> ul intcap(H& a) { if constexpr (H::so) return a.I; else return a.C; }
inline Exp fixalias(Exp e, ul i) { return e.tag == T_ITEM ? ex(T_A, i) : e; }
#define ONLY(cond) __sa_assume((cond) == KN)
template <class H, bool KN> void op_alias_push_back() { ALIAS(); ONLY(grows(a, 1)); RUN(a.cb.push_back(x)); bool f = a.full(); ul S = a.S;
    finish<H, 1>(a, th, "C21", FIXED, f ? S : S + 1, a.C, [&](ul k) { ul j = f ? k + 1 : k; return ex(T_A, j < S ? j : i); }, None()); }
template <class H, bool KN> void op_alias_push_front() { ALIAS(); ONLY(grows(a, 1)); RUN(a.cb.push_front(x)); bool f = a.full(); ul S = a.S;
    finish<H, 1>(a, th, "C21", FIXED, f ? S : S + 1, a.C, [&](ul k) { return ex(T_A, k == 0 ? i : k - 1); }, None()); }
template <class H, bool KN> void op_alias_insert() { ALIAS(); ul p = __sa_sym("p", 0, a.S); ONLY(grows(a, 1) || shifted(a, p, 1, i)); RUN(a.cb.insert(a.it(p), x)); Ins e = { a.S, a.C, p, 1, T_ITEM, false, true };
    finish<H, 1>(a, th, "C21", FIXED, e.size(), a.C, [&](ul k) { return fixalias(e.at(k), i); }, None()); }
template <class H, bool KN> void op_alias_rinsert() { ALIAS(); ul p = __sa_sym("p", 0, a.S); ONLY(grows(a, 1) || rshifted(a, p, 1, i)); RUN(a.cb.rinsert(a.it(p), x)); Ins e = { a.S, a.C, p, 1, T_ITEM, true, true };
    finish<H, 1>(a, th, "C21", FIXED, e.size(), a.C, [&](ul k) { return fixalias(e.at(k), i); }, None()); }
template <class H, bool KN> void op_alias_insert_n() { ALIAS(); ul p = __sa_sym("p", 0, a.S), n = __sa_sym("n", 0, MAXC); ONLY(grows(a, n) || shifted(a, p, n, i)); RUN(a.cb.insert(a.it(p), n, x)); Ins e = { a.S, a.C, p, n, T_ITEM, false, true };
    finish<H, 1>(a, th, "C21", FIXED, e.size(), a.C, [&](ul k) { return fixalias(e.at(k), i); }, None()); }
template <class H, bool KN> void op_alias_rinsert_n() { ALIAS(); ul p = __sa_sym("p", 0, a.S), n = __sa_sym("n", 0, MAXC); ONLY(grows(a, n) || rshifted(a, p, n, i)); RUN(a.cb.rinsert(a.it(p), n, x)); Ins e = { a.S, a.C, p, n, T_ITEM, true, true };
    finish<H, 1>(a, th, "C21", FIXED, e.size(), a.C, [&](ul k) { return fixalias(e.at(k), i); }, None()); }
template <class H, bool KN> void op_alias_resize() { ALIAS(); ul n = __sa_sym("n", 0, MAXC), S = a.S, C = a.C; ONLY(H::so && n > a.S && n > intcap(a)); RUN(a.cb.resize(n, x));
    finish<H, 1>(a, th, "C21", !H::so && n <= C ? FIXED : 0, n, n > C ? n : C, [&](ul k) { return ex(T_A, k < S ? k : i); }, None()); }
template <class H, bool KN> void op_alias_rresize() { ALIAS(); ul n = __sa_sym("n", 0, MAXC), S = a.S, C = a.C; ONLY(H::so && n > a.S && n > intcap(a)); RUN(a.cb.rresize(n, x));
    finish<H, 1>(a, th, "C21", !H::so && n <= C ? FIXED : 0, n, n > C ? n : C, [&](ul k) { return n <= S ? ex(T_A, k + (S - n)) : k < n - S ? ex(T_A, i) : ex(T_A, k - (n - S)); }, None()); }
}
