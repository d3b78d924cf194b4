// Construction, assignment, capacity changes, views, access, iterators, comparison, swap
#pragma once
#include "ops.hpp"
namespace sa {
// ------------------------------------------------------------------ construction
template <class CB> struct Mem { alignas(CB) char m[sizeof(CB)]; CB& cb() { return *reinterpret_cast<CB*>(m); } void* p() { return m; } };
template <class CB> ul logcap(const CB& cb) { if constexpr (requires_so<CB>::value) return cb.m_capacity_ctrl.m_capacity; else return cb.m_end - cb.m_buff; }
enum { NOALLOC = 128 };
template <class CB, class Fn> void made(CB& cb, bool th, const char* pt, int fl, ul size, ul cap, ul mincap, Fn f, const void* other = 0, int id = 1) {
    if (th) {
        if (fl & NOTHROW) __sa_check("C06", false, "an operation that must not throw lets an exception escape");
        __sa_leakcheck("C02", other, 0, 0);
    } else {
        int k = __sa_choice(3);
        if (k == 0) {
            repr("C01", cb); allocid("C04", cb, -1); __sa_check("C22", cb.alloc().id == id, "the container uses an allocator it was not given");
            __sa_check(pt, cb.m_size == size, "wrong size of a new container");
            __sa_check(pt, logcap(cb) == cap, "wrong capacity of a new container");
            if constexpr (requires_so<CB>::value) {
                ul I = cb.m_end - cb.m_buff;
                __sa_check("C17", cb.m_capacity_ctrl.m_min_capacity == mincap, "wrong minimum capacity");
                __sa_check("C17", I <= cap && cb.m_size <= cap, "the internal capacity or size exceeds the capacity");
            }
            if (fl & NOALLOC) __sa_check("C05", __sa_flag(EV_ALLOC | EV_DEALLOC) == 0, "memory is obtained or released without need");
            __sa_leakcheck("C04", cb.m_buff, other, 0);
        } else if (k == 1) alive("C01", cb);
        else content(pt, cb, f);
    }
    __sa_end();
}
inline Exp none(ul) { return ex(T_UNK, 0); }
template <class H> void op_ctor_def() { typedef typename H::CB CB; Mem<CB> m; typename H::A al(1);
    RUN(new (m.p()) CB(al)); made(m.cb(), th, H::p("C10"), NOTHROW | NOALLOC, 0, 0, 0, none); }
template <class CB> typename CB::capacity_type mkcap(ul K, ul M) { if constexpr (requires_so<CB>::value) return typename CB::capacity_type(K, M); else return K; }
#define CAPS ul K = __sa_sym("K", 0, MAXC), M = 0; if constexpr (H::so) M = __sa_sym("M", 0, K)
template <class H> void op_ctor_cap() { typedef typename H::CB CB; Mem<CB> m; typename H::A al(1); CAPS;
    RUN(new (m.p()) CB(mkcap<CB>(K, M), al)); made(m.cb(), th, H::p("C10"), 0, 0, K, M, none); }
template <class H> void op_ctor_n() { typedef typename H::CB CB; typedef typename H::value T; Mem<CB> m; typename H::A al(1); ul n = __sa_sym("n", 0, MAXC); const T& x = item<T>();
    if constexpr (H::so) { CAPS; RUN(new (m.p()) CB(mkcap<CB>(K, M), x, al)); made(m.cb(), th, "C18", 0, K, K, M, [&](ul) { return ex(T_ITEM, 0); }); }
    else { RUN(new (m.p()) CB(n, x, al)); made(m.cb(), th, "C10", 0, n, n, 0, [&](ul) { return ex(T_ITEM, 0); }); } }
template <class H> void op_ctor_cap_n() { typedef typename H::CB CB; typedef typename H::value T; Mem<CB> m; typename H::A al(1); CAPS; ul n = __sa_sym("n", 0, MAXC); __sa_assume(n <= K); const T& x = item<T>();
    RUN(new (m.p()) CB(mkcap<CB>(K, M), n, x, al)); made(m.cb(), th, H::p("C10"), 0, n, K, M, [&](ul) { return ex(T_ITEM, 0); }); }
template <class H, int R> void op_ctor_r() { typedef typename H::CB CB; typedef typename H::value T; Mem<CB> m; typename H::A al(1); Rng<T, R> r; ul n = r.n;
    RUN(new (m.p()) CB(r.b(), r.e(), al)); if (!th) __sa_check("C20", r.done(), "the input range is not consumed to its end");
    made(m.cb(), th, H::p("C10"), 0, n, n, 0, [&](ul i) { return ex(T_EXT, i); }); }
template <class H, int R> void op_ctor_cap_r() { typedef typename H::CB CB; typedef typename H::value T; Mem<CB> m; typename H::A al(1); CAPS; Rng<T, R> r; ul n = r.n;
    RUN(new (m.p()) CB(mkcap<CB>(K, M), r.b(), r.e(), al)); if (!th && K > 0) __sa_check("C20", r.done(), "the input range is not consumed to its end");
    made(m.cb(), th, H::p("C10"), 0, n < K ? n : K, K, M, [&](ul i) { return ex(T_EXT, n < K ? i : i + (n - K)); }); }
template <class H> ul mincap(H& a) { if constexpr (H::so) return a.M; else return 0; }
template <class H> void op_ctor_copy() { typedef typename H::CB CB; A_(H, a); Mem<CB> m; const CB& src = a.cb;
    freeze(a, 1);
    RUN(new (m.p()) CB(src));
    freeze(a, 0);
    made(m.cb(), th, H::p("C10"), 0, a.S, a.C, mincap(a), [&](ul i) { return ex(T_A, i); }, a.B); }
inline void untouched(const char* tag) { __sa_check(tag, __sa_flag(EV_CCTOR | EV_MCTOR | EV_CASG | EV_MASG | EV_DEFCTOR | EV_DTOR) == 0, "elements are touched although only the storage changes hands");
    __sa_check(tag, __sa_flag(EV_ALLOC | EV_DEALLOC) == 0, "memory is obtained or released although the storage changes hands"); }
// an emptied container: valid, empty, without storage
template <class CB> void emptied(const char* tag, const CB& cb) { repr("C01", cb); __sa_check(tag, cb.m_size == 0 && cb.m_buff == 0, "the moved-from container is not empty"); }
template <class H> void op_ctor_move() { typedef typename H::CB CB; A_(H, a); Mem<CB> m;
    RUN(new (m.p()) CB(std::move(a.cb)));
    if (!th && __sa_choice(2)) { emptied(H::p("C10"), a.cb); untouched("C06"); __sa_check("C16", __sa_flag(EV_LOOP) == 0, "move construction contains a loop that depends on the size"); __sa_check("C25", m.cb().m_buff == a.B, "the storage is not handed over"); __sa_end(); }
    made(m.cb(), th, H::p("C10"), NOTHROW | NOALLOC, a.S, a.C, mincap(a), [&](ul i) { return ex(T_A, i); }, 0); }
// ------------------------------------------------------------------ assignment
template <class H> void op_assign_copy() { typedef typename H::CB CB; A_(H, a); BA_(H, b); const CB& src = b.cb;
    freeze(b, 1);
    RUN(a.cb = src);
    freeze(b, 0);
    finish(a, th, "C10", COPYOK | NEWMIN | (H::so ? STRONG | NOMIN : STRONG), b.S, b.C, [&](ul i) { return ex(T_B, i); }, [&]() { allocid("C22", a.cb, -1); if constexpr (H::so) __sa_check("C17", a.cb.m_capacity_ctrl.m_min_capacity == b.M, "wrong minimum capacity"); }, b.B); }
template <class H> void op_assign_self() { typedef typename H::CB CB; A_(H, a); const CB& src = a.cb;
    RUN(a.cb = src);
    finish(a, th, "C10", NOTHROW | FIXED | CONSTT, a.S, a.C, [&](ul i) { return ex(T_A, i); }, [&]() { if (!H::so) inplace(a, [&](ul i) -> long { return i; }); }); }
template <class H> void op_assign_move() { A_(H, a); BA_(H, b);
    RUN(a.cb = std::move(b.cb));
    if (!th && __sa_choice(2)) { if (__sa_choice(2)) { emptied(H::p("C10"), b.cb); __sa_check("C06", __sa_flag(EV_CCTOR | EV_MCTOR | EV_CASG | EV_MASG | EV_DEFCTOR | EV_ALLOC) == 0, "move assignment copies or moves elements"); if (a.S == 0) __sa_check("C16", __sa_flag(EV_LOOP) == 0, "move assignment contains a loop that depends on the size"); }
        else { __sa_check("C25", a.cb.m_buff == b.B, "the storage is not handed over"); __sa_check("C22", a.cb.alloc().id == bid, "the storage is taken over without its allocator"); } __sa_end(); }
    finish(a, th, "C10", NEWMIN | NOTHROW | NOMIN, b.S, b.C, [&](ul i) { return ex(T_B, i); }, [&]() { if constexpr (H::so) __sa_check("C17", a.cb.m_capacity_ctrl.m_min_capacity == b.M, "wrong minimum capacity"); }); }
template <class H> void op_assign_n() { typedef typename H::value T; A_(H, a); ul n = __sa_sym("n", 0, MAXC); const T& x = item<T>();
    RUN(a.cb.assign(n, x));
    bool same = !H::so && n == a.C;
    finish(a, th, "C10", NEWMIN | (same ? FIXED : 0), n, n, [&](ul) { return ex(T_ITEM, 0); }, [&]() { if constexpr (H::so) __sa_check("C17", a.cb.m_capacity_ctrl.m_min_capacity == 0, "wrong minimum capacity"); }); }
template <class H> void op_assign_cap_n() { typedef typename H::value T; typedef typename H::CB CB; A_(H, a); CAPS2; ul n = __sa_sym("n", 0, MAXC); __sa_assume(n <= K); const T& x = item<T>();
    RUN(a.cb.assign(mkcap<CB>(K, M), n, x));
    bool same = !H::so && K == a.C;
    finish(a, th, "C10", NEWMIN | (same ? FIXED : 0), n, K, [&](ul) { return ex(T_ITEM, 0); }, [&]() { if constexpr (H::so) __sa_check("C17", a.cb.m_capacity_ctrl.m_min_capacity == M, "wrong minimum capacity"); }); }
template <class H, int R> void op_assign_r() { typedef typename H::value T; A_(H, a); Rng<T, R> r; ul n = r.n;
    RUN(a.cb.assign(r.b(), r.e())); if (!th) __sa_check("C20", r.done(), "the input range is not consumed to its end");
    bool same = !H::so && R != 2 && n == a.C;
    finish(a, th, "C10", NEWMIN | (same ? FIXED : 0), n, n, [&](ul i) { return ex(T_EXT, i); }, [&]() { if constexpr (H::so) __sa_check("C17", a.cb.m_capacity_ctrl.m_min_capacity == 0, "wrong minimum capacity"); }); }
template <class H, int R> void op_assign_cap_r() { typedef typename H::value T; typedef typename H::CB CB; A_(H, a); CAPS2; Rng<T, R> r; ul n = r.n;
    RUN(a.cb.assign(mkcap<CB>(K, M), r.b(), r.e())); if (!th && K > 0) __sa_check("C20", r.done(), "the input range is not consumed to its end");
    bool same = !H::so && K == a.C;
    finish(a, th, "C10", NEWMIN | (same ? FIXED : 0), n < K ? n : K, K, [&](ul i) { return ex(T_EXT, n < K ? i : i + (n - K)); }, [&]() { if constexpr (H::so) __sa_check("C17", a.cb.m_capacity_ctrl.m_min_capacity == M, "wrong minimum capacity"); }); }
// counts and items given as integers of the element type select the range overloads, which must treat them as count and item
template <class H> void op_ctor_nint() { typedef typename H::CB CB; typedef typename H::value T; Mem<CB> m; typename H::A al(1); ul n = __sa_sym("n", 0, MAXC); const T& x = item<T>();
    RUN(new (m.p()) CB((T)n, (T)x, al)); made(m.cb(), th, H::p("C10"), 0, n, n, 0, [&](ul) { return ex(T_ITEM, 0); }); }
template <class H> void op_ctor_cap_nint() { typedef typename H::CB CB; typedef typename H::value T; Mem<CB> m; typename H::A al(1); CAPS; ul n = __sa_sym("n", 0, MAXC); __sa_assume(n <= K); const T& x = item<T>();
    RUN(new (m.p()) CB(mkcap<CB>(K, M), (T)n, (T)x, al)); made(m.cb(), th, H::p("C10"), 0, n, K, M, [&](ul) { return ex(T_ITEM, 0); }); }
template <class H> void op_assign_nint() { typedef typename H::value T; A_(H, a); ul n = __sa_sym("n", 0, MAXC); const T& x = item<T>();
    RUN(a.cb.assign((T)n, (T)x));
    bool same = !H::so && n == a.C;
    finish(a, th, "C10", NEWMIN | (same ? FIXED : 0), n, n, [&](ul) { return ex(T_ITEM, 0); }, [&]() { if constexpr (H::so) __sa_check("C17", a.cb.m_capacity_ctrl.m_min_capacity == 0, "wrong minimum capacity"); }); }
template <class H> void op_assign_cap_nint() { typedef typename H::value T; typedef typename H::CB CB; A_(H, a); CAPS2; ul n = __sa_sym("n", 0, MAXC); __sa_assume(n <= K); const T& x = item<T>();
    RUN(a.cb.assign(mkcap<CB>(K, M), (T)n, (T)x));
    bool same = !H::so && K == a.C;
    finish(a, th, "C10", NEWMIN | (same ? FIXED : 0), n, K, [&](ul) { return ex(T_ITEM, 0); }, [&]() { if constexpr (H::so) __sa_check("C17", a.cb.m_capacity_ctrl.m_min_capacity == M, "wrong minimum capacity"); }); }
template <class H> void op_insert_nint() { typedef typename H::value T;
    A_(H, a); const T& x = item<T>(); ul p = __sa_sym("p", 0, a.S), n = __sa_sym("n", 0, MAXC);
    RUN(a.cb.insert(a.it(p), (T)n, (T)x));
    Ins e = { a.S, a.C, p, n, T_ITEM, false, true };
    finish(a, th, "C08", COPYOK | FIXED, e.size(), a.C, [&](ul i) { return e.at(i); }, None()); }
template <class H> void op_rinsert_nint() { typedef typename H::value T;
    A_(H, a); const T& x = item<T>(); ul p = __sa_sym("p", 0, a.S), n = __sa_sym("n", 0, MAXC);
    RUN(a.cb.rinsert(a.it(p), (T)n, (T)x));
    Ins e = { a.S, a.C, p, n, T_ITEM, true, true };
    finish(a, th, "C08", COPYOK | FIXED, e.size(), a.C, [&](ul i) { return e.at(i); }, None()); }
// ------------------------------------------------------------------ capacity and size
template <class H> void op_set_capacity() { typedef typename H::CB CB; A_(H, a); CAPS2; ul S = a.S, C = a.C;
    RUN(a.cb.set_capacity(mkcap<CB>(K, M)));
    finish(a, th, "C11", NEWMIN | STRONG | (!H::so && K == C ? FIXED | NOTHROW : 0), S < K ? S : K, K, [&](ul i) { return ex(T_A, i); },
        [&]() { if (!H::so && K == C && __sa_choice(2)) { inplace(a, [&](ul i) -> long { return i; }); untouched("C27"); return; } relocflags<H>(); if constexpr (H::so) { __sa_check("C17", a.cb.m_capacity_ctrl.m_min_capacity == M, "wrong minimum capacity"); __sa_check("C17", (ul)(a.cb.m_end - a.cb.m_buff) >= M, "the internal capacity is below the requested minimum"); } }); }
template <class H> void op_rset_capacity() { typedef typename H::CB CB; A_(H, a); CAPS2; ul S = a.S, C = a.C;
    RUN(a.cb.rset_capacity(mkcap<CB>(K, M)));
    finish(a, th, "C11", NEWMIN | STRONG | (!H::so && K == C ? FIXED | NOTHROW : 0), S < K ? S : K, K, [&](ul i) { return ex(T_A, S < K ? i : i + (S - K)); },
        [&]() { if (!H::so && K == C && __sa_choice(2)) { inplace(a, [&](ul i) -> long { return i; }); untouched("C27"); return; } relocflags<H>(); if constexpr (H::so) { __sa_check("C17", a.cb.m_capacity_ctrl.m_min_capacity == M, "wrong minimum capacity"); __sa_check("C17", (ul)(a.cb.m_end - a.cb.m_buff) >= M, "the internal capacity is below the requested minimum"); } }); }
template <class H> void op_resize() { typedef typename H::value T; A_(H, a); ul n = __sa_sym("n", 0, MAXC); const T& x = item<T>(); ul S = a.S, C = a.C;
    RUN(a.cb.resize(n, x));
    finish(a, th, "C11", !H::so && n <= C ? FIXED : 0, n, n > C ? n : C, [&](ul i) { return i < S ? ex(T_A, i) : ex(T_ITEM, 0); }, [&]() { if (!H::so && n <= C) inplace(a, [&](ul i) -> long { return i < S ? (long)i : -1; }); }); }
template <class H> void op_rresize() { typedef typename H::value T; A_(H, a); ul n = __sa_sym("n", 0, MAXC); const T& x = item<T>(); ul S = a.S, C = a.C;
    RUN(a.cb.rresize(n, x));
    finish(a, th, "C11", !H::so && n <= C ? FIXED : 0, n, n > C ? n : C, [&](ul i) { return n <= S ? ex(T_A, i + (S - n)) : i < n - S ? ex(T_ITEM, 0) : ex(T_A, i - (n - S)); }, [&]() { if (!H::so && n <= C) inplace(a, [&](ul i) -> long { return n <= S ? (long)(i + (S - n)) : i < n - S ? -1 : (long)(i - (n - S)); }); }); }
// ------------------------------------------------------------------ views, rotate, linearize
template <class H> void op_arrays() { typedef typename H::CB CB; A_(H, a); const CB& c = a.cb; ul S = a.S, I = a.cb.m_end - a.cb.m_buff;
    if (__sa_choice(2)) {
        auto x = a.cb.array_one(); auto y = a.cb.array_two(); auto u = c.array_one(); auto v = c.array_two(); bool l = c.is_linearized();
        __sa_check("C12", u.first == x.first && u.second == x.second && v.first == y.first && v.second == y.second, "const and non-const views differ");
        __sa_check("C12", x.second + y.second == S, "the two arrays do not cover the sequence");
        if (S > 0) { __sa_check("C12", x.first == a.slot(0), "the first array does not start at the first element"); __sa_check("C12", x.second <= (ul)(a.B + I - x.first), "the first array leaves the block");
            if (y.second > 0) __sa_check("C12", y.first == a.B && x.first + x.second == a.B + I, "the second array does not continue the first");
            __sa_check("C12", l == (y.second == 0), "is_linearized disagrees with the layout"); }
        __sa_check("C16", __sa_flag(EV_LOOP) == 0, "a constant time operation contains a loop that depends on size or capacity");
        __sa_check("C15", __sa_flag(EV_CCTOR | EV_MCTOR | EV_CASG | EV_MASG | EV_ALLOC | EV_DEALLOC) == 0, "a query touches elements or memory");
    }
    __sa_end(); }
template <class H> void op_linearize() { A_(H, a); typename H::CB::pointer r = 0; bool lin = a.F + a.S <= (ul)(a.cb.m_end - a.cb.m_buff);
    RUN(r = a.cb.linearize());
    finish(a, th, "C12", FIXED | (lin ? CONSTT | NOTHROW : 0), a.S, a.C, [&](ul i) { return ex(T_A, i); },
        [&]() { if (lin && __sa_choice(2)) { inplace(a, [&](ul i) -> long { return i; }); untouched("C27"); } else if (a.S == 0) __sa_check("C12", r == 0, "linearize of an empty buffer returns a pointer"); else { __sa_check("C12", r == a.cb.m_first, "linearize does not return the first element"); __sa_check("C12", (ul)(a.cb.m_end - a.cb.m_first) >= a.S, "the elements are not contiguous after linearize"); __sa_check("C12", a.cb.is_linearized(), "is_linearized is false after linearize"); }
            relocflags<H>(); }); }
template <class H> void op_rotate() { A_(H, a); __sa_assume(a.S > 0); ul p = __sa_sym("p", 0, a.S - 1), S = a.S; bool f = a.full();
    RUN(a.cb.rotate(a.cit(p)));
    bool pf = !H::so && f;
    finish(a, th, "C12", FIXED | (pf ? CONSTT | NOTHROW : 0), S, a.C, [&](ul i) { return ex(T_A, i + p < S ? i + p : i + p - S); },
        [&]() { if (pf) { if (__sa_choice(2)) inplace(a, [&](ul i) -> long { return i + p < S ? i + p : i + p - S; }); else untouched("C12"); } else if (__sa_choice(2)) relocflags<H>(); else if (!H::so) inplace(a, [&](ul i) -> long { ul o = i + p < S ? i + p : i + p - S; return S - p < p ? (o < p ? (long)o : -1) : o >= p ? (long)o : -1; }); }); }
}
