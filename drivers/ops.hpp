// Operation harnesses: every operation from an arbitrary valid state, checked against its documented result.
#pragma once
#include "sa.hpp"
namespace sa {
// ---- an arbitrary valid space optimized buffer
template <class T> struct SBuf {
    typedef typename AllocOf<T>::type A;
    typedef boost::circular_buffer_space_optimized<T, A> CB;
    typedef T value;
    static const bool so = true;
    CB cb; ul C, F, S, I, M; T* B; int tg; int shape;    // I internal capacity, C logical capacity, M minimum
    SBuf(const char* nc, const char* nf, const char* ns, int tag, int id, int shapes = 7) : cb(A(id)), C(0), F(0), S(0), I(0), M(0), B(0), tg(tag) {
        shape = __sa_choice(3);
        __sa_assume(((shapes >> shape) & 1) != 0);
        if (shape != 0) I = __sa_sym(nc, 1, MAXC);
        C = __sa_sym("K", I, MAXC); within(cb.alloc(), C); M = __sa_sym("M", 0, C);
        cb.m_capacity_ctrl.m_capacity = C; cb.m_capacity_ctrl.m_min_capacity = M;
        if (shape == 0) return;
        S = __sa_sym(ns, 0, I); F = __sa_sym(nf, 0, I - 1);
        B = static_cast<T*>(__sa_block(I, sizeof(T), id)); prefill(B);
        cb.m_buff = B; cb.m_end = B + I; cb.m_first = B + F; cb.m_size = S;
        if (shape == 1) { __sa_assume(F + S < I); cb.m_last = B + (F + S); __sa_live(B + F, S, sizeof(T), tag, 0); }
        else { __sa_assume(F + S >= I); cb.m_last = B + (F + S - I); __sa_live(B + F, I - F, sizeof(T), tag, 0); __sa_live(B, F + S - I, sizeof(T), tag, I - F); }
    }
    bool full() const { return S == C; }
    T* slot(ul i) const { return F + i < I ? B + (F + i) : B + (F + i - I); }
    typename CB::iterator it(ul i) { return typename CB::iterator(&cb, i == S ? 0 : slot(i)); }
    typename CB::const_iterator cit(ul i) const { return typename CB::const_iterator(&cb, i == S ? 0 : slot(i)); }
    static const char* p(const char*) { return "C18"; }
    ul logcap() const { return cb.m_capacity_ctrl.m_capacity; }
};
template <class T> struct PBuf : Buf<T> {
    typedef T value;
    static const bool so = false;
    PBuf(const char* nc, const char* nf, const char* ns, int tag, int id, int shapes = 7) : Buf<T>(nc, nf, ns, tag, id, shapes) {}
    static const char* p(const char* x) { return x; }
    ul logcap() const { return this->cb.m_end - this->cb.m_buff; }
};
template <class CB> struct requires_so { static const bool value = false; };
template <class T, class A> struct requires_so<boost::circular_buffer_space_optimized<T, A> > { static const bool value = true; };
#define CAPS2 ul K = __sa_sym("K2", 0, MAXC), M = 0; if constexpr (H::so) M = __sa_sym("M2", 0, K)
enum { STRONG = 1, NOTHROW = 2, FIXED = 4, CONSTT = 8, SAMECAP = 16, ANYCAP = 32, ANYCONTENT = 64, NOMIN = 256, NEWMIN = 512, COPYOK = 1024 };
#define A_(H, x) H x("C", "F", "S", sa::T_A, 1)
#define B_(H, x) H x("D", "G", "R", sa::T_B, 2)
#define BA_(H, x) const int x##id = __sa_choice(2) + 1; H x("D", "G", "R", sa::T_B, x##id)   // its allocator equals the first container's, or not
#define RUN(...) bool th = false; __sa_throwmode(7); try { __VA_ARGS__; } catch (...) { th = true; } __sa_throwmode(0)
#define RUNM(mode, stmt) bool th = false; __sa_throwmode(mode); try { stmt; } catch (...) { th = true; } __sa_throwmode(0)

template <class H> void sobounds(const char* tag, H& a) {
    if constexpr (H::so) {
        ul I = a.cb.m_end - a.cb.m_buff, K = a.cb.m_capacity_ctrl.m_capacity, M = a.cb.m_capacity_ctrl.m_min_capacity, S = a.cb.m_size;
        __sa_check(tag, I <= K, "the internal capacity exceeds the capacity");
        __sa_check(tag, S <= K, "the size exceeds the capacity");
        __sa_check(tag, M <= K, "the minimum capacity exceeds the capacity");
    }
}
template <class H> ul posOf(H& a, const typename H::CB::iterator& it) {
    if (it.m_it == 0) return a.cb.m_size;
    ul F = a.cb.m_first - a.cb.m_buff, j = it.m_it - a.cb.m_buff, I = a.cb.m_end - a.cb.m_buff;
    return j >= F ? j - F : j - F + I;
}
template <class T> constexpr int movefl() { return std::is_nothrow_move_constructible<T>::value || !std::is_copy_constructible<T>::value ? 1 : 0; }
template <class H> void relocflags(int fl = 0) { typedef typename H::value T;
    if constexpr (std::is_scalar<T>::value) return;
    else if constexpr (movefl<T>()) { if (!(fl & COPYOK)) __sa_check("C19", __sa_flag(EV_COPYOLD) == 0, "existing elements are copied although they can be moved safely"); }
    else __sa_check("C19", __sa_flag(EV_MOVEDOLD) == 0, "existing elements are moved although the move may throw"); }
struct None { template <class... X> void operator()(X...) const {} };
// size: expected size; cap: expected logical capacity; f: expected content; extra: further checks
template <class H, int Own = 0, class Fn, class Ex> void finish(H& a, bool th, const char* prop, int fl, ul size, ul cap, Fn f, Ex extra, const void* other = 0, const void* other2 = 0) {
    const char* pt = Own ? prop : H::p(prop);
    if (th) {
        if (fl & NOTHROW) __sa_check("C06", false, "an operation that must not throw lets an exception escape");
        int k = __sa_choice(3);
        if (k == 0) { repr("C02", a.cb); allocid("C02", a.cb, -1); sobounds("C02", a); sobounds("C17", a); relocflags<H>(Own ? COPYOK : fl); __sa_leakcheck("C02", a.cb.m_buff, other, other2); }
        else if (k == 1) alive("C02", a.cb, false);
        else if (fl & STRONG) {
            __sa_check("C03", a.cb.m_size == a.S, "the size changed although the operation failed");
            __sa_check("C03", a.logcap() == a.C, "the capacity changed although the operation failed");
            if constexpr (!H::so) __sa_check("C03", a.cb.m_buff == a.B && a.cb.m_first == a.B + a.F, "the elements were relocated although the operation failed");
            content("C03", a.cb, [&](ul i) { return ex(T_A, i); });
        }
    } else {
        int k = __sa_choice(4);
        if (k == 0) {
            repr("C01", a.cb); allocid("C04", a.cb, -1); sobounds("C17", a); relocflags<H>(Own ? COPYOK : fl);
            __sa_check(pt, a.cb.m_size == size, "wrong size after the operation");
            if (!(fl & ANYCAP)) __sa_check(pt, a.logcap() == cap, "wrong capacity after the operation");
            if constexpr (H::so) { if (!(fl & NOMIN)) __sa_check("C17", (ul)(a.cb.m_end - a.cb.m_buff) >= a.cb.m_capacity_ctrl.m_min_capacity || (ul)(a.cb.m_end - a.cb.m_buff) >= a.I, "the internal capacity fell below the minimum capacity");
                if (!(fl & NEWMIN)) __sa_check("C17", a.cb.m_capacity_ctrl.m_min_capacity == a.M, "an operation that takes no capacity changes the minimum capacity"); }
            if constexpr (!H::so) {
                if (fl & FIXED) { __sa_check("C05", __sa_flag(EV_ALLOC | EV_DEALLOC) == 0, "memory is obtained or released by an operation that works in place");
                                  __sa_check("C05", a.cb.m_buff == a.B && a.logcap() == a.C, "the storage or capacity changed"); }
                if (fl & CONSTT) __sa_check("C16", __sa_flag(EV_LOOP) == 0, "a constant time operation contains a loop that depends on size or capacity");
            }
            __sa_leakcheck("C04", a.cb.m_buff, other, other2);
        } else if (k == 1) alive("C01", a.cb);
        else if (k == 2) { if (!(fl & ANYCONTENT)) content(pt, a.cb, f); }
        else extra();
    }
    __sa_end();
}
// every surviving element stays where it was, untouched. old(i): old position of the element at new position i, or -1 for a new one
template <class H, class Fn> void inplace(H& a, Fn old, const char* tag = "C27") {
    ul S = a.cb.m_size; if (S == 0) return;
    ul C = a.cb.m_end - a.cb.m_buff, F = a.cb.m_first - a.cb.m_buff;
    ul i = __sa_sym("pos", 0, S - 1);
    ul j = F + i < C ? F + i : F + i - C;
    long o = old(i);
    if (o < 0) return;
    __sa_check(tag, a.slot(o) == a.cb.m_buff + j, "an element that needs no relocation was moved to another place");
    __sa_check(tag, __sa_orig(a.cb.m_buff + j) == 1, "an element that needs no relocation was assigned, moved or recreated");
}
template <class T> const T& item() { return *static_cast<const T*>(__sa_ext(1, sizeof(T), T_ITEM, 0)); }
template <class T> T& ritem() { return *static_cast<T*>(__sa_ext(1, sizeof(T), T_ITEM, 1)); }
// conceptual result of inserting n items at p into S elements, keeping the last (suffix) or first min(C,S+n)
struct Ins { ul S, C, p, n; int tag; bool front; bool single;
    ul size() const { ul t = S + n; return t < C ? t : C; }
    Exp at(ul i) const {
        ul t = S + n; ul x = i;
        if (!front && t > C) x = i + (t - C);
        if (x < p) return ex(T_A, x);
        if (x < p + n) return ex(tag, single ? 0 : x - p);
        return ex(T_A, x - n); } };

// ------------------------------------------------------------------ push, pop
template <class H> void op_push_back() { typedef typename H::value T;
    A_(H, a); const T& x = item<T>();
    RUN(a.cb.push_back(x));
    bool full = a.full(); ul S = a.S;
    finish(a, th, "C07", FIXED | CONSTT | (full || H::so ? 0 : STRONG), full ? S : S + 1, a.C,
        [&](ul i) { Ins e = { S, a.C, S, 1, T_ITEM, false, true }; return e.at(i); },
        [&]() { if (!H::so) inplace(a, [&](ul i) -> long { return full ? (i + 1 < S ? (long)i + 1 : -1) : i < S ? (long)i : -1; }); });
}
template <class H> void op_push_front() { typedef typename H::value T;
    A_(H, a); const T& x = item<T>();
    RUN(a.cb.push_front(x));
    bool full = a.full(); ul S = a.S;
    finish(a, th, "C07", FIXED | CONSTT | (full || H::so ? 0 : STRONG), full ? S : S + 1, a.C,
        [&](ul i) { Ins e = { S, a.C, 0, 1, T_ITEM, true, true }; return e.at(i); },
        [&]() { if (!H::so) inplace(a, [&](ul i) -> long { return i == 0 ? -1 : (long)i - 1; }); });
}
template <class H> void op_push_back_rv() { typedef typename H::value T;
    A_(H, a); T& x = ritem<T>();
    RUN(a.cb.push_back(std::move(x)));
    bool full = a.full(); ul S = a.S;
    finish(a, th, "C07", FIXED | CONSTT, full ? S : S + 1, a.C,
        [&](ul i) { Ins e = { S, a.C, S, 1, T_ITEM, false, true }; return e.at(i); },
        [&]() { if (a.C > 0 && !std::is_scalar<T>::value) __sa_check("C19", __sa_flag(EV_MOVEITEM) != 0, "an rvalue argument is not moved into the buffer"); });
}
template <class H> void op_push_front_rv() { typedef typename H::value T;
    A_(H, a); T& x = ritem<T>();
    RUN(a.cb.push_front(std::move(x)));
    bool full = a.full(); ul S = a.S;
    finish(a, th, "C07", FIXED | CONSTT, full ? S : S + 1, a.C,
        [&](ul i) { Ins e = { S, a.C, 0, 1, T_ITEM, true, true }; return e.at(i); },
        [&]() { if (a.C > 0 && !std::is_scalar<T>::value) __sa_check("C19", __sa_flag(EV_MOVEITEM) != 0, "an rvalue argument is not moved into the buffer"); });
}
template <class H> void op_push_back_def() { typedef typename H::value T;
    A_(H, a); RUN(a.cb.push_back());
    bool full = a.full(); ul S = a.S;
    finish(a, th, "C07", FIXED | CONSTT, full ? S : S + 1, a.C, [&](ul i) { Ins e = { S, a.C, S, 1, T_DEF, false, true }; return e.at(i); }, None());
}
template <class H> void op_push_front_def() { typedef typename H::value T;
    A_(H, a); RUN(a.cb.push_front());
    bool full = a.full(); ul S = a.S;
    finish(a, th, "C07", FIXED | CONSTT, full ? S : S + 1, a.C, [&](ul i) { Ins e = { S, a.C, 0, 1, T_DEF, true, true }; return e.at(i); }, None());
}
template <class H> void op_pop_back() {
    A_(H, a); __sa_assume(a.S > 0); RUN(a.cb.pop_back());
    finish(a, th, "C07", FIXED | CONSTT | (H::so ? 0 : NOTHROW), a.S - 1, a.C, [&](ul i) { return ex(T_A, i); }, [&]() { if (!H::so) inplace(a, [&](ul i) -> long { return i; }); });
}
template <class H> void op_pop_front() {
    A_(H, a); __sa_assume(a.S > 0); RUN(a.cb.pop_front());
    finish(a, th, "C07", FIXED | CONSTT | (H::so ? 0 : NOTHROW), a.S - 1, a.C, [&](ul i) { return ex(T_A, i + 1); }, [&]() { if (!H::so) inplace(a, [&](ul i) -> long { return i + 1; }); });
}
// ------------------------------------------------------------------ erase, clear
template <class H> constexpr int erasefl() { return FIXED | (!H::so && std::is_nothrow_move_constructible<typename H::value>::value && std::is_nothrow_move_assignable<typename H::value>::value ? NOTHROW : 0); }
template <class H> void op_erase() {
    A_(H, a); __sa_assume(a.S > 0); ul p = __sa_sym("p", 0, a.S - 1); typename H::CB::iterator r;
    RUN(r = a.cb.erase(a.it(p)));
    finish(a, th, "C09", erasefl<H>(), a.S - 1, a.C, [&](ul i) { return ex(T_A, i < p ? i : i + 1); },
        [&]() { if (__sa_choice(2)) __sa_check(H::p("C09"), posOf(a, r) == p, "wrong iterator returned"); else if (!H::so) inplace(a, [&](ul i) -> long { return i < p ? (long)i : -1; }); });
}
template <class H> void op_erase_range() {
    A_(H, a); ul p = __sa_sym("p", 0, a.S), q = __sa_sym("q", p, a.S); typename H::CB::iterator r;
    RUN(r = a.cb.erase(a.it(p), a.it(q)));
    finish(a, th, "C09", erasefl<H>(), a.S - (q - p), a.C, [&](ul i) { return ex(T_A, i < p ? i : i + (q - p)); },
        [&]() { if (__sa_choice(2)) __sa_check(H::p("C09"), posOf(a, r) == p, "wrong iterator returned"); else if (!H::so) inplace(a, [&](ul i) -> long { return i < p ? (long)i : -1; }); });
}
template <class H> void op_rerase() {
    A_(H, a); __sa_assume(a.S > 0); ul p = __sa_sym("p", 0, a.S - 1); typename H::CB::iterator r;
    RUN(r = a.cb.rerase(a.it(p)));
    finish(a, th, "C09", erasefl<H>(), a.S - 1, a.C, [&](ul i) { return ex(T_A, i < p ? i : i + 1); },
        [&]() { if (__sa_choice(2)) __sa_check(H::p("C09"), posOf(a, r) == (p == 0 ? 0 : p - 1), "wrong iterator returned"); else if (!H::so) inplace(a, [&](ul i) -> long { return i < p ? -1 : (long)i + 1; }); });
}
template <class H> void op_rerase_range() {
    A_(H, a); ul p = __sa_sym("p", 0, a.S), q = __sa_sym("q", p, a.S); typename H::CB::iterator r;
    RUN(r = a.cb.rerase(a.it(p), a.it(q)));
    finish(a, th, "C09", erasefl<H>(), a.S - (q - p), a.C, [&](ul i) { return ex(T_A, i < p ? i : i + (q - p)); },
        [&]() { if (__sa_choice(2)) __sa_check(H::p("C09"), posOf(a, r) == (p == q ? p : p == 0 ? 0 : p - 1), "wrong iterator returned"); else if (!H::so) inplace(a, [&](ul i) -> long { return i < p ? -1 : (long)(i + (q - p)); }); });
}
template <class T> constexpr int sc() { return std::is_scalar<T>::value ? CONSTT : 0; }
template <class H> void op_erase_begin() {
    A_(H, a); ul n = __sa_sym("n", 0, a.S); RUN(a.cb.erase_begin(n));
    finish(a, th, "C09", erasefl<H>() | sc<typename H::value>(), a.S - n, a.C, [&](ul i) { return ex(T_A, i + n); }, [&]() { if (!H::so) inplace(a, [&](ul i) -> long { return i + n; }); });
}
template <class H> void op_erase_end() {
    A_(H, a); ul n = __sa_sym("n", 0, a.S); RUN(a.cb.erase_end(n));
    finish(a, th, "C09", erasefl<H>() | sc<typename H::value>(), a.S - n, a.C, [&](ul i) { return ex(T_A, i); }, [&]() { if (!H::so) inplace(a, [&](ul i) -> long { return i; }); });
}
template <class H> void op_clear() {
    A_(H, a); RUN(a.cb.clear());
    finish(a, th, "C09", FIXED | (H::so ? 0 : NOTHROW) | sc<typename H::value>(), 0, a.C, [&](ul i) { return ex(T_A, i); }, None());
}
template <class H> void op_dtor() {
    { typedef typename H::CB CB; alignas(H) char mem[sizeof(H)]; H* a = new (mem) H("C", "F", "S", T_A, 1); __sa_throwmode(7); a->cb.~CB(); __sa_throwmode(0); __sa_leakcheck("C04", 0, 0, 0);
      if (a->C > 0) __sa_check("C16", true, ""); }
    __sa_end();
}
// ------------------------------------------------------------------ insert, rinsert
template <class H> void op_insert() { typedef typename H::value T;
    A_(H, a); const T& x = item<T>(); ul p = __sa_sym("p", 0, a.S); typename H::CB::iterator r;
    RUN(r = a.cb.insert(a.it(p), x));
    Ins e = { a.S, a.C, p, 1, T_ITEM, false, true }; bool full = a.full();
    finish(a, th, "C08", FIXED, e.size(), a.C, [&](ul i) { return e.at(i); },
        [&]() { if (__sa_choice(2)) __sa_check(H::p("C08"), posOf(a, r) == (full && p > 0 ? p - 1 : p), "wrong iterator returned");
                else if (!H::so) inplace(a, [&](ul i) -> long { Exp x = e.at(i); return x.tag == T_A && (ul)x.idx < p ? x.idx : -1; }); });
}
template <class H> void op_insert_rv() { typedef typename H::value T;
    A_(H, a); T& x = ritem<T>(); ul p = __sa_sym("p", 0, a.S); typename H::CB::iterator r;
    RUN(r = a.cb.insert(a.it(p), std::move(x)));
    Ins e = { a.S, a.C, p, 1, T_ITEM, false, true }; bool full = a.full();
    finish(a, th, "C08", FIXED, e.size(), a.C, [&](ul i) { return e.at(i); },
        [&]() { __sa_check(H::p("C08"), posOf(a, r) == (full && p > 0 ? p - 1 : p), "wrong iterator returned"); });
}
template <class H> void op_insert_def() { typedef typename H::value T;
    A_(H, a); ul p = __sa_sym("p", 0, a.S); typename H::CB::iterator r;
    RUN(r = a.cb.insert(a.it(p)));
    Ins e = { a.S, a.C, p, 1, T_DEF, false, true }; bool full = a.full();
    finish(a, th, "C08", FIXED, e.size(), a.C, [&](ul i) { return e.at(i); },
        [&]() { __sa_check(H::p("C08"), posOf(a, r) == (full && p > 0 ? p - 1 : p), "wrong iterator returned"); });
}
template <class H> void op_rinsert() { typedef typename H::value T;
    A_(H, a); const T& x = item<T>(); ul p = __sa_sym("p", 0, a.S); typename H::CB::iterator r;
    RUN(r = a.cb.rinsert(a.it(p), x));
    Ins e = { a.S, a.C, p, 1, T_ITEM, true, true };
    finish(a, th, "C08", FIXED, e.size(), a.C, [&](ul i) { return e.at(i); },
        [&]() { if (__sa_choice(2)) __sa_check(H::p("C08"), posOf(a, r) == p, "wrong iterator returned");
                else if (!H::so) inplace(a, [&](ul i) -> long { Exp x = e.at(i); return x.tag == T_A && (ul)x.idx >= p ? x.idx : -1; }); });
}
template <class H> void op_rinsert_rv() { typedef typename H::value T;
    A_(H, a); T& x = ritem<T>(); ul p = __sa_sym("p", 0, a.S); typename H::CB::iterator r;
    RUN(r = a.cb.rinsert(a.it(p), std::move(x)));
    Ins e = { a.S, a.C, p, 1, T_ITEM, true, true };
    finish(a, th, "C08", FIXED, e.size(), a.C, [&](ul i) { return e.at(i); }, [&]() { __sa_check(H::p("C08"), posOf(a, r) == p, "wrong iterator returned"); });
}
template <class H> void op_rinsert_def() { typedef typename H::value T;
    A_(H, a); ul p = __sa_sym("p", 0, a.S); typename H::CB::iterator r;
    RUN(r = a.cb.rinsert(a.it(p)));
    Ins e = { a.S, a.C, p, 1, T_DEF, true, true };
    finish(a, th, "C08", FIXED, e.size(), a.C, [&](ul i) { return e.at(i); }, [&]() { __sa_check(H::p("C08"), posOf(a, r) == p, "wrong iterator returned"); });
}
template <class H> void op_insert_n() { typedef typename H::value T;
    A_(H, a); const T& x = item<T>(); ul p = __sa_sym("p", 0, a.S), n = __sa_sym("n", 0, MAXC);
    RUN(a.cb.insert(a.it(p), n, x));
    Ins e = { a.S, a.C, p, n, T_ITEM, false, true };
    finish(a, th, "C08", COPYOK | FIXED, e.size(), a.C, [&](ul i) { return e.at(i); }, [&]() { if (!H::so) inplace(a, [&](ul i) -> long { Exp x = e.at(i); return x.tag == T_A && (ul)x.idx < p ? x.idx : -1; }); });
}
template <class H> void op_rinsert_n() { typedef typename H::value T;
    A_(H, a); const T& x = item<T>(); ul p = __sa_sym("p", 0, a.S), n = __sa_sym("n", 0, MAXC);
    RUN(a.cb.rinsert(a.it(p), n, x));
    Ins e = { a.S, a.C, p, n, T_ITEM, true, true };
    finish(a, th, "C08", COPYOK | FIXED, e.size(), a.C, [&](ul i) { return e.at(i); }, [&]() { if (!H::so) inplace(a, [&](ul i) -> long { Exp x = e.at(i); return x.tag == T_A && (ul)x.idx >= p ? x.idx : -1; }); });
}
// ranges: kind 0 pointers, 1 forward iterators that may throw, 2 single pass
template <class T, int K> struct Rng;
template <class T> struct Rng<T, 0> { ul n; const T* p; typedef const T* I; Rng() { n = __sa_sym("n", 0, MAXC); p = static_cast<const T*>(__sa_ext(n, sizeof(T), T_EXT, 0)); } I b() { return p; } I e() { return p + n; } bool done() { return true; } };
template <class T> struct Rng<T, 1> { ul n; const T* p; typedef FwIt<T> I; Rng() { n = __sa_sym("n", 0, MAXC); p = static_cast<const T*>(__sa_ext(n, sizeof(T), T_EXT, 0)); } I b() { I i = { p }; return i; } I e() { I i = { p + n }; return i; } bool done() { return true; } };
template <class T> struct Rng<T, 2> { ul n; Stream<T> s; typedef InIt<T> I; Rng() { n = __sa_sym("n", 0, MAXC); s.n = n; s.pos = 0; s.fresh = true; s.p = static_cast<const T*>(__sa_ext(n, sizeof(T), T_EXT, 0)); } I b() { I i = { &s, 0 }; return i; } I e() { I i = { 0, 0 }; return i; } bool done() { return s.pos == s.n; } };
template <class H, int K> void op_insert_r() { typedef typename H::value T;
    A_(H, a); Rng<T, K> r; ul p = __sa_sym("p", 0, a.S), n = r.n;
    RUN(a.cb.insert(a.it(p), r.b(), r.e()));
    Ins e = { a.S, a.C, p, n, T_EXT, false, false };
    finish(a, th, "C08", COPYOK | FIXED, e.size(), a.C, [&](ul i) { return e.at(i); }, [&]() { if (!H::so) inplace(a, [&](ul i) -> long { Exp x = e.at(i); return x.tag == T_A && (ul)x.idx < p ? x.idx : -1; }); });
}
template <class H, int K> void op_rinsert_r() { typedef typename H::value T;
    A_(H, a); Rng<T, K> r; ul p = __sa_sym("p", 0, a.S), n = r.n;
    RUN(a.cb.rinsert(a.it(p), r.b(), r.e()));
    Ins e = { a.S, a.C, p, n, T_EXT, true, false };
    finish(a, th, "C08", COPYOK | FIXED, e.size(), a.C, [&](ul i) { return e.at(i); }, [&]() { if (!H::so) inplace(a, [&](ul i) -> long { Exp x = e.at(i); return x.tag == T_A && (ul)x.idx >= p ? x.idx : -1; }); });
}
}
