// Analysis vocabulary: intrinsics understood by the analyser (never linked, never executed) and
// the element, allocator and iterator models the containers are instantiated with.
#pragma once
#define BOOST_ENABLE_ASSERT_HANDLER
#include <cstddef>
#include <new>
#include <memory>
#include <type_traits>
#include <iterator>
#include <utility>
#include <boost/circular_buffer.hpp>

typedef unsigned long ul;
extern "C" {
    int __sa_choice(int n);
    ul __sa_sym(const char* name, ul lo, ul hi);
    long __sa_ssym(const char* name, long lo, long hi);
    void __sa_assume(bool);
    void __sa_check(const char* tag, bool cond, const char* msg);
    void __sa_end();
    void __sa_note(const char*);
    void* __sa_block(ul n, ul es, int id);
    void __sa_live(void* p, ul count, ul es, int tag, ul base);
    void* __sa_ext(ul count, ul es, int tag, int movable);
    int __sa_status(const void* p);
    int __sa_tag(const void* p);
    long __sa_idx(const void* p);
    int __sa_orig(const void* p);
    int __sa_ctag(long);
    long __sa_cidx(long);
    long __sa_content(int tag, long idx);
    void __sa_throwmode(int);
    int __sa_exc();
    long __sa_bound(); void __sa_flags_clear(ul); int __sa_flag(ul); void __sa_flag_set(ul);
    void __sa_freeze(const void* p, int on);
    void __sa_elem_op(int op, const void* p, const void* q);
    void __sa_elem_op_nt(int op, const void* p, const void* q) noexcept;
    int __sa_sameobj(const void*, const void*);
    long __sa_offset(const void*);
    bool __sa_compare(const void* p, const void* q, int op);
    void __sa_mark(const void* p, int tag, long idx);
    bool __sa_anybool();
    void __sa_maythrow(int);
    void* __sa_allocate(ul n, ul es, int id);
    void __sa_deallocate(void* p, ul n, int id, int trivial) noexcept;
    void __sa_leakcheck(const char* tag, const void* a, const void* b, const void* c);
    void __sa_dump(const char*);
    int __sa_isblock(const void*);
    long __sa_blockcount(const void*);
    int __sa_blockalloc(const void*);
    int __sa_blockfreed(const void*);
    long __sa_work(int kind);
    int __sa_filled(const void*);
    void __sa_fill(const void*);
}
namespace sa {
enum Tag { T_UNK = 0, T_A = 1, T_B = 2, T_ITEM = 3, T_EXT = 4, T_DEF = 5, T_MOVED = 6, T_CONST = 7 };
enum Ev : ul { EV_ALLOC = 1, EV_DEALLOC = 2, EV_CCTOR = 4, EV_MCTOR = 8, EV_CASG = 16, EV_MASG = 32, EV_DEFCTOR = 64, EV_DTOR = 128,
    EV_LOOP = 256, EV_GSTORE = 512, EV_NEW = 1024, EV_THROWN = 2048, EV_CMP = 4096, EV_AKOS = 8192, EV_MOVEDOLD = 16384, EV_DEREF = 32768, EV_TOUCHOLD = 65536,
    EV_INALLOC = 1 << 17, EV_COPYITEM = 1 << 18, EV_MOVEITEM = 1 << 19, EV_MOVEDEXT = 1 << 20, EV_COPYOLD = 1 << 21, EV_MISUSE = 1 << 22 };
const ul MAXC = 1ul << 40;

// ---- element models
#if BOOST_CB_ENABLE_DEBUG   // every byte is filled there: small elements keep the analysis fast
#define SA_PAD(n)
#else
#define SA_PAD(n) , pad[n]
#endif
struct Cp {   // copyable only, every copy may throw
    long v;
    Cp() { __sa_elem_op(0, this, 0); }
    Cp(const Cp& o) { __sa_elem_op(1, this, &o); }
    Cp& operator=(const Cp& o) { __sa_elem_op(3, this, &o); return *this; }
    ~Cp() { __sa_elem_op_nt(5, this, 0); }
};
struct Nm {   // copyable, nothrow movable
    long v SA_PAD(32);   // large
    Nm() { __sa_elem_op(0, this, 0); }
    Nm(const Nm& o) { __sa_elem_op(1, this, &o); }
    Nm(Nm&& o) noexcept { __sa_elem_op_nt(2, this, &o); }
    Nm& operator=(const Nm& o) { __sa_elem_op(3, this, &o); return *this; }
    Nm& operator=(Nm&& o) noexcept { __sa_elem_op_nt(4, this, &o); return *this; }
    ~Nm() { __sa_elem_op_nt(5, this, 0); }
};
struct Tm {   // copyable, move may throw
    long v SA_PAD(34);   // large, and no power of two
    Tm() { __sa_elem_op(0, this, 0); }
    Tm(const Tm& o) { __sa_elem_op(1, this, &o); }
    Tm(Tm&& o) { __sa_elem_op(2, this, &o); }
    Tm& operator=(const Tm& o) { __sa_elem_op(3, this, &o); return *this; }
    Tm& operator=(Tm&& o) { __sa_elem_op(4, this, &o); return *this; }
    ~Tm() { __sa_elem_op_nt(5, this, 0); }
};
struct Na {   // copyable, nothrow move construction, move assignment may throw
    long v;
    Na() { __sa_elem_op(0, this, 0); }
    Na(const Na& o) { __sa_elem_op(1, this, &o); }
    Na(Na&& o) noexcept { __sa_elem_op_nt(2, this, &o); }
    Na& operator=(const Na& o) { __sa_elem_op(3, this, &o); return *this; }
    Na& operator=(Na&& o) { __sa_elem_op(4, this, &o); return *this; }
    ~Na() { __sa_elem_op_nt(5, this, 0); }
};
struct Nc {   // copyable, move construction may throw, nothrow move assignment
    long v;
    Nc() { __sa_elem_op(0, this, 0); }
    Nc(const Nc& o) { __sa_elem_op(1, this, &o); }
    Nc(Nc&& o) { __sa_elem_op(2, this, &o); }
    Nc& operator=(const Nc& o) { __sa_elem_op(3, this, &o); return *this; }
    Nc& operator=(Nc&& o) noexcept { __sa_elem_op_nt(4, this, &o); return *this; }
    ~Nc() { __sa_elem_op_nt(5, this, 0); }
};
struct Mo {   // move only, nothrow
    long v SA_PAD(8);
    Mo() { __sa_elem_op(0, this, 0); }
    Mo(const Mo&) = delete;
    Mo(Mo&& o) noexcept { __sa_elem_op_nt(2, this, &o); }
    Mo& operator=(const Mo&) = delete;
    Mo& operator=(Mo&& o) noexcept { __sa_elem_op_nt(4, this, &o); return *this; }
    ~Mo() { __sa_elem_op_nt(5, this, 0); }
};
struct Mt {   // move only, move may throw
    long v;
    Mt() { __sa_elem_op(0, this, 0); }
    Mt(const Mt&) = delete;
    Mt(Mt&& o) { __sa_elem_op(2, this, &o); }
    Mt& operator=(const Mt&) = delete;
    Mt& operator=(Mt&& o) { __sa_elem_op(4, this, &o); return *this; }
    ~Mt() { __sa_elem_op_nt(5, this, 0); }
};
typedef long In;  // scalar
typedef unsigned char Ch;  // of one byte
inline bool operator==(const Cp& a, const Cp& b) { return __sa_compare(&a, &b, 0); }
inline bool operator<(const Cp& a, const Cp& b) { return __sa_compare(&a, &b, 1); }

// ---- allocators
template <class T> struct Alloc {
    typedef T value_type; int id;
    explicit Alloc(int i = 0) noexcept : id(i) {}
    template <class U> Alloc(const Alloc<U>& o) noexcept : id(o.id) {}
    T* allocate(ul n) { return static_cast<T*>(__sa_allocate(n, sizeof(T), id)); }
    void deallocate(T* p, ul n) noexcept { __sa_deallocate(p, n, id, std::is_trivially_destructible<T>::value); }
    friend bool operator==(const Alloc& a, const Alloc& b) { return a.id == b.id; }
    friend bool operator!=(const Alloc& a, const Alloc& b) { return a.id != b.id; }
};
struct InAlloc { InAlloc() { __sa_flag_set(EV_INALLOC); } ~InAlloc() { __sa_flags_clear(EV_INALLOC); } };
template <class T> struct AllocC : Alloc<T> {   // with construct and destroy
    explicit AllocC(int i = 0) noexcept : Alloc<T>(i) {}
    template <class U> AllocC(const AllocC<U>& o) noexcept : Alloc<T>(o.id) {}
    template <class U> struct rebind { typedef AllocC<U> other; };
    template <class U, class... A> void construct(U* p, A&&... a) { InAlloc g; ::new ((void*)p) U(std::forward<A>(a)...); }
    template <class U> void destroy(U* p) { InAlloc g; p->~U(); }
};
// element for AllocC: creation and destruction inside a block must come through the allocator
struct Ac {
    long v;
    static void in(const void* p) { if (__sa_isblock(p)) __sa_check("allocator", __sa_flag(EV_INALLOC) != 0, "an element in the storage is constructed or destroyed without the allocator"); }
    Ac() { in(this); __sa_elem_op(0, this, 0); }
    Ac(const Ac& o) { in(this); __sa_elem_op(1, this, &o); }
    Ac(Ac&& o) noexcept { in(this); __sa_elem_op_nt(2, this, &o); }
    Ac& operator=(const Ac& o) { __sa_elem_op(3, this, &o); return *this; }
    Ac& operator=(Ac&& o) noexcept { __sa_elem_op_nt(4, this, &o); return *this; }
    ~Ac() { in(this); __sa_elem_op_nt(5, this, 0); }
};

// ---- iterators over external elements
template <class T> struct Stream { const T* p; ul n; ul pos; bool fresh; };
// single pass: all copies share the stream, a position is dereferenced at most once and only before it is passed
template <class T> struct InIt {
    typedef std::input_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef const T* pointer; typedef const T& reference;
    Stream<T>* s; ul at;   // at: position this copy stands on; s==0: end
    struct Proxy { const T* p; const T& operator*() const { return *p; } };
    reference operator*() const {
        __sa_check("singlepass", s != 0, "dereferences the end of an input range");
        __sa_check("singlepass", at == s->pos, "reads a position of an input range after advancing past it");
        __sa_check("singlepass", s->pos < s->n, "reads beyond the end of an input range");
        __sa_check("singlepass", s->fresh, "dereferences a position of an input range twice");
        s->fresh = false;
        __sa_maythrow(4); return s->p[s->pos]; }
    InIt& operator++() { adv(); return *this; }
    Proxy operator++(int) { Proxy r; r.p = &**this; adv(); return r; }
    void adv() {
        __sa_check("singlepass", s != 0 && at == s->pos, "advances a stale copy of an input iterator");
        __sa_check("singlepass", s->pos < s->n, "advances an input iterator beyond the end");
        __sa_maythrow(4); s->pos = s->pos + 1; s->fresh = true; at = at + 1; }
    friend bool operator==(const InIt& a, const InIt& b) {
        if (a.s && !b.s) return a.ate(); if (b.s && !a.s) return b.ate(); return !a.s || a.at == b.at; }
    friend bool operator!=(const InIt& a, const InIt& b) { return !(a == b); }
    bool ate() const { __sa_check("singlepass", at == s->pos, "compares a stale copy of an input iterator"); return s->pos == s->n; }
};
template <class T> struct FwIt {
    typedef std::forward_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef const T* pointer; typedef const T& reference;
    const T* p;
    reference operator*() const { __sa_maythrow(4); return *p; }
    pointer operator->() const { return p; }
    FwIt& operator++() { __sa_maythrow(4); ++p; return *this; }
    FwIt operator++(int) { FwIt r = *this; ++*this; return r; }
    friend bool operator==(const FwIt& a, const FwIt& b) { return a.p == b.p; }
    friend bool operator!=(const FwIt& a, const FwIt& b) { return a.p != b.p; }
};

#if BOOST_CB_ENABLE_DEBUG
template <class H> void freeze(H&, int) {}   // the iterator registry is modified by every iterator
#else
template <class H> void freeze(H& a, int on) { __sa_freeze(&a.cb, on); if (a.B) __sa_freeze(a.B, on); }
#endif
template <class A> struct AllocL;
template <class A> struct requires_limit { static const bool value = false; };
template <class T> struct requires_limit<AllocL<T> > { static const bool value = true; };
struct Exp { int tag; long idx; };
inline Exp ex(int t, long i) { Exp e = { t, i }; return e; }
template <class T> struct AllocOf { typedef Alloc<T> type; };
template <> struct AllocOf<Ac> { typedef AllocC<Ac> type; };
// an allocator with a limit of its own, which max_size() of the container must respect
struct Lm : Nm {};
template <class T> struct AllocL : Alloc<T> {
    ul lim;
    explicit AllocL(int i = 0) noexcept : Alloc<T>(i), lim(__sa_sym("L", 0, MAXC)) {}
    template <class U> AllocL(const AllocL<U>& o) noexcept : Alloc<T>(o.id), lim(o.lim) {}
    template <class U> struct rebind { typedef AllocL<U> other; };
    ul max_size() const noexcept { return lim; }
    T* allocate(ul n) { __sa_check("C26", n <= lim, "more elements are requested from the allocator than its max_size()"); return Alloc<T>::allocate(n); }
};
template <> struct AllocOf<Lm> { typedef AllocL<Lm> type; };
template <class A> void within(const A& al, ul C) { if constexpr (requires_limit<A>::value) __sa_assume(C <= al.lim); }

// with debug support memory that holds no element is filled
inline void prefill(const void* p) {
#if BOOST_CB_ENABLE_DEBUG
    __sa_fill(p);
#else
    (void)p;
#endif
}
// ---- an arbitrary valid plain buffer
template <class T> struct Buf {
    typedef typename AllocOf<T>::type A;
    typedef boost::circular_buffer<T, A> CB;
    CB cb; ul C, F, S; T* B; int tg; int shape;
    // shapes: bit 0 no storage, bit 1 not crossing the end, bit 2 touching or crossing the end
    Buf(const char* nc, const char* nf, const char* ns, int tag, int id, int shapes = 7) : cb(A(id)), C(0), F(0), S(0), B(0), tg(tag) {
        shape = __sa_choice(3);
        __sa_assume(((shapes >> shape) & 1) != 0);
        if (shape == 0) { return; }
        C = __sa_sym(nc, 1, MAXC); within(cb.alloc(), C); S = __sa_sym(ns, 0, C);
        F = __sa_sym(nf, 0, C - 1);
        B = static_cast<T*>(__sa_block(C, sizeof(T), id)); prefill(B);
        cb.m_buff = B; cb.m_end = B + C; cb.m_first = B + F; cb.m_size = S;
        if (shape == 1) { __sa_assume(F + S < C); cb.m_last = B + (F + S); __sa_live(B + F, S, sizeof(T), tag, 0); }
        else { __sa_assume(F + S >= C); cb.m_last = B + (F + S - C); __sa_live(B + F, C - F, sizeof(T), tag, 0); __sa_live(B, F + S - C, sizeof(T), tag, C - F); }
    }
    bool full() const { return S == C; }
    T* slot(ul i) const { return F + i < C ? B + (F + i) : B + (F + i - C); }   // slot of the i-th element before the operation
    typename CB::iterator it(ul i) { return typename CB::iterator(&cb, i == S ? 0 : slot(i)); }
    typename CB::const_iterator cit(ul i) const { return typename CB::const_iterator(&cb, i == S ? 0 : slot(i)); }
};
#define SA_A(T, x) sa::Buf<T> x("C", "F", "S", sa::T_A, 1)
#define SA_B(T, x) sa::Buf<T> x("D", "G", "R", sa::T_B, 2)

// representation invariant; returns capacity
template <class CB> ul repr(const char* tag, const CB& cb) {
    const auto* B = cb.m_buff;
    if (B == 0) {
        __sa_check(tag, cb.m_end == 0 && cb.m_first == 0 && cb.m_last == 0 && cb.m_size == 0, "a buffer without storage has non-null pointers or a size");
        return 0; }
    __sa_check(tag, __sa_isblock(B) != 0 && __sa_offset(B) == 0 && !__sa_blockfreed(B), "the buffer pointer is not the start of an allocated block");
    __sa_check(tag, __sa_sameobj(B, cb.m_end) && __sa_sameobj(B, cb.m_first) && __sa_sameobj(B, cb.m_last), "the buffer pointers designate different blocks");
    ul C = cb.m_end - cb.m_buff, F = cb.m_first - cb.m_buff, L = cb.m_last - cb.m_buff, S = cb.m_size;
    __sa_check(tag, (long)C == __sa_blockcount(B), "the end pointer is not the end of the block");
    __sa_check(tag, F < C, "the first-element pointer is outside the block");
    __sa_check(tag, S <= C, "the size exceeds the capacity");
    __sa_check(tag, L == (F + S < C ? F + S : F + S - C), "size, first and last pointer are inconsistent");
    return C;
}
template <class CB> void allocid(const char* tag, CB& cb, int id) {
    if (cb.m_buff) __sa_check(tag, __sa_blockalloc(cb.m_buff) == cb.alloc().id, "the block belongs to a different allocator than the container's");
    if (id >= 0) __sa_check(tag, cb.alloc().id == id, "the container uses an allocator it was not given");
}
// at an arbitrary slot: exactly the elements of the sequence are alive
template <class CB> void alive(const char* tag, const CB& cb, bool normal = true) {
    if (cb.m_buff == 0) return;
    ul C = cb.m_end - cb.m_buff, F = cb.m_first - cb.m_buff, S = cb.m_size;
    ul j = __sa_sym("slot", 0, C - 1);
    ul i = j >= F ? j - F : j - F + C;
    int st = __sa_status(cb.m_buff + j);
#if BOOST_CB_ENABLE_DEBUG
    if (normal && i >= S) __sa_check("C33", __sa_filled(cb.m_buff + j) != 0, "memory that holds no element is not filled with 0xcc");
#endif
    if (i < S) __sa_check(tag, st == 1, "an element of the sequence is not alive");
    else if (!std::is_trivially_destructible<typename CB::value_type>::value) __sa_check(tag, st == 0, "a live element is left behind outside the sequence");
}
// at an arbitrary position: content as expected (f maps position to expected content)
template <class CB, class Fn> void content(const char* tag, const CB& cb, Fn f) {
    ul S = cb.m_size; if (S == 0) return;
    ul C = cb.m_end - cb.m_buff, F = cb.m_first - cb.m_buff;
    ul i = __sa_sym("pos", 0, S - 1);
    ul j = F + i < C ? F + i : F + i - C;
    Exp e = f(i);
    int t = __sa_tag(cb.m_buff + j);
    __sa_check(tag, t == e.tag, "an element has the wrong value");
    if (t == e.tag) __sa_check(tag, __sa_idx(cb.m_buff + j) == e.idx, "an element has the wrong value or position");
}
}
