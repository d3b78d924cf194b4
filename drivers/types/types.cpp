// C24: type rules of the interface, decided by the type checker (never executed)
#include "fwd.hpp"
#include "use.hpp"
#include <boost/circular_buffer.hpp>
#include <memory>
#include <type_traits>
using boost::circular_buffer; using boost::circular_buffer_space_optimized;
namespace w {
template <class...> struct voider { typedef void type; };
template <class A, class B> struct same : std::is_same<A, B> {};
#define EXPR(name, ...) template <class X, class = void> struct name : std::false_type { typedef void type; }; template <class X> struct name<X, typename voider<decltype(__VA_ARGS__)>::type> : std::true_type { typedef decltype(__VA_ARGS__) type; };
#define O std::declval<X&>()
typedef std::size_t N;
// ------- expressions on a container X (possibly const)
EXPR(e_size, O.size()) EXPR(e_max_size, O.max_size()) EXPR(e_empty, O.empty()) EXPR(e_full, O.full()) EXPR(e_reserve, O.reserve()) EXPR(e_capacity, O.capacity()) EXPR(e_alloc, O.get_allocator()) EXPR(e_lin, O.is_linearized())
EXPR(e_begin, O.begin()) EXPR(e_end, O.end()) EXPR(e_rbegin, O.rbegin()) EXPR(e_rend, O.rend()) EXPR(e_index, O[N()]) EXPR(e_at, O.at(N())) EXPR(e_front, O.front()) EXPR(e_back, O.back()) EXPR(e_one, O.array_one()) EXPR(e_two, O.array_two())
EXPR(e_linearize, O.linearize()) EXPR(e_rotate, O.rotate(O.begin())) EXPR(e_setcap, O.set_capacity(N())) EXPR(e_rsetcap, O.rset_capacity(N())) EXPR(e_resize, O.resize(N())) EXPR(e_rresize, O.rresize(N())) EXPR(e_resize2, O.resize(N(), std::declval<const typename X::value_type&>())) EXPR(e_rresize2, O.rresize(N(), std::declval<const typename X::value_type&>()))
#define V std::declval<const typename X::value_type&>()
#define R std::declval<typename X::value_type>()
#define IT std::declval<typename X::iterator>()
#define PT std::declval<const typename X::value_type*>()
EXPR(e_pb, O.push_back(V)) EXPR(e_pf, O.push_front(V)) EXPR(e_pbr, O.push_back(R)) EXPR(e_pfr, O.push_front(R)) EXPR(e_pb0, O.push_back()) EXPR(e_pf0, O.push_front()) EXPR(e_pob, O.pop_back()) EXPR(e_pof, O.pop_front())
EXPR(e_ins, O.insert(IT, V)) EXPR(e_rins, O.rinsert(IT, V)) EXPR(e_insr, O.insert(IT, R)) EXPR(e_rinsr, O.rinsert(IT, R)) EXPR(e_ins0, O.insert(IT)) EXPR(e_rins0, O.rinsert(IT)) EXPR(e_insn, O.insert(IT, N(), V)) EXPR(e_rinsn, O.rinsert(IT, N(), V)) EXPR(e_insi, O.insert(IT, PT, PT)) EXPR(e_rinsi, O.rinsert(IT, PT, PT))
EXPR(e_era, O.erase(IT)) EXPR(e_rera, O.rerase(IT)) EXPR(e_eraR, O.erase(IT, IT)) EXPR(e_reraR, O.rerase(IT, IT)) EXPR(e_clear, O.clear()) EXPR(e_asn, O.assign(N(), V)) EXPR(e_asnc, O.assign(N(), N(), V)) EXPR(e_asi, O.assign(PT, PT)) EXPR(e_asic, O.assign(N(), PT, PT))
EXPR(e_swap, O.swap(O)) EXPR(e_copyas, O = std::declval<const typename std::remove_const<X>::type&>()) EXPR(e_moveas, O = std::declval<typename std::remove_const<X>::type>())
EXPR(e_eb, O.erase_begin(N())) EXPR(e_ee, O.erase_end(N()))
// ------- the documented result, and whether a const container has the operation
#define RES(e, X, ...) static_assert(e<X>::value, #e ": the operation cannot be called"); static_assert(same<typename e<X>::type, __VA_ARGS__>::value, #e ": the operation does not have the documented result type");
#define NOCONST(e) static_assert(e<CB>::value, #e ": the operation cannot be called"); static_assert(!e<const CB>::value, #e ": a modifying operation can be called on a const container");
template <class CB> struct noexc { typedef typename CB::value_type T; typedef typename CB::iterator I; typedef const CB K; typedef typename CB::allocator_type A;
    // noexcept
    static_assert(std::is_nothrow_move_constructible<CB>::value, "move construction is not noexcept"); static_assert(std::is_nothrow_move_assignable<CB>::value, "move assignment is not noexcept"); static_assert(std::is_nothrow_destructible<CB>::value, "destruction is not noexcept");
    static_assert(noexcept(std::declval<CB&>().swap(std::declval<CB&>())), "member swap is not noexcept"); static_assert(noexcept(swap(std::declval<CB&>(), std::declval<CB&>())), "swap is not noexcept");
    static_assert(noexcept(std::declval<K&>().size()) && noexcept(std::declval<K&>().max_size()) && noexcept(std::declval<K&>().empty()) && noexcept(std::declval<K&>().full()) && noexcept(std::declval<K&>().reserve()) && noexcept(std::declval<K&>().capacity()) && noexcept(std::declval<K&>().is_linearized()), "a size or capacity query is not noexcept");
    static_assert(noexcept(std::declval<K&>().begin()) && noexcept(std::declval<K&>().end()) && noexcept(std::declval<K&>().rbegin()) && noexcept(std::declval<K&>().rend()) && noexcept(std::declval<CB&>().begin()) && noexcept(std::declval<CB&>().end()) && noexcept(std::declval<CB&>().rbegin()) && noexcept(std::declval<CB&>().rend()) && noexcept(std::declval<K&>().get_allocator()), "an iterator or allocator accessor is not noexcept");
    static_assert(noexcept(CB(std::declval<const A&>())), "construction of an empty buffer is not noexcept");
    // ... and nothing that copies or allocates claims to be
    static_assert(!noexcept(CB(N(), std::declval<const A&>())), "an allocating constructor is noexcept"); static_assert(!noexcept(CB(std::declval<K&>())) && !noexcept(std::declval<CB&>() = std::declval<K&>()), "copying is noexcept"); static_assert(!noexcept(std::declval<K&>().at(0)) && !noexcept(std::declval<CB&>().at(0)), "at() is noexcept"); static_assert(!noexcept(std::declval<CB&>().push_back(std::declval<const T&>())) && !noexcept(std::declval<CB&>().push_front(std::declval<const T&>())) && !noexcept(std::declval<CB&>().set_capacity(0)) && !noexcept(std::declval<CB&>().linearize()) && !noexcept(std::declval<CB&>().insert(std::declval<I>(), std::declval<const T&>())), "an operation that may throw is noexcept");
};
template <class CB, class Cap> struct container {
    typedef typename CB::value_type T; typedef typename CB::size_type S; typedef typename CB::iterator I; typedef typename CB::const_iterator CI; typedef typename CB::reverse_iterator RI; typedef typename CB::const_reverse_iterator CRI; typedef typename CB::pointer P; typedef typename CB::const_pointer CP; typedef const CB K; typedef typename CB::allocator_type A;
    static_assert(same<typename CB::reference, T&>::value && same<typename CB::const_reference, const T&>::value, "reference types of the container");
    static_assert(same<typename CB::array_range, std::pair<P, S> >::value && same<typename CB::const_array_range, std::pair<CP, S> >::value, "array range types of the container");
    static_assert(std::is_unsigned<S>::value && std::is_signed<typename CB::difference_type>::value && sizeof(S) == sizeof(typename CB::difference_type), "size and difference types");
    static_assert(same<typename CB::capacity_type, Cap>::value, "capacity_type of the container");
    RES(e_size, K, S) RES(e_max_size, K, S) RES(e_empty, K, bool) RES(e_full, K, bool) RES(e_reserve, K, S) RES(e_alloc, K, A) RES(e_alloc, CB, A&) RES(e_lin, K, bool)
    static_assert(e_capacity<K>::value && same<typename std::decay<typename e_capacity<K>::type>::type, Cap>::value, "capacity() does not return capacity_type");
    RES(e_begin, CB, I) RES(e_end, CB, I) RES(e_begin, K, CI) RES(e_end, K, CI) RES(e_rbegin, CB, RI) RES(e_rend, CB, RI) RES(e_rbegin, K, CRI) RES(e_rend, K, CRI)
    RES(e_index, CB, T&) RES(e_at, CB, T&) RES(e_front, CB, T&) RES(e_back, CB, T&) RES(e_index, K, const T&) RES(e_at, K, const T&) RES(e_front, K, const T&) RES(e_back, K, const T&)
    RES(e_one, CB, std::pair<P, S>) RES(e_two, CB, std::pair<P, S>) RES(e_one, K, std::pair<CP, S>) RES(e_two, K, std::pair<CP, S>) RES(e_linearize, CB, P)
    RES(e_rotate, CB, void) RES(e_setcap, CB, void) RES(e_rsetcap, CB, void) RES(e_resize, CB, void) RES(e_rresize, CB, void) RES(e_resize2, CB, void) RES(e_rresize2, CB, void)
    RES(e_pb, CB, void) RES(e_pf, CB, void) RES(e_pbr, CB, void) RES(e_pfr, CB, void) RES(e_pb0, CB, void) RES(e_pf0, CB, void) RES(e_pob, CB, void) RES(e_pof, CB, void)
    RES(e_ins, CB, I) RES(e_rins, CB, I) RES(e_insr, CB, I) RES(e_rinsr, CB, I) RES(e_ins0, CB, I) RES(e_rins0, CB, I) RES(e_insn, CB, void) RES(e_rinsn, CB, void) RES(e_insi, CB, void) RES(e_rinsi, CB, void)
    RES(e_era, CB, I) RES(e_rera, CB, I) RES(e_eraR, CB, I) RES(e_reraR, CB, I) RES(e_clear, CB, void) RES(e_asn, CB, void) RES(e_asnc, CB, void) RES(e_asi, CB, void) RES(e_asic, CB, void) RES(e_swap, CB, void) RES(e_copyas, CB, CB&) RES(e_moveas, CB, CB&)
    NOCONST(e_linearize) NOCONST(e_rotate) NOCONST(e_setcap) NOCONST(e_rsetcap) NOCONST(e_resize) NOCONST(e_rresize) NOCONST(e_resize2) NOCONST(e_rresize2) NOCONST(e_pb) NOCONST(e_pf) NOCONST(e_pbr) NOCONST(e_pfr) NOCONST(e_pb0) NOCONST(e_pf0) NOCONST(e_pob) NOCONST(e_pof)
    NOCONST(e_ins) NOCONST(e_rins) NOCONST(e_insr) NOCONST(e_rinsr) NOCONST(e_ins0) NOCONST(e_rins0) NOCONST(e_insn) NOCONST(e_rinsn) NOCONST(e_insi) NOCONST(e_rinsi) NOCONST(e_era) NOCONST(e_rera) NOCONST(e_eraR) NOCONST(e_reraR) NOCONST(e_clear) NOCONST(e_asn) NOCONST(e_asnc) NOCONST(e_asi) NOCONST(e_asic) NOCONST(e_swap) NOCONST(e_copyas) NOCONST(e_moveas)
    // constructors
    static_assert(std::is_default_constructible<CB>::value && std::is_copy_constructible<CB>::value && std::is_copy_assignable<CB>::value && std::is_move_constructible<CB>::value && std::is_move_assignable<CB>::value, "a special member is missing");
    static_assert(std::is_constructible<CB, A>::value && !std::is_convertible<A, CB>::value, "construction from an allocator is not explicit"); static_assert(std::is_constructible<CB, Cap>::value && !std::is_convertible<Cap, CB>::value, "construction from a capacity is not explicit"); static_assert(std::is_constructible<CB, int>::value && !std::is_convertible<int, CB>::value && !std::is_convertible<N, CB>::value, "construction from a number is missing or not explicit");
    static_assert(std::is_constructible<CB, N, const A&>::value && std::is_constructible<CB, N, const T&>::value && std::is_constructible<CB, N, const T&, const A&>::value && std::is_constructible<CB, N, N, const T&>::value && std::is_constructible<CB, N, N, const T&, const A&>::value && std::is_constructible<CB, const T*, const T*>::value && std::is_constructible<CB, const T*, const T*, const A&>::value && std::is_constructible<CB, N, const T*, const T*>::value && std::is_constructible<CB, N, const T*, const T*, const A&>::value, "a documented constructor is missing");
    static_assert(!std::is_constructible<CB, I>::value && !std::is_constructible<CB, T*>::value, "a buffer can be constructed from a single iterator");
    static_assert(!std::is_constructible<bool, CB>::value && !std::is_convertible<CB, N>::value && !std::is_convertible<CB, const T*>::value, "a buffer converts to something else");
};
EXPR(i_deref, *std::declval<const X&>()) EXPR(i_index, std::declval<const X&>()[typename X::difference_type()]) EXPR(i_preinc, ++O) EXPR(i_predec, --O) EXPR(i_postinc, O++) EXPR(i_postdec, O--) EXPR(i_pluseq, O += typename X::difference_type()) EXPR(i_minuseq, O -= typename X::difference_type()) EXPR(i_plus, std::declval<const X&>() + typename X::difference_type()) EXPR(i_plusl, typename X::difference_type() + std::declval<const X&>()) EXPR(i_minus, std::declval<const X&>() - typename X::difference_type()) EXPR(i_arrow, std::declval<const X&>().operator->())
template <class X, class Y, class = void> struct comparable : std::false_type {};
template <class X, class Y> struct comparable<X, Y, typename voider<decltype(std::declval<const X&>() == std::declval<const Y&>()), decltype(std::declval<const X&>() < std::declval<const Y&>()), decltype(std::declval<const X&>() - std::declval<const Y&>())>::type> : std::true_type {};
template <class X, class Y, class = void> struct eq : std::false_type {}; template <class X, class Y> struct eq<X, Y, typename voider<decltype(std::declval<const X&>() == std::declval<const Y&>())>::type> : std::true_type {};
template <class X, class Y, class = void> struct lt : std::false_type {}; template <class X, class Y> struct lt<X, Y, typename voider<decltype(std::declval<const X&>() < std::declval<const Y&>())>::type> : std::true_type {};
template <class X, class Y, class = void> struct mi : std::false_type {}; template <class X, class Y> struct mi<X, Y, typename voider<decltype(std::declval<const X&>() - std::declval<const Y&>())>::type> : std::true_type {};
#define BOOLC(op, X, Y) same<decltype(std::declval<const X&>() op std::declval<const Y&>()), bool>::value
template <class CB, class X, class Ref, class Ptr> struct traits { typedef std::iterator_traits<X> Tr; typedef typename CB::difference_type D; typedef typename CB::value_type T;
    static_assert(std::is_convertible<typename Tr::iterator_category, std::random_access_iterator_tag>::value, "not a random access iterator"); static_assert(same<typename std::remove_cv<typename Tr::value_type>::type, T>::value && same<typename Tr::reference, Ref>::value && same<typename Tr::pointer, Ptr>::value && same<typename Tr::difference_type, D>::value, "iterator_traits of the iterator");
    static_assert(std::is_default_constructible<X>::value && std::is_copy_constructible<X>::value && std::is_copy_assignable<X>::value && std::is_destructible<X>::value && std::is_nothrow_destructible<X>::value, "the iterator is not regular");
    RES(i_deref, X, Ref) RES(i_index, X, Ref) RES(i_preinc, X, X&) RES(i_predec, X, X&) RES(i_postinc, X, X) RES(i_postdec, X, X) RES(i_pluseq, X, X&) RES(i_minuseq, X, X&) RES(i_plus, X, X) RES(i_plusl, X, X) RES(i_minus, X, X) RES(i_arrow, X, Ptr)
    static_assert(!i_preinc<const X>::value && !i_predec<const X>::value && !i_postinc<const X>::value && !i_postdec<const X>::value && !i_pluseq<const X>::value && !i_minuseq<const X>::value, "a const iterator can be moved"); };
template <class CB, class X, class Y> struct mixed { typedef typename CB::difference_type D;
    static_assert(BOOLC(==, X, Y) && BOOLC(!=, X, Y) && BOOLC(<, X, Y) && BOOLC(>, X, Y) && BOOLC(<=, X, Y) && BOOLC(>=, X, Y), "a comparison of iterators does not yield bool"); static_assert(same<decltype(std::declval<const X&>() - std::declval<const Y&>()), D>::value, "a difference of iterators is not a difference_type"); };
template <class CB, class Other> struct iterators {
    typedef typename CB::value_type T; typedef typename CB::iterator I; typedef typename CB::const_iterator CI; typedef typename CB::reverse_iterator RI; typedef typename CB::const_reverse_iterator CRI;
    static_assert(!same<I, CI>::value, "iterator and const_iterator are one type");
    static_assert(std::is_convertible<I, CI>::value, "iterator does not convert to const_iterator"); static_assert(!std::is_convertible<CI, I>::value && !std::is_constructible<I, CI>::value && !std::is_assignable<I&, CI>::value, "const_iterator converts to iterator"); static_assert(std::is_assignable<CI&, I>::value, "iterator cannot be assigned to const_iterator");
    static_assert(std::is_convertible<RI, CRI>::value, "conversions of the reverse iterators");
    static_assert(std::is_convertible<typename std::iterator_traits<RI>::iterator_category, std::random_access_iterator_tag>::value && same<typename std::iterator_traits<RI>::reference, T&>::value && same<typename std::iterator_traits<CRI>::reference, const T&>::value, "reverse iterator traits");
    static_assert(sizeof(traits<CB, I, T&, typename CB::pointer>) && sizeof(traits<CB, CI, const T&, typename CB::const_pointer>) && sizeof(mixed<CB, I, I>) && sizeof(mixed<CB, I, CI>) && sizeof(mixed<CB, CI, I>) && sizeof(mixed<CB, CI, CI>), "");
    static_assert(std::is_assignable<typename i_deref<I>::type, const T&>::value && !std::is_assignable<typename i_deref<CI>::type, const T&>::value, "writing through iterator or const_iterator");
    // iterators of other containers
    typedef typename Other::iterator OI; typedef typename Other::const_iterator OCI;
    static_assert(!eq<I, OI>::value && !eq<CI, OI>::value && !eq<I, OCI>::value && !lt<I, OI>::value && !lt<CI, OCI>::value && !mi<I, OI>::value && !mi<CI, OCI>::value, "iterators of buffers of different element types can be compared");
    static_assert(!std::is_convertible<I, OI>::value && !std::is_convertible<OI, CI>::value && !std::is_convertible<I, OCI>::value, "iterators of buffers of different element types convert");
    static_assert(!std::is_convertible<T*, I>::value && !std::is_convertible<const T*, CI>::value, "a pointer converts to an iterator");
};
template <class A, class B, class = void> struct assignable : std::false_type {};
template <class CB, class Other> struct pairs {
    static_assert(BOOLC(==, CB, CB) && BOOLC(!=, CB, CB) && BOOLC(<, CB, CB) && BOOLC(>, CB, CB) && BOOLC(<=, CB, CB) && BOOLC(>=, CB, CB), "a comparison of buffers does not yield bool");
#if BOOST_CB_ENABLE_DEBUG
    static_assert(std::is_base_of<Other, CB>::value || std::is_base_of<CB, Other>::value || (!eq<CB, Other>::value && !lt<CB, Other>::value), "buffers of different types can be compared");
#else
    static_assert(!eq<CB, Other>::value && !lt<CB, Other>::value, "buffers of different types can be compared");
    static_assert(!std::is_constructible<CB, const Other&>::value && !std::is_assignable<CB&, const Other&>::value && !std::is_convertible<Other&&, CB>::value, "buffers of different types convert");
#endif
};
template <class CB> struct plain : container<CB, typename CB::size_type> {
    RES(e_eb, CB, void) RES(e_ee, CB, void) NOCONST(e_eb) NOCONST(e_ee)
    template <class X, class = void> struct cb : std::false_type {}; template <class X> struct cb<X, typename voider<decltype(std::declval<X&>().cbegin()), decltype(std::declval<X&>().cend())>::type> : std::integral_constant<bool, same<decltype(std::declval<X&>().cbegin()), typename X::const_iterator>::value && same<decltype(std::declval<X&>().cend()), typename X::const_iterator>::value> {};
    static_assert(cb<CB>::value && cb<const CB>::value, "cbegin or cend"); };
template <class SO, class CB> struct space : container<SO, typename SO::capacity_type> { typedef typename SO::capacity_type Cap; typedef typename SO::size_type S;
    static_assert(std::is_convertible<S, Cap>::value && std::is_constructible<Cap, S, S>::value && std::is_convertible<const Cap&, S>::value && same<decltype(std::declval<const Cap&>().capacity()), S>::value && same<decltype(std::declval<const Cap&>().min_capacity()), S>::value, "capacity_control");
#if !BOOST_CB_ENABLE_DEBUG   // under debug support the inheritance is public
    static_assert(!std::is_convertible<SO*, CB*>::value && !std::is_convertible<SO&, CB&>::value && !std::is_convertible<const SO&, const CB&>::value && !std::is_constructible<CB, SO>::value && !std::is_constructible<CB, const SO&>::value && !std::is_constructible<SO, CB>::value && !std::is_constructible<SO, const CB&>::value && !std::is_assignable<CB&, const SO&>::value && !std::is_assignable<CB&, SO>::value && !std::is_assignable<SO&, const CB&>::value, "the space optimized buffer and the plain buffer convert into each other");
#endif
};
struct Cls { Cls(); explicit Cls(int); Cls(const Cls&); Cls(Cls&&); Cls& operator=(const Cls&); Cls& operator=(Cls&&); ~Cls(); bool operator==(const Cls&) const; bool operator<(const Cls&) const; int v; };
#define NOEXC(T) static_assert(sizeof(noexc<circular_buffer<T> >) && sizeof(noexc<circular_buffer_space_optimized<T> >), "");
struct Big { Big(); Big(const Big&); Big& operator=(const Big&); ~Big(); bool operator==(const Big&) const; bool operator<(const Big&) const; alignas(64) char c[640]; };   // large, over-aligned, no move members
NOEXC(Cls) NOEXC(double) NOEXC(char) NOEXC(Big)
#ifndef ONLY_NOEXCEPT
#define ALL(T, U) \
    static_assert(sizeof(plain<circular_buffer<T> >) && sizeof(space<circular_buffer_space_optimized<T>, circular_buffer<T> >), ""); \
    static_assert(sizeof(iterators<circular_buffer<T>, circular_buffer<U> >) && sizeof(iterators<circular_buffer_space_optimized<T>, circular_buffer_space_optimized<U> >), ""); \
    static_assert(sizeof(pairs<circular_buffer<T>, circular_buffer<U> >) && sizeof(pairs<circular_buffer_space_optimized<T>, circular_buffer_space_optimized<U> >) && sizeof(pairs<circular_buffer<T>, circular_buffer_space_optimized<T> >) && sizeof(pairs<circular_buffer_space_optimized<T>, circular_buffer<T> >), "");
ALL(Cls, int) ALL(double, float) ALL(Big, char) ALL(char, Big)
// the forward declarations name the same types
static_assert(same<fwd_plain<int>, circular_buffer<int, std::allocator<int> >*>::value && same<fwd_space<int>, circular_buffer_space_optimized<int, std::allocator<int> >*>::value, "the forward declaration declares another type");
// every operation for every kind of element
using std::allocator;
#define OPS(C) template void copying(C<int>&, const C<int>&, const int&); template void copying(C<Cop>&, const C<Cop>&, const Cop&); template void copying(C<Nodef>&, const C<Nodef>&, const Nodef&); template void copying(C<Nocmp>&, const C<Nocmp>&, const Nocmp&); \
    template void defaults(C<int>&); template void defaults(C<Cop>&); template void defaults(C<Mov>&); template void ints(C<int>&); template void ints(C<double>&); template void moving(C<Mov>&, C<Mov>&, const C<Mov>&, Mov); template void moving(C<int>&, C<int>&, const C<int>&, int); template void compare(const C<int>&, const C<int>&); template void compare(const C<std::pair<int, int> >&, const C<std::pair<int, int> >&);
OPS(circular_buffer) OPS(circular_buffer_space_optimized)
#define NEST(C) template void copying(C<C<int> >&, const C<C<int> >&, const C<int>&); template void compare(const C<C<int> >&, const C<C<int> >&); template void copying(C<int*>&, const C<int*>&, int* const&); template void copying(C<bool>&, const C<bool>&, const bool&);
NEST(circular_buffer) NEST(circular_buffer_space_optimized)
#endif
}
#ifndef ONLY_NOEXCEPT
template class boost::circular_buffer<int>; template class boost::circular_buffer_space_optimized<int>;
template class boost::circular_buffer<w::Cls>; template class boost::circular_buffer_space_optimized<w::Cls>;
#endif
