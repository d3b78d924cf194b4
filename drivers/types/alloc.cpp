// C22: every operation is well formed for allocators with a pointer class, for minimal and for stateful allocators
#include "use.hpp"
namespace w {
#define SET(T, A) template void copying(T<int, A<int> >&, const T<int, A<int> >&, const int&); template void ints(T<int, A<int> >&); template void compare(const T<int, A<int> >&, const T<int, A<int> >&); template void copying(T<Cop, A<Cop> >&, const T<Cop, A<Cop> >&, const Cop&);
#define SETM(T, A) SET(T, A) template void defaults(T<Cop, A<Cop> >&); template void moving(T<Mov, A<Mov> >&, T<Mov, A<Mov> >&, const T<Mov, A<Mov> >&, Mov);
using boost::circular_buffer; using boost::circular_buffer_space_optimized;
SETM(circular_buffer, FAlloc) SETM(circular_buffer, Min) SET(circular_buffer, State)
SETM(circular_buffer_space_optimized, FAlloc) SETM(circular_buffer_space_optimized, Min) SET(circular_buffer_space_optimized, State)
// the storage is kept in the allocator's pointer type
template <class CB, class P> void stored() { static_assert(std::is_same<typename CB::pointer, P>::value, "the pointer type of the container is not the allocator's"); static_assert(std::is_same<decltype(std::declval<CB&>().linearize()), P>::value, "linearize does not return the allocator's pointer type"); static_assert(std::is_same<decltype(std::declval<CB&>().array_one().first), P>::value, "array_one does not return the allocator's pointer type"); }
template void stored<circular_buffer<int, FAlloc<int> >, Fancy<int> >(); template void stored<circular_buffer_space_optimized<int, FAlloc<int> >, Fancy<int> >();
}
template class boost::circular_buffer<int, w::FAlloc<int> >; template class boost::circular_buffer<int, w::Min<int> >;
template class boost::circular_buffer_space_optimized<int, w::FAlloc<int> >; template class boost::circular_buffer_space_optimized<int, w::Min<int> >;
