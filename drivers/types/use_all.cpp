// every operation of both containers, lowered to IR for the queries over the whole library
#include "use.hpp"
#include <memory>
using boost::circular_buffer; using boost::circular_buffer_space_optimized;
namespace w {
struct Cls { int v; Cls(int x = 0); Cls(const Cls&); Cls(Cls&&); Cls& operator=(const Cls&); Cls& operator=(Cls&&); ~Cls(); bool operator==(const Cls&) const; bool operator<(const Cls&) const; };
#define OPS(C) template void copying(C<int>&, const C<int>&, const int&); template void copying(C<Cls>&, const C<Cls>&, const Cls&); template void defaults(C<int>&); template void defaults(C<Cls>&); template void defaults(C<Mov>&); template void ints(C<int>&); template void moving(C<Mov>&, C<Mov>&, const C<Mov>&, Mov); template void compare(const C<int>&, const C<int>&); template void compare(const C<Cls>&, const C<Cls>&);
OPS(circular_buffer) OPS(circular_buffer_space_optimized)
}
template class boost::circular_buffer<int>; template class boost::circular_buffer_space_optimized<int>; template class boost::circular_buffer<w::Cls>; template class boost::circular_buffer_space_optimized<w::Cls>;
