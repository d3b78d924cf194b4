// C34: every operation compiles in every language version and configuration
#include <boost/circular_buffer.hpp>
#include <iterator>
#include <istream>
#include "every.hpp"
#include "inst.hpp"
// elements that can only be moved, with the emulation of Boost.Move before C++11
#include <boost/move/core.hpp>
#include <boost/move/utility_core.hpp>
namespace w { class Mov98 { BOOST_MOVABLE_BUT_NOT_COPYABLE(Mov98) public: int v; explicit Mov98(int x = 0); Mov98(BOOST_RV_REF(Mov98)) BOOST_NOEXCEPT; Mov98& operator=(BOOST_RV_REF(Mov98)) BOOST_NOEXCEPT; ~Mov98(); }; }
template <class CB> void moving98(CB& a, CB& b, typename CB::value_type& x) {
    CB c, d(typename CB::capacity_type(5)); swap(a, b); a.swap(b); a.push_back(boost::move(x)); a.push_front(boost::move(x)); a.insert(a.begin(), boost::move(x)); a.rinsert(a.begin(), boost::move(x)); a.push_back(); a.push_front(); a.insert(a.begin()); a.rinsert(a.begin());
    a.pop_back(); a.pop_front(); a.erase(a.begin()); a.erase(a.begin(), a.end()); a.rerase(a.begin()); a.rerase(a.begin(), a.end()); a.clear(); a.linearize(); a.rotate(a.begin());
}
template void moving98(circular_buffer<w::Mov98>&, circular_buffer<w::Mov98>&, w::Mov98&);
#if __cplusplus >= 201103L   // relocation needs a copy or a move that is known not to throw
template void moving98(circular_buffer_space_optimized<w::Mov98>&, circular_buffer_space_optimized<w::Mov98>&, w::Mov98&);
#include "../use.hpp"
template void w::moving(circular_buffer<w::Mov>&, circular_buffer<w::Mov>&, const circular_buffer<w::Mov>&, w::Mov);
template void w::moving(circular_buffer_space_optimized<w::Mov>&, circular_buffer_space_optimized<w::Mov>&, const circular_buffer_space_optimized<w::Mov>&, w::Mov);
template void w::moving(circular_buffer<w::Cls>&, circular_buffer<w::Cls>&, const circular_buffer<w::Cls>&, w::Cls);
template void w::moving(circular_buffer_space_optimized<w::Cls>&, circular_buffer_space_optimized<w::Cls>&, const circular_buffer_space_optimized<w::Cls>&, w::Cls);
#endif
