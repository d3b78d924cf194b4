// C34: the forward declarations alone, then the definitions
#include <boost/circular_buffer_fwd.hpp>
boost::circular_buffer<int>* f1(boost::circular_buffer<int>& b) { return &b; }
boost::circular_buffer_space_optimized<int>* f2(boost::circular_buffer_space_optimized<int>& b) { return &b; }
#ifdef BOTH
#include <boost/circular_buffer.hpp>
int f3(boost::circular_buffer<int>& b) { return b.size() ? b.front() : 0; }
int f4(boost::circular_buffer_space_optimized<int>& b) { return b.size() ? b.front() : 0; }
#endif
