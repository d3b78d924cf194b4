// only the forward declarations
#pragma once
#include <boost/circular_buffer_fwd.hpp>
namespace w { template <class T> using fwd_plain = boost::circular_buffer<T>*; template <class T> using fwd_space = boost::circular_buffer_space_optimized<T>*; }
