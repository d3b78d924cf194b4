// C34: min and max may be macros; everything outside the library is included before they are defined
#include <algorithm>
#include <cassert>
#include <cstring>
#include <deque>
#include <functional>
#include <istream>
#include <iterator>
#include <limits>
#include <list>
#include <memory>
#include <new>
#include <numeric>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
#define min(a, b) MIN_IS_A_MACRO(a b)
#define max(a, b) MAX_IS_A_MACRO(a b)
#include <boost/circular_buffer.hpp>
#include "every.hpp"
#include "inst.hpp"
