// C34: the headers leave the global namespace to the user
#include <boost/circular_buffer_fwd.hpp>
#include <boost/circular_buffer.hpp>
#include <boost/circular_buffer_fwd.hpp>
#include <boost/circular_buffer.hpp>
#define USER(X) X(list) X(vector) X(pair) X(copy) X(distance) X(allocator) X(advance) X(swap) X(equal) X(iterator) X(move) X(forward) X(find) X(fill) X(rotate) X(circular_buffer) X(circular_buffer_space_optimized) X(cb_details) X(capacity_control) X(to_address) X(is_convertible) X(allocator_traits) X(move_if_noexcept) X(adl_move_swap) X(debug_iterator_base) X(capacity_type) X(size_type) X(value_type) X(pointer)
#define DECLARE(n) extern int n;
#define USE(n) + n
USER(DECLARE)
int user() { return 0 USER(USE); }
