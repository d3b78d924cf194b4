using boost::circular_buffer; using boost::circular_buffer_space_optimized;
namespace w {
struct Cls { int v; Cls(int x = 0); Cls(const Cls&); Cls& operator=(const Cls&); ~Cls(); };
bool operator==(const Cls&, const Cls&); bool operator<(const Cls&, const Cls&); std::istream& operator>>(std::istream&, Cls&);
}
#define EVERY(C, T) template void every(C<T>&, C<T>&, const C<T>&, const T&);
EVERY(circular_buffer, int) EVERY(circular_buffer, w::Cls) EVERY(circular_buffer_space_optimized, int) EVERY(circular_buffer_space_optimized, w::Cls)
