// C24: programs that must not compile. Every case has a twin (GOOD) differing only in the violation, which must compile.
#include <boost/circular_buffer.hpp>
#include <memory>
#include <list>
#include <string>
#ifdef GOOD
#define PICK(bad, good) good
#else
#define PICK(bad, good) bad
#endif
template <class T> struct plain { typedef boost::circular_buffer<T> type; }; template <class T> struct space { typedef boost::circular_buffer_space_optimized<T> type; };
struct Mov { Mov(); Mov(Mov&&) noexcept; Mov& operator=(Mov&&) noexcept; Mov(const Mov&) = delete; Mov& operator=(const Mov&) = delete; };
struct No { explicit No(int); };   // no default constructor, not comparable
struct D : WHICH<int>::type {};
typedef WHICH<int>::type CB; typedef WHICH<Mov>::type MB; typedef WHICH<No>::type NB;
#if CASE == 1   // write through a const container
void f(PICK(const CB, CB)& c) { c[0] = 1; }
#elif CASE == 2
void f(PICK(const CB, CB)& c) { c.at(0) = 1; }
#elif CASE == 3
void f(PICK(const CB, CB)& c) { c.front() = 1; }
#elif CASE == 4
void f(PICK(const CB, CB)& c) { c.back() = 1; }
#elif CASE == 5
void f(PICK(const CB, CB)& c) { *c.begin() = 1; }
#elif CASE == 6
void f(PICK(const CB, CB)& c) { *c.rbegin() = 1; }
#elif CASE == 7
void f(PICK(const CB, CB)& c) { *c.array_one().first = 1; }
#elif CASE == 8
void f(PICK(const CB, CB)& c) { *c.array_two().first = 1; }
#elif CASE == 9   // a const container hands out no mutable iterator
void f(PICK(const CB, CB)& c) { CB::iterator i = c.begin(); (void)i; }
#elif CASE == 10
void f(PICK(const CB, CB)& c) { CB::reverse_iterator i = c.rbegin(); (void)i; }
#elif CASE == 11   // const_iterator to iterator
void f(CB& c) { CB::const_iterator i = c.begin(); PICK(CB::iterator, CB::const_iterator) j = i; (void)j; }
#elif CASE == 12
void f(CB& c) { CB::const_iterator i = c.begin(); PICK(CB::iterator, CB::const_iterator) j; j = i; }
#elif CASE == 13
void f(CB& c) { PICK(CB::const_reverse_iterator, CB::reverse_iterator) i = c.rbegin(); CB::reverse_iterator j(i); (void)j; }
#elif CASE == 14
void f(CB& c) { CB::const_iterator i = c.begin(); PICK(*i = 1, (void)*i); }
#elif CASE == 15
void f(CB& c) { PICK(CB::const_iterator, CB::iterator) i = c.begin(); i[0] = 1; }
#elif CASE == 16   // explicit constructors
void g(const CB&); void f() { PICK(g(5), g(CB(5))); }
#elif CASE == 17
CB f() { return PICK(std::allocator<int>(), CB(std::allocator<int>())); }
#elif CASE == 18   // comparing and mixing
bool f(WHICH<int>::type& a, WHICH<PICK(long, int)>::type& b) { return a == b; }
#elif CASE == 19
bool f(WHICH<int>::type& a, WHICH<PICK(long, int)>::type& b) { return a < b; }
#elif CASE == 20
void f(WHICH<int>::type& a, WHICH<PICK(long, int)>::type& b) { a.swap(b); }
#elif CASE == 21
bool f(WHICH<int>::type& a, WHICH<PICK(long, int)>::type& b) { return a.begin() == b.begin(); }
#elif CASE == 22
void f(WHICH<int>::type& a, WHICH<PICK(long, int)>::type& b) { a.rotate(b.begin()); }
#elif CASE == 23
void f(WHICH<int>::type& a, WHICH<PICK(long, int)>::type& b) { a.erase(b.begin()); }
#elif CASE == 24   // a move only element is never copied
void f(MB& b, Mov& m) { b.push_back(PICK(m, std::move(m))); }
#elif CASE == 25
void f(MB& b, Mov& m) { b.push_front(PICK(m, std::move(m))); }
#elif CASE == 26
void f(MB& b, Mov& m) { b.insert(b.begin(), PICK(m, std::move(m))); }
#elif CASE == 27
void f(MB& b, Mov& m) { b.rinsert(b.begin(), PICK(m, std::move(m))); }
#elif CASE == 28
void f(MB& b) { MB c(PICK(b, std::move(b))); }
#elif CASE == 29
void f(MB& b, MB& c) { c = PICK(b, std::move(b)); }
#elif CASE == 30   // no default constructor
void f(NB& b) { PICK(b.push_back(), b.push_back(No(1))); }
#elif CASE == 31
void f(NB& b) { PICK(b.resize(3), b.resize(3, No(1))); }
#elif CASE == 32
void f(NB& b) { PICK(b.insert(b.begin()), b.insert(b.begin(), No(1))); }
#elif CASE == 33   // ranges of something else
void f(CB& b, const PICK(std::string, int)* p) { b.assign(p, p); }
#elif CASE == 34
void f(const PICK(std::string, int)* p) { CB b(p, p); }
#elif CASE == 35
void f(CB& b, const PICK(std::string, int)* p) { b.insert(b.begin(), p, p); }
#elif CASE == 36
void f(CB& b, const PICK(std::string, int)* p) { b.rinsert(b.begin(), p, p); }
#elif CASE == 37   // the space optimized buffer is not a plain one
void f(boost::circular_buffer_space_optimized<int>& s, boost::circular_buffer<int>& p) { boost::circular_buffer<int>& r = PICK(s, p); (void)r; }
#elif CASE == 38
void f(boost::circular_buffer_space_optimized<int>& s, boost::circular_buffer<int>& p) { const boost::circular_buffer<int>* r = PICK(&s, &p); (void)r; }
#elif CASE == 39
void f(boost::circular_buffer_space_optimized<int>& s, boost::circular_buffer<int>& p) { PICK(s, p).swap(p); }
#elif CASE == 40
void f(boost::circular_buffer_space_optimized<int>& s, boost::circular_buffer<int>& p) { p = PICK(s, p); }
#elif CASE == 41   // operations the space optimized buffer does not have
void f(boost::circular_buffer_space_optimized<int>& s, boost::circular_buffer<int>& p) { PICK(s, p).erase_begin(1); }
#elif CASE == 42
void f(boost::circular_buffer_space_optimized<int>& s, boost::circular_buffer<int>& p) { PICK(s, p).erase_end(1); }
#elif CASE == 43   // modifying a const container
void f(PICK(const CB, CB)& c) { c.linearize(); }
#elif CASE == 44
void f(PICK(const CB, CB)& c) { c.push_back(1); }
#elif CASE == 45
void f(PICK(const CB, CB)& c, CB& d) { swap(c, d); }
#elif CASE == 46   // comparison needs comparable elements
bool f(NB& a, NB& b, CB& c) { (void)b; return PICK(a == b, c == c); }
#elif CASE == 47
bool f(NB& a, NB& b, CB& c) { (void)b; return PICK(a < b, c < c); }
#elif CASE == 48   // pointers are no iterators
void f(CB& c) { CB::iterator i = PICK(&c[0], c.begin()); (void)i; }
#elif CASE == 49
void f(CB& c) { c.erase(PICK(&c[0], c.begin())); }
#elif CASE == 50   // internals
void f(CB& c) { (void)PICK(c.m_size, c.size()); }
#elif CASE == 51
void f(CB& c) { (void)PICK(c.m_buff, c.begin()); }
#elif CASE == 52   // moving out of a const container
void f(PICK(const MB, MB)& b) { MB c(std::move(b)); }
#elif CASE == 53   // equality of containers with different allocators or kinds
template <class T> struct A2 : std::allocator<T> { template <class U> struct rebind { typedef A2<U> other; }; };
bool f(boost::circular_buffer<int>& a, boost::circular_buffer<int, PICK(A2<int>, std::allocator<int>) >& b) { return a == b; }
#elif CASE == 54
bool f(CB& c, std::list<int>& l) { return PICK(c == l, c == c); }
#endif
