// Shows each genuine defect against the real code: repro N exits 0 if the property holds, 1 if it is broken.
#include <boost/circular_buffer.hpp>
#include <cstdio>
#include <cstdlib>
#include <new>
#include <list>
#include <sstream>
#include <iterator>
#include <stdexcept>
#include <map>
#include <set>
using namespace boost;
static int fail_at = -1, ops = 0; static std::set<const void*> live; static bool bad = false;
static void tick() { if (fail_at >= 0 && ops++ == fail_at) throw 42; }
struct T { int v; T(int x = 0) : v(x) { live.insert(this); } T(const T& o) : v(0) { if (!live.count(&o)) { bad = true; std::puts("reads a dead element"); } tick(); v = o.v; live.insert(this); }
    T& operator=(const T& o) { if (!live.count(this) || !live.count(&o)) { bad = true; std::puts("assigns a dead element"); } tick(); v = o.v; return *this; }
    ~T() { if (!live.erase(this)) { bad = true; std::puts("destroys a dead element"); } } };
static std::map<void*, std::size_t> blocks; static bool fail_alloc = false;
template <class U> struct A { typedef U value_type; A() {} template <class V> A(const A<V>&) {}
    U* allocate(std::size_t n) { if (fail_alloc) throw std::bad_alloc(); void* p = std::malloc(n * sizeof(U)); blocks[p] = n; return (U*)p; }
    void deallocate(U* p, std::size_t n) { if (!blocks.count(p) || blocks[p] != n) { bad = true; std::puts("wrong block size"); } blocks.erase(p); std::free(p); }
    bool operator==(const A&) const { return true; } bool operator!=(const A&) const { return false; } };
typedef circular_buffer<T, A<T> > CB; typedef circular_buffer_space_optimized<T, A<T> > SO;
struct It { typedef std::forward_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef const T* pointer; typedef const T& reference; const T* p; int* left;
    reference operator*() const { return *p; } It& operator++() { if (left && (*left)-- == 0) throw 43; ++p; return *this; } It operator++(int) { It r = *this; ++*this; return r; } bool operator==(const It& o) const { return p == o.p; } bool operator!=(const It& o) const { return p != o.p; } };
static bool clean(const char* w, std::size_t base = 0) { if (live.size() != base || !blocks.empty()) { std::printf("%s: %zu live elements, %zu blocks\n", w, live.size() - base, blocks.size()); return false; } return true; }
int main(int c, char** v) { int n = std::atoi(v[1]); bool ok = true;
    if (n == 1) { // capacity constructor from a single pass range, element copy throws
        std::istringstream s("1 2 3"); fail_at = 2; try { CB b(3, std::istream_iterator<int>(s), std::istream_iterator<int>()); } catch (int) {} fail_at = -1; 
        std::list<T> l; (void)l; // istream_iterator<int> converts: use input tagged iterator over T
        T src[3]; struct In : It { typedef std::input_iterator_tag iterator_category; }; 
        ok = clean("setup", 3);
        struct I2 { typedef std::input_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef const T* pointer; typedef const T& reference; const T* p; reference operator*() const { return *p; } I2& operator++() { ++p; return *this; } I2 operator++(int) { I2 r = *this; ++p; return r; } bool operator==(const I2& o) const { return p == o.p; } bool operator!=(const I2& o) const { return p != o.p; } };
        ops = 0; fail_at = 1; try { I2 b = { src }, e = { src + 3 }; CB x(3, b, e); } catch (int) {} fail_at = -1; ok = clean("input range constructor", 3) && ok; }
    if (n == 2) { T x; ops = 0; fail_at = 1; try { CB b(5, 2, x); } catch (int) {} fail_at = -1; ok = clean("capacity/n constructor", 1); }
    if (n == 3) { std::istringstream s("1 2 3"); circular_buffer_space_optimized<int> b(circular_buffer_space_optimized<int>::capacity_type(5)); b.insert(b.begin(), std::istream_iterator<int>(s), std::istream_iterator<int>()); std::printf("size %zu\n", b.size()); ok = b.size() == 3 && b[0] == 1 && b[2] == 3; }
    if (n == 4) { T src[4]; { SO b(SO::capacity_type(2)); ops = 0; fail_at = 1; try { b.assign(SO::capacity_type(4), src, src + 4); } catch (int) {} fail_at = -1; std::printf("capacity %zu\n", b.capacity().capacity()); ok = b.capacity().capacity() == 2;
          SO d(SO::capacity_type(4)); for (int i = 0; i < 4; ++i) d.push_back(T(i)); fail_alloc = true; try { d.assign(SO::capacity_type(1), src, src + 4); } catch (std::bad_alloc&) {} fail_alloc = false; std::printf("size %zu capacity %zu\n", d.size(), d.capacity().capacity()); ok = ok && d.size() <= d.capacity().capacity(); } }
    if (n == 5) { for (int r = 0; r < 2; ++r) { SO d(SO::capacity_type(4)); for (int i = 0; i < 4; ++i) d.push_back(T(i)); fail_alloc = true; try { if (r) d.rset_capacity(SO::capacity_type(2)); else d.set_capacity(SO::capacity_type(2)); } catch (std::bad_alloc&) { std::printf("size %zu capacity %zu\n", d.size(), d.capacity().capacity()); ok = ok && d.size() == 4 && d.capacity().capacity() == 4; } fail_alloc = false; } }
    if (n == 7) { { CB b(2); b.push_back(T(1)); b.push_back(T(2)); b.resize(5, b[0]); } { CB b(2); b.push_back(T(1)); b.push_back(T(2)); b.rresize(5, b[0]); } ok = clean("resize with own element") && !bad; }
    if (n == 8) { typedef circular_buffer_space_optimized<int> S; S b((S::capacity_type(std::size_t(-1)))); b.push_back(1); try { b.insert(b.end(), std::size_t(-3), 7); ok = false; } catch (std::length_error&) {} ok = ok && b.size() == 1;
        S d(S::capacity_type(4)); d.push_back(1); d.push_back(2); d.insert(d.end(), std::size_t(-1), 7); ok = ok && d.size() == 4 && d[0] == 7; }
    if (n == 9) { { T x; CB b(6); b.push_back(T(1)); ops = 0; fail_at = 2; try { b.rinsert(b.begin(), 4, x); } catch (int) {} fail_at = -1; std::printf("size %zu\n", b.size()); for (std::size_t i = 0; i < b.size(); ++i) if (!live.count(&b[i])) ok = false; } ok = clean("rinsert") && ok; }
    if (n == 10) { T src[4]; for (int k = 0; k < 12; ++k) { int left = k; It b = { src, &left }, e = { src + 4, 0 }; try { CB x(4, b, e); } catch (int) {} ok = clean("forward range constructor", 4) && ok; left = k; try { CB x(2, b, e); } catch (int) {} ok = clean("truncating range constructor", 4) && ok; left = k; { CB x(1); try { x.assign(b, e); } catch (int) {} } ok = clean("range assign", 4) && ok; if (!ok) break; } }
    if (n == 11) { SO b(SO::capacity_type(8)); b.push_back(T(1)); b.push_back(T(2)); for (int i = 0; i < 6; ++i) b.push_back(b[0]); for (std::size_t i = 2; i < 8; ++i) ok = ok && b[i].v == 1; ok = ok && !bad; }
    if (n == 12) { circular_buffer<int> b(4); b.push_back(1); b.push_back(2); b.push_back(3); b.insert(b.begin(), b[1]); std::printf("%d\n", b[0]); ok = b[0] == 2; }
    if (n == 13) { SO s(SO::capacity_type(9)), d(SO::capacity_type(2)); for (int i = 0; i < 2; ++i) { s.push_back(T(i)); d.push_back(T(7 + i)); } ops = 0; fail_at = 1; try { d = s; } catch (int) {} fail_at = -1; std::printf("size %zu\n", d.size()); ok = d.size() == 2 && d[0].v == 7 && d[1].v == 8 && d.capacity().capacity() == 2; }
    if (n == 14) { T src[100]; struct I2 { typedef std::input_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef const T* pointer; typedef const T& reference; const T* p; reference operator*() const { return *p; } I2& operator++() { ++p; return *this; } I2 operator++(int) { I2 r = *this; ++p; return r; } bool operator==(const I2& o) const { return p == o.p; } bool operator!=(const I2& o) const { return p != o.p; } };
        CB b(200); for (int i = 0; i < 100; ++i) b.push_back(T(i)); I2 f = { src }, l = { src + 100 }; ops = 0; fail_at = 1 << 30; b.insert(b.begin(), f, l); fail_at = -1; std::printf("%d element copies and assignments for 200 elements\n", ops); ok = ops <= 1000; }
    std::puts(ok && !bad ? "holds" : "BROKEN"); return ok && !bad ? 0 : 1; }
