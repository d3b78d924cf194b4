// Every operation of the interface, called once (never executed, only type checked).
#pragma once
#include "fancy.hpp"
#include <boost/circular_buffer.hpp>
namespace w {
struct Cop { int v; Cop(int x = 0) : v(x) {} Cop(const Cop& o) : v(o.v) {} Cop& operator=(const Cop& o) { v = o.v; return *this; } ~Cop() {} };
struct Nodef { int v; explicit Nodef(int x) : v(x) {} };
struct Mov { int v; Mov(int x = 0) : v(x) {} Mov(Mov&& o) noexcept : v(o.v) {} Mov& operator=(Mov&& o) noexcept { v = o.v; return *this; } Mov(const Mov&) = delete; Mov& operator=(const Mov&) = delete; };
struct Nocmp { int v; };
template <class CB> void queries(CB& a, const CB& c) {
    (void)c.size(); (void)c.max_size(); (void)c.empty(); (void)c.full(); (void)c.reserve(); (void)c.capacity(); (void)c.is_linearized(); (void)c.get_allocator(); (void)a.get_allocator();
    (void)a.front(); (void)c.front(); (void)a.back(); (void)c.back(); (void)a[0]; (void)c[0]; (void)a.at(0); (void)c.at(0); (void)a.array_one(); (void)c.array_one(); (void)a.array_two(); (void)c.array_two();
    typename CB::iterator it = a.begin(); it = a.end(); typename CB::const_iterator ci = c.begin(); ci = c.end(); ci = it;
    typename CB::reverse_iterator r = a.rbegin(); r = a.rend(); typename CB::const_reverse_iterator cr = c.rbegin(); cr = c.rend();
    (void)(it == ci); (void)(ci == it); (void)(it != ci); (void)(it < ci); (void)(ci > it); (void)(it <= ci); (void)(it >= ci); (void)(ci - it); (void)(it - ci); it += 1; it -= 1; (void)(it + 1); (void)(it - 1); (void)(1 + it); ++it; it++; --it; it--; (void)*it; (void)it[0]; (void)*ci; (void)ci[0]; ++ci; ci++; --ci; ci--; ci += 1; ci -= 1; (void)(1 + ci);
}
template <class CB> void moving(CB& a, CB& b, const CB& c, typename CB::value_type x) {   // for every element type that can be moved
    typedef typename CB::value_type T;
    queries(a, c); CB d; CB e(typename CB::capacity_type(5)); CB f(std::move(b)); CB g(c.get_allocator()); a = std::move(b); a.swap(b); swap(a, b);
    a.push_back(std::move(x)); a.push_front(std::move(x)); a.push_back(T(1)); a.insert(a.begin(), std::move(x)); a.rinsert(a.begin(), std::move(x)); a.pop_back(); a.pop_front();
    a.erase(a.begin()); a.erase(a.begin(), a.end()); a.rerase(a.begin()); a.rerase(a.begin(), a.end()); a.clear(); a.set_capacity(5); a.rset_capacity(5); a.linearize(); a.rotate(c.begin()); a.rotate(a.begin());
}
template <class CB> void defaults(CB& a) { a.push_back(); a.push_front(); a.insert(a.begin()); a.rinsert(a.begin()); }
template <class CB, class I> void range(CB& a, I f, I l) {
    typename CB::allocator_type al = a.get_allocator(); CB d1(f, l, al); CB d2(5, f, l, al); CB d3(typename CB::capacity_type(5), f, l, al); a.assign(f, l); a.assign(5, f, l); a.insert(a.begin(), f, l); a.rinsert(a.begin(), f, l); }
template <class CB> void copying(CB& a, const CB& c, const typename CB::value_type& x) {   // for every element type that can be copied
    typedef typename CB::value_type T; typename CB::allocator_type al = a.get_allocator();
    queries(a, c); CB d(al), e(5, al), f(c), g(std::move(f)), h(5, x, al), i(7, 5, x, al); a = c; a = std::move(g); a.swap(h); swap(a, h);
    a.push_back(x); a.push_front(x); a.insert(a.begin(), x); a.rinsert(a.begin(), x); a.insert(a.begin(), 3, x); a.rinsert(a.begin(), 3, x); a.resize(5, x); a.rresize(5, x); a.assign(5, x); a.assign(7, 5, x);
    a.pop_back(); a.pop_front(); a.erase(a.begin()); a.erase(a.begin(), a.end()); a.rerase(a.begin()); a.rerase(a.begin(), a.end()); a.clear(); a.set_capacity(5); a.rset_capacity(5); a.linearize(); a.rotate(c.begin()); a.rotate(a.begin());
    const T* p = 0; range(a, p, p); std::list<T>* l = 0; range(a, l->begin(), l->end()); range(a, w::In<T>(), w::In<T>()); range(a, c.begin(), c.end()); range(a, a.rbegin(), a.rend());
}
template <class CB> void ints(CB& a) { typename CB::allocator_type al = a.get_allocator(); CB d(3, 1, al), e(5, 3, 1, al); a.assign(3, 1); a.assign(5, 3, 1); a.insert(a.begin(), 3, 1); a.rinsert(a.begin(), 3, 1); a.resize(3); a.rresize(3); }
template <class CB> void compare(const CB& a, const CB& b) { (void)(a == b); (void)(a != b); (void)(a < b); (void)(a > b); (void)(a <= b); (void)(a >= b); }
}
