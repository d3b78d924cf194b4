// Every operation of the interface in C++03, called once (never executed, only type checked).
#ifndef HYG_EVERY
#define HYG_EVERY
template <class CB> void every(CB& a, CB& b, const CB& c, const typename CB::value_type& x) {
    typedef typename CB::value_type T; typedef typename CB::allocator_type A; typedef typename CB::capacity_type Cap; A al = c.get_allocator(); (void)a.get_allocator();
    CB d, e(al), f(Cap(5)), f2(Cap(5), al), g(c), h(5, x), h2(5, x, al), i(7, 5, x), i2(7, 5, x, al); a = c; swap(a, b); a.swap(b);
    (void)c.size(); (void)c.max_size(); (void)c.empty(); (void)c.full(); (void)c.reserve(); (void)c.capacity(); (void)c.is_linearized();
    (void)a.front(); (void)c.front(); (void)a.back(); (void)c.back(); (void)a[0]; (void)c[0]; (void)a.at(0); (void)c.at(0); (void)a.array_one(); (void)c.array_one(); (void)a.array_two(); (void)c.array_two();
    typename CB::iterator it = a.begin(); it = a.end(); typename CB::const_iterator ci = c.begin(); ci = c.end(); ci = it; typename CB::reverse_iterator r = a.rbegin(); r = a.rend(); typename CB::const_reverse_iterator cr = c.rbegin(); cr = c.rend();
    (void)(it == ci); (void)(ci == it); (void)(it != ci); (void)(it < ci); (void)(ci > it); (void)(it <= ci); (void)(it >= ci); (void)(ci - it); (void)(it - ci); it += 1; it -= 1; (void)(it + 1); (void)(it - 1); (void)(1 + it); ++it; --it; it++; it--; (void)*it; (void)it[0]; (void)it.operator->();
    a.push_back(x); a.push_front(x); a.push_back(); a.push_front(); a.pop_back(); a.pop_front(); a.insert(a.begin(), x); a.rinsert(a.begin(), x); a.insert(a.begin()); a.rinsert(a.begin()); a.insert(a.begin(), 3, x); a.rinsert(a.begin(), 3, x);
    const T* p = 0; CB j(p, p), j2(p, p, al), k(5, p, p), k2(5, p, p, al), l(c.begin(), c.end()); a.assign(p, p); a.assign(5, p, p); a.assign(5, x); a.assign(7, 5, x); a.insert(a.begin(), p, p); a.rinsert(a.begin(), p, p);
    std::istream_iterator<T> s, t; CB m(s, t), n(5, s, t); a.assign(s, t); a.assign(5, s, t); a.insert(a.begin(), s, t); a.rinsert(a.begin(), s, t);
    a.erase(a.begin()); a.erase(a.begin(), a.end()); a.rerase(a.begin()); a.rerase(a.begin(), a.end()); a.clear(); a.resize(5); a.resize(5, x); a.rresize(5); a.rresize(5, x); a.set_capacity(5); a.rset_capacity(5); a.linearize(); a.rotate(a.begin()); a.rotate(c.begin());
    (void)(a == b); (void)(a != b); (void)(a < b); (void)(a > b); (void)(a <= b); (void)(a >= b);
}
#endif
