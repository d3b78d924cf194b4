// A pointer class and an allocator handing it out (never executed, only type checked).
#pragma once
#include <cstddef>
#include <iterator>
#include <list>
#include <utility>
namespace w {
template <class T> struct AddRef { typedef T& type; }; template <> struct AddRef<void> { typedef void type; }; template <> struct AddRef<const void> { typedef void type; };
template <class T> class Fancy {
    T* p;
public:
    typedef T element_type; typedef typename std::remove_cv<T>::type value_type; typedef std::ptrdiff_t difference_type; typedef Fancy pointer; typedef typename AddRef<T>::type reference; typedef std::random_access_iterator_tag iterator_category;
    template <class U> using rebind = Fancy<U>;
    Fancy(T* q = 0) : p(q) {}
    template <class U, class = typename std::enable_if<std::is_convertible<U*, T*>::value>::type> Fancy(const Fancy<U>& o) : p(o.get()) {}
    template <class U, class = typename std::enable_if<!std::is_convertible<U*, T*>::value>::type, class = void> explicit Fancy(const Fancy<U>& o) : p(static_cast<T*>(o.get())) {}
    T* get() const { return p; }
    reference operator*() const { return *p; }
    T* operator->() const { return p; }
    reference operator[](difference_type i) const { return p[i]; }
    Fancy& operator++() { ++p; return *this; } Fancy operator++(int) { Fancy t(*this); ++p; return t; }
    Fancy& operator--() { --p; return *this; } Fancy operator--(int) { Fancy t(*this); --p; return t; }
    Fancy& operator+=(difference_type n) { p += n; return *this; } Fancy& operator-=(difference_type n) { p -= n; return *this; }
    friend Fancy operator+(Fancy a, difference_type n) { return a += n; } friend Fancy operator+(difference_type n, Fancy a) { return a += n; } friend Fancy operator-(Fancy a, difference_type n) { return a -= n; }
    friend bool operator==(const Fancy& a, T* b) { return a.p == b; } friend bool operator!=(const Fancy& a, T* b) { return a.p != b; } friend bool operator==(T* b, const Fancy& a) { return a.p == b; } friend bool operator!=(T* b, const Fancy& a) { return a.p != b; }
    explicit operator bool() const { return p != 0; }
    bool operator!() const { return p == 0; }
    static Fancy pointer_to(typename AddRef<T>::type r) { return Fancy(&r); }
};
template <class T, class U> std::ptrdiff_t operator-(const Fancy<T>& a, const Fancy<U>& b) { return a.get() - b.get(); }
#define W_CMP(op) template <class T, class U> bool operator op(const Fancy<T>& a, const Fancy<U>& b) { return a.get() op b.get(); }
W_CMP(==) W_CMP(!=) W_CMP(<) W_CMP(>) W_CMP(<=) W_CMP(>=)
template <class T> struct FAlloc {
    typedef T value_type; typedef Fancy<T> pointer; typedef Fancy<const T> const_pointer; typedef Fancy<void> void_pointer; typedef Fancy<const void> const_void_pointer; typedef std::size_t size_type; typedef std::ptrdiff_t difference_type;
    template <class U> struct rebind { typedef FAlloc<U> other; };
    FAlloc() {} template <class U> FAlloc(const FAlloc<U>&) {}
    pointer allocate(std::size_t n); void deallocate(pointer p, std::size_t n);
    friend bool operator==(const FAlloc&, const FAlloc&) { return true; } friend bool operator!=(const FAlloc&, const FAlloc&) { return false; }
};
// the least an allocator must provide
template <class T> struct Min {
    typedef T value_type; Min() {} template <class U> Min(const Min<U>&) {}
    T* allocate(std::size_t n); void deallocate(T* p, std::size_t n);
    friend bool operator==(const Min&, const Min&) { return true; } friend bool operator!=(const Min&, const Min&) { return false; }
};
// no default constructor
template <class T> struct State {
    typedef T value_type; int id; explicit State(int i) : id(i) {} template <class U> State(const State<U>& o) : id(o.id) {}
    T* allocate(std::size_t n); void deallocate(T* p, std::size_t n);
    friend bool operator==(const State& a, const State& b) { return a.id == b.id; } friend bool operator!=(const State& a, const State& b) { return a.id != b.id; }
};
template <class T> struct In { typedef std::input_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef const T* pointer; typedef const T& reference;
    const T& operator*() const; const T* operator->() const; In& operator++(); In operator++(int); friend bool operator==(const In&, const In&) { return true; } friend bool operator!=(const In&, const In&) { return false; } };
}
