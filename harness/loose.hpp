// A string whose units do not lie next to each other in memory: between two
// units there is rubbish.  It offers what std::basic_string offers apart from
// data() and c_str().
#ifndef VERIF_LOOSE
#define VERIF_LOOSE
#include <cstring>
#include <initializer_list>
#include <iterator>
#include <stdexcept>
#include <string>
#include <vector>
#if VERIF_NATIVE == 2
static const long loose_step = 2; typedef unsigned char unit8; typedef unsigned unit32;
#else
static const long loose_step = 3; typedef char unit8; typedef int unit32;
#endif
template <size_t N> struct loose_plain { typedef std::string type; };
template <> struct loose_plain<4> { typedef std::basic_string<int> type; };
template <class T, bool Const> struct loose_it {
  typedef std::random_access_iterator_tag iterator_category; typedef T value_type; typedef long difference_type;
  typedef typename std::conditional<Const, const T, T>::type unit; typedef unit* pointer; typedef unit& reference;
  unit* at;
  loose_it() : at(nullptr) {}
  explicit loose_it(unit* a) : at(a) {}
  template <bool C2, class = typename std::enable_if<Const && !C2>::type> loose_it(const loose_it<T, C2>& o) : at(o.at) {}
  reference operator*() const { return *at; } pointer operator->() const { return at; } reference operator[](long n) const { return at[n * loose_step]; }
  loose_it& operator++() { at += loose_step; return *this; } loose_it operator++(int) { loose_it c(*this); at += loose_step; return c; }
  loose_it& operator--() { at -= loose_step; return *this; } loose_it operator--(int) { loose_it c(*this); at -= loose_step; return c; }
  loose_it& operator+=(long n) { at += n * loose_step; return *this; } loose_it& operator-=(long n) { at -= n * loose_step; return *this; }
  friend loose_it operator+(loose_it x, long n) { return x += n; } friend loose_it operator+(long n, loose_it x) { return x += n; } friend loose_it operator-(loose_it x, long n) { return x -= n; }
};
#define LOOSE_CMP(op) template <class T, bool A, bool B> bool operator op(const loose_it<T, A>& x, const loose_it<T, B>& y) { return x.at op y.at; }
LOOSE_CMP(==) LOOSE_CMP(!=) LOOSE_CMP(<) LOOSE_CMP(>) LOOSE_CMP(<=) LOOSE_CMP(>=)
#undef LOOSE_CMP
template <class T, bool A, bool B> long operator-(const loose_it<T, A>& x, const loose_it<T, B>& y) { return (x.at - y.at) / loose_step; }

template <class T> struct loose {
  typedef loose_it<T, false> iterator; typedef loose_it<T, true> const_iterator; typedef T value_type; typedef T& reference; typedef const T& const_reference; typedef T* pointer; typedef const T* const_pointer;
  typedef std::size_t size_type; typedef std::ptrdiff_t difference_type; typedef std::reverse_iterator<iterator> reverse_iterator; typedef std::reverse_iterator<const_iterator> const_reverse_iterator; typedef typename loose_plain<sizeof(T)>::type plain;
  static const size_type npos = (size_type)-1;
  std::vector<T> m;            // unit i at i * loose_step; one step more at the end
  static T rubbish(size_t i) { static const unsigned char x[] = { 0xBF, 0xF5, 0x80, 0xE2, 0x41 }; return (T)x[i % 5]; }
  void room(size_type n) { size_type was = m.size(); m.resize((n + 1) * loose_step); for (size_type i = was; i < m.size(); i++) m[i] = rubbish(i); if (n < size_type(-1)) m[n * loose_step] = T(); }
  loose() { room(0); }
  loose(const plain& s) { room(0); append(s.begin(), s.end()); }
  loose(const loose&) = default; loose(loose&&o) : m(o.m) {} loose& operator=(const loose&) = default;
  template <class I, class = typename std::iterator_traits<I>::iterator_category> loose(I f, I l) { room(0); append(f, l); }
  loose(size_type n, T c) { room(0); append(n, c); }
  loose& operator=(const plain& s) { return assign(s); }
  size_type size() const { return m.size() / loose_step - 1; } size_type length() const { return size(); } bool empty() const { return size() == 0; } size_type capacity() const { return size(); } size_type max_size() const { return 1u << 30; }
  T* p() { return m.data(); } const T* p() const { return m.data(); }
  iterator begin() { return iterator(p()); } iterator end() { return begin() + size(); } const_iterator begin() const { return const_iterator(p()); } const_iterator end() const { return begin() + size(); }
  const_iterator cbegin() const { return begin(); } const_iterator cend() const { return end(); }
  reverse_iterator rbegin() { return reverse_iterator(end()); } reverse_iterator rend() { return reverse_iterator(begin()); } const_reverse_iterator rbegin() const { return const_reverse_iterator(end()); } const_reverse_iterator rend() const { return const_reverse_iterator(begin()); }
  T& operator[](size_type i) { return m[i * loose_step]; } const T& operator[](size_type i) const { return m[i * loose_step]; }
  T& at(size_type i) { if (i >= size()) throw std::out_of_range("loose"); return (*this)[i]; } const T& at(size_type i) const { if (i >= size()) throw std::out_of_range("loose"); return (*this)[i]; }
  T& front() { return (*this)[0]; } T& back() { return (*this)[size() - 1]; } const T& front() const { return (*this)[0]; } const T& back() const { return (*this)[size() - 1]; }
  void reserve(size_type = 0) {} void shrink_to_fit() {} void clear() { room(0); } void push_back(T c) { size_type n = size(); room(n + 1); (*this)[n] = c; } void pop_back() { room(size() - 1); }
  void resize(size_type n, T c = T()) { size_type was = size(); room(n); for (size_type i = was; i < n; i++) (*this)[i] = c; }
  template <class I, class = typename std::iterator_traits<I>::iterator_category> loose& append(I f, I l) { plain s; for (; f != l; ++f) s.push_back((typename plain::value_type)*f); size_type n = size(); room(n + s.size()); for (size_type i = 0; i < s.size(); i++) (*this)[n + i] = s[i]; return *this; }
  loose& append(const T* s, size_type n) { return append(s, s + n); } loose& append(const T* s) { const T* e = s; while (*e) ++e; return append(s, e); } loose& append(size_type n, T c) { resize(size() + n, c); return *this; }
  loose& append(const plain& s) { return append(s.begin(), s.end()); } loose& append(const loose& s) { return append(s.begin(), s.end()); } loose& append(std::initializer_list<T> s) { return append(s.begin(), s.end()); }
  template <class X> loose& operator+=(const X& x) { return append(x); } loose& operator+=(T c) { push_back(c); return *this; }
  loose& assign(const plain& s) { clear(); return append(s); } loose& assign(const loose& s) { if (this != &s) *this = s; return *this; } template <class I, class = typename std::iterator_traits<I>::iterator_category> loose& assign(I f, I l) { plain s(f, l); return assign(s); } loose& assign(size_type n, T c) { clear(); return append(n, c); }
  iterator erase(const_iterator f, const_iterator l) { long a = f - cbegin(); plain s(cbegin(), f); s.append(l, cend()); assign(s); return begin() + a; } iterator erase(const_iterator f) { return erase(f, f + 1); }
  template <class I> iterator insert(const_iterator at, I f, I l) { long a = at - cbegin(); plain s(cbegin(), at); s.append(f, l); s.append(at, cend()); assign(s); return begin() + a; } iterator insert(const_iterator at, T c) { return insert(at, &c, &c + 1); }
  void swap(loose& o) { m.swap(o.m); }
  operator plain() const { return plain(begin(), end()); }
  friend bool operator==(const loose& a, const loose& b) { return plain(a) == plain(b); } friend bool operator!=(const loose& a, const loose& b) { return !(a == b); } friend bool operator<(const loose& a, const loose& b) { return plain(a) < plain(b); }
};
// a part of such a string
template <class T> struct loose_view {
  typedef loose_it<T, true> iterator, const_iterator; typedef T value_type; typedef const T& reference; typedef const T& const_reference; typedef const T* pointer; typedef const T* const_pointer;
  typedef std::size_t size_type; typedef std::ptrdiff_t difference_type; typedef std::reverse_iterator<iterator> reverse_iterator; typedef std::reverse_iterator<const_iterator> const_reverse_iterator; typedef typename loose_plain<sizeof(T)>::type plain;
  const_iterator f, l;
  loose_view() {} loose_view(const loose<T>& s, size_type at, size_type n) : f(s.begin() + at), l(f + n) {}
  size_type size() const { return l - f; } size_type length() const { return size(); } bool empty() const { return f == l; }
  const_iterator begin() const { return f; } const_iterator end() const { return l; } const_iterator cbegin() const { return f; } const_iterator cend() const { return l; }
  const_reverse_iterator rbegin() const { return const_reverse_iterator(l); } const_reverse_iterator rend() const { return const_reverse_iterator(f); }
  const T& operator[](size_type i) const { return f[i]; } const T& at(size_type i) const { if (i >= size()) throw std::out_of_range("loose"); return f[i]; } const T& front() const { return *f; } const T& back() const { return l[-1]; }
  operator plain() const { return plain(f, l); }
};
#endif
