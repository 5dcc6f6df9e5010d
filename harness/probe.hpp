// A native string and iterators that note which positions of a memory block
// are read and written.  Positions are relative to the start of the text.
#ifndef VERIF_PROBE
#define VERIF_PROBE
#include "common.hpp"
struct probe_log {
  long rlo = 1L << 40, rhi = -(1L << 40), wlo = 1L << 40, whi = -(1L << 40); bool wild = false;
  void reset() { *this = probe_log(); }
  std::vector<int>* all = nullptr;           // every position, if wanted
  void rd(long p) { if (all) all->push_back((int)p); rlo = std::min(rlo, p); rhi = std::max(rhi, p); }
  void wr(long p) { if (all) all->push_back((int)p); wlo = std::min(wlo, p); whi = std::max(whi, p); }
  ints reads() const { return rlo > rhi ? ints{} : ints{ (int)rlo, (int)rhi }; }
  ints writes() const { return wlo > whi ? ints{} : ints{ (int)wlo, (int)whi }; }
};
static probe_log plog;
// the memory around the text: positions -margin .. len+margin-1; anything
// further away is not dereferenced but reads as 0
static const long probe_margin = 64;

template <class T> struct probe_mem { std::vector<T> m; long len = 0;
  T get(long p) { plog.rd(p); long k = p + probe_margin; if (k < 0 || k >= (long)m.size()) { plog.wild = true; return T(); } return m[k]; }
  void set(long p, T v) { plog.wr(p); long k = p + probe_margin; if (k < 0 || k >= (long)m.size()) { plog.wild = true; return; } m[k] = v; } };

template <class T> struct probe_ref { probe_mem<T>* b; long p;
  operator T() const { return b->get(p); }
  const probe_ref& operator=(T v) const { b->set(p, v); return *this; }
  const probe_ref& operator=(const probe_ref& o) const { b->set(p, (T)o); return *this; } };

template <class T, bool Const> struct probe_it {
  typedef std::random_access_iterator_tag iterator_category; typedef T value_type; typedef long difference_type; typedef T* pointer;
  typedef typename std::conditional<Const, T, probe_ref<T>>::type reference;
  probe_mem<T>* b; long p;
  probe_it() : b(nullptr), p(0) {}
  probe_it(probe_mem<T>* b_, long p_) : b(b_), p(p_) {}
  template <bool C2, class = typename std::enable_if<Const || !C2>::type> probe_it(const probe_it<T, C2>& o) : b(o.b), p(o.p) {}
  reference get(std::true_type) const { return b->get(p); }
  reference get(std::false_type) const { return reference{ b, p }; }
  reference operator*() const { return get(std::integral_constant<bool, Const>()); }
  reference operator[](long n) const { return *(*this + n); }
  probe_it& operator++() { ++p; return *this; } probe_it operator++(int) { probe_it c(*this); ++p; return c; }
  probe_it& operator--() { --p; return *this; } probe_it operator--(int) { probe_it c(*this); --p; return c; }
  probe_it& operator+=(long n) { p += n; return *this; } probe_it& operator-=(long n) { p -= n; return *this; }
  probe_it operator+(long n) const { return probe_it(b, p + n); } probe_it operator-(long n) const { return probe_it(b, p - n); }
  friend long operator-(const probe_it& x, const probe_it& y) { return x.p - y.p; }
  friend bool operator==(const probe_it& x, const probe_it& y) { return x.p == y.p; } friend bool operator!=(const probe_it& x, const probe_it& y) { return x.p != y.p; }
  friend bool operator<(const probe_it& x, const probe_it& y) { return x.p < y.p; } friend bool operator>(const probe_it& x, const probe_it& y) { return x.p > y.p; }
  friend bool operator<=(const probe_it& x, const probe_it& y) { return x.p <= y.p; } friend bool operator>=(const probe_it& x, const probe_it& y) { return x.p >= y.p; }
};
// a view-like native string over probed memory
template <class T> struct probe_string {
  typedef probe_it<T, false> iterator; typedef probe_it<T, true> const_iterator; typedef T* pointer; typedef const T* const_pointer; typedef T value_type;
  probe_mem<T>* m = nullptr;
  iterator begin() const { return iterator(m, 0); } iterator end() const { return iterator(m, m->len); }
  typedef std::size_t size_type; typedef std::ptrdiff_t difference_type; typedef T reference, const_reference;
  typedef std::reverse_iterator<iterator> reverse_iterator; typedef std::reverse_iterator<const_iterator> const_reverse_iterator;
  size_type size() const { return m->len; } size_type length() const { return m->len; } bool empty() const { return m->len == 0; }
  T operator[](size_type i) const { return m->get(i); } T at(size_type i) const { return m->get(i); } T front() const { return m->get(0); } T back() const { return m->get(m->len - 1); }
  const_iterator cbegin() const { return const_iterator(m, 0); } const_iterator cend() const { return const_iterator(m, m->len); }
};
template <class T, class S> static probe_mem<T> probed(const S& before, const S& text, const S& after) {
  probe_mem<T> b; b.m.assign(probe_margin, T());
  for (size_t i = 0; i < before.size() && i < (size_t)probe_margin; i++) b.m[probe_margin - 1 - i] = before[before.size() - 1 - i];
  b.m.insert(b.m.end(), text.begin(), text.end());
  std::vector<T> tail(probe_margin, T()); for (size_t i = 0; i < after.size() && i < tail.size(); i++) tail[i] = after[i];
  b.m.insert(b.m.end(), tail.begin(), tail.end()); b.len = text.size(); return b;
}
#endif
