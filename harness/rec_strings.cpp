// Records what encoded string objects do.  Events: spec/trace/StringsTrace.tla
#include "common.hpp"
#include "texts.hpp"
#include <u5e/basic_grapheme_iterator.hpp>
#include <u5e/utf8_string_grapheme_iterator.hpp>
#include <u5e/utf8_string_view_grapheme_iterator.hpp>
#include <u5e/utf32ne_string_grapheme_iterator.hpp>
#include <u5e/utf32ne_string_view_grapheme_iterator.hpp>
using namespace u5e; using tr::ev;

// two owning objects and a view of one encoding
template <class S_, class N_, class V_, class VN_, bool U8> struct group {
  typedef S_ S; typedef N_ N; typedef V_ V; typedef VN_ VN; static const bool utf8 = U8;
  std::unique_ptr<S> s[2]; std::unique_ptr<V> v; typename std::conditional<U8, memory8, memory32>::type mem, was;
  static N native(const ints& t);
  void bind(const N& n) { mem.assign(3, (typename N::value_type)'<'); mem.insert(mem.end(), n.begin(), n.end()); mem.push_back((typename N::value_type)'>'); was = mem; v->native_string = part_of(mem, 3, n.size()); }
  group() { s[0].reset(new S); s[1].reset(new S); v.reset(new V); bind(N()); }
  long len(int i) { return i < 2 ? (long)s[i]->native_string.size() : (long)v->native_string.size(); }
  N content(int i) { return i < 2 ? N(s[i]->native_string) : N(v->native_string.begin(), v->native_string.end()); }
};
typedef group<owned8, own8, parted8, part8, true> G8;
typedef group<owned32, own32, parted32, part32, false> G32;
template <> own8 G8::native(const ints& t) { return enc(t); }
template <> own32 G32::native(const ints& t) { return str32(t.begin(), t.end()); }

static ints numbers(const std::string& n) { ints r; for (unsigned char c : n) r.push_back(c); return r; }
static ints numbers(const str32& n) { return ints(n.begin(), n.end()); }
struct world { G8 g8; G32 g32;
  std::vector<ints> dump() { std::vector<ints> r; for (int i = 0; i < 3; i++) r.push_back(numbers(g8.content(i))); for (int i = 0; i < 3; i++) r.push_back(numbers(g32.content(i))); return r; }
  bool intact() { return g8.mem == g8.was && g32.mem == g32.was; } };

static ints some(rng& r, int max) { int k = r.upto(4); return k == 0 ? class_text(r, max) : k == 1 ? mark_text(r, std::max(1, max)) : any_text(r, max); }
static codepoint pickcp(rng& r, int size) { for (;;) { int c = any_cp(r); if ((int)enc(c).size() == size) return codepoint(c); } }
static const char* kind;       // which operations: all, append, appendg, append32, values

template <class G> static typename G::V::const_iterator vit(G& g, long p) { return typename G::V::const_iterator(g.v->native_cbegin() + p); }
template <class G> static typename G::S::const_iterator sit(G& g, int i, long p) { return typename G::S::const_iterator(g.s[i]->native_cbegin() + p); }
// first codepoint / grapheme of two positions in order
template <class A> static bool ordered(const A& f, const A& l, const A& b) { return std::distance(b, f) <= std::distance(b, l); }

template <class G> static typename G::S& append(G& g, int i, int j, long p, long q) {
  return j < 2 ? g.s[i]->append(sit(g, j, p), sit(g, j, q)) : g.s[i]->template append<typename G::VN>(vit(g, p), vit(g, q)); }
template <class G> static typename G::S& appendg(G& g, int i, int j, long p, long q) {
  if (j < 2) { basic_grapheme_iterator<typename G::S> f(g.s[j]->codepoint_cbegin(), g.s[j]->codepoint_cend(), sit(g, j, p)), l(g.s[j]->codepoint_cbegin(), g.s[j]->codepoint_cend(), sit(g, j, q)); return g.s[i]->append(f, l); }
  basic_grapheme_iterator<typename G::V> f(g.v->codepoint_cbegin(), g.v->codepoint_cend(), vit(g, p)), l(g.v->codepoint_cbegin(), g.v->codepoint_cend(), vit(g, q)); return g.s[i]->append(f, l); }
static ints source32(G32& g, int j, long p, long q) { ints n = numbers(g.content(j)); return ints(n.begin() + p, n.begin() + q); }
template <class G> static typename G::S& append32(G& g, int i, G32& h, int j, long p, long q) {
  return j < 2 ? g.s[i]->template append_from_utf32ne<own32>(sit(h, j, p), sit(h, j, q)) : g.s[i]->template append_from_utf32ne<part32>(vit(h, p), vit(h, q)); }

template <class G> static void step(rng& r, world& w, G& g, int base, int max) {
  typedef typename G::S S; typedef typename G::N N;
  int i = r.upto(2), j = r.upto(3); long n = g.len(j), p = r.upto(n + 1), q = p + r.upto(n - p + 1);
  if (r.p(20)) { p = 0; q = r.upto(n + 1); } if (r.p(15)) { p = 0; q = n; }
  bool self = true; ints s; long c = 0; int op;
  std::string k = kind;
  static const int all[] = { 0, 1, 2, 3, 4, 5, 5, 6, 6, 7, 7, 8, 9, 10, 11 }, app[] = { 1, 5, 5, 5, 5, 9 }, apg[] = { 1, 6, 6, 6, 6 }, a32[] = { 1, 7, 7, 7 }, val[] = { 0, 1, 1, 2, 2, 3, 3, 3, 4, 5, 7, 8, 10, 10, 11, 11 };
  op = k == "append" ? app[r.upto(6)] : k == "appendg" ? apg[r.upto(5)] : k == "append32" ? a32[r.upto(4)] : k == "values" ? val[r.upto(16)] : all[r.upto(15)];
  if (op >= 5 && op < 10 && op != 8 && g.len(i) > 2000) op = 1;
  long at0 = p;
  auto log = [&](const char* name) { ev e(name); e.i("i", base + i + 1).i("j", base + j + 1).i("p", p).i("q", q).a("s", s).i("c", c).b("self", self).b("intact", w.intact()).aa("o", w.dump()); e.done(); };
  tr::doing("string operation " + std::to_string(op) + " on " + std::to_string(base + i + 1) + " from " + std::to_string(base + j + 1) + " " + std::to_string(p) + ".." + std::to_string(q));
  switch (op) {
  case 0: if (r.p(50)) g.s[i].reset(new S); else { S d; self = &(*g.s[i] = d) == g.s[i].get(); } log("default"); break;
  case 1: { s = some(r, max); N x = G::native(s); const N was = x;
      if (r.p(30)) { i = 2; g.bind(x); }
      else switch (r.upto(4)) { case 0: g.s[i].reset(new S(x)); break; case 1: { S d = x; g.s[i].reset(new S(d)); break; } case 2: self = &(*g.s[i] = x) == g.s[i].get(); break; default: g.s[i]->native_string = x; }
      self = self && x == was;                           // the source stays as it was
      x.assign(x.size(), (typename N::value_type)'#');   // and goes away
      s = numbers(G::native(s)); log("native"); break; }
  case 2: { j = r.p(80) ? 1 - i : i; std::unique_ptr<S> d(new S(*g.s[j])); self = g.content(j) == d->native_string; g.s[i].swap(d); if (d) d->native_string.assign(d->native_string.size(), (typename N::value_type)'#'); log("copy"); break; }
  case 3: { j = r.upto(2); self = &(*g.s[i] = *g.s[j]) == g.s[i].get(); log("assign"); break; }
  case 4: { // views: copying does not copy the memory
      typename G::V a(*g.v), b; b = a; self = &(b = *g.v) == &b; i = j = 2; *g.v = b; log("assign"); break; }
  case 5: { if (j < 2 ? !ordered(sit(g, j, p), sit(g, j, q), g.s[j]->codepoint_cbegin()) : !ordered(vit(g, p), vit(g, q), g.v->codepoint_cbegin())) break;
      self = &append(g, i, j, p, q) == g.s[i].get(); log("append"); break; }
  case 6: self = &appendg(g, i, j, p, q) == g.s[i].get(); log("appendg"); break;
  case 7: { int jj = r.upto(3); long m = w.g32.len(jj); p = r.upto(m + 1); q = p + r.upto(m - p + 1); if (r.p(40)) { p = 0; q = m; }
      s = source32(w.g32, jj, p, q); j = jj; self = &append32(g, i, w.g32, jj, p, q) == g.s[i].get(); log("append32"); break; }
  case 8: { N x = g.content(i); if (x.empty()) break; p = r.upto(x.size()); if (G::utf8) while (p > 0 && cont((char)x[p])) p--;
      int size = 1; if (G::utf8) while (p + size < (long)x.size() && cont((char)x[p + size])) size++;
      codepoint y = G::utf8 ? pickcp(r, size) : codepoint(any_cp(r)); c = y.value; typename S::iterator it(g.s[i]->native_begin() + p); *it = y; log("overwrite"); break; }
  case 9: { // chained calls
      j = 1 - i; n = g.len(j); p = r.upto(n + 1); q = p + r.upto(n - p + 1);
      if (!ordered(sit(g, j, p), sit(g, j, q), g.s[j]->codepoint_cbegin())) break;
      self = &g.s[i]->append(sit(g, j, p), sit(g, j, q)).append(sit(g, j, p), sit(g, j, q)).append(sit(g, j, q), sit(g, j, q)) == g.s[i].get(); log("chain"); break; }
  case 10: { // moved from one to the other, and the one moved from is used again
      j = 1 - i; S& x = *g.s[i]; S& y = *g.s[j];
      switch (r.upto(5)) {
      case 0: self = &(x = std::move(y)) == &x; break;
      case 1: g.s[i].reset(new S(std::move(y))); break;
      case 2: { S d(std::move(y)); self = &(x = std::move(d)) == &x; break; }
      case 3: { std::pair<S, int> d(std::move(y), 1); x = std::move(d.first); break; }
      default: { auto f = [](S d) { return d; }; g.s[i].reset(new S(f(std::move(y)))); break; } }
      N z = G::native(some(r, max)); s = numbers(z);
      if (r.p(50)) y = z; else { S d(z); y = std::move(d); }
      log("move"); break; }
  case 11: { // exchanged
      j = 1 - i; S& x = *g.s[i]; S& y = *g.s[j];
      switch (r.upto(5)) {
      case 0: std::swap(x, y); break;
      case 1: { j = i; std::swap(x, x); break; }
      case 2: { std::vector<S> d; for (int m = r.upto(9); m > 0; m--) { if (r.p(50)) d.push_back(S(G::native(some(r, 3)))); else d.emplace_back(G::native(some(r, 40))); }   // elements that move when the vector grows and turns
          d.insert(d.begin(), x); d.push_back(y); d.reserve(d.capacity() + 1); std::reverse(d.begin(), d.end()); x = d.front(); y = d.back(); d.clear(); break; }
      case 3: { std::map<int, S> d; d[1] = x; d.emplace(0, y); x = d[0]; y = d[1]; d[2]; self = d[2].native_string.empty(); break; }
      default: { S d[2] = { std::move(x), std::move(y) }; std::rotate(d, d + 1, d + 2); x = d[0]; y = std::move(d[1]); break; } }
      log("swap"); break; }
  }
  (void)at0;
}
static void session(rng& r, int ops, int max) {
  world w; ev("snew").aa("o", w.dump()).done();
  while (ops--) { if (r.p(kind == std::string("append32") ? 70 : 60)) step(r, w, w.g8, 0, max); else step(r, w, w.g32, 3, max); 
    if (kind == std::string("append32") && r.p(30)) { // fill a source
      ints s = some(r, max); w.g32.bind(G32::native(s)); ev("native").i("i", 6).i("j", 6).i("p", 0).i("q", 0).a("s", s).i("c", 0).b("self", true).b("intact", w.intact()).aa("o", w.dump()).done(); } }
}
// all cuts of one text: [begin, p) by codepoint and by grapheme iterators
template <class H, class N> static void cuts(rng& r, const ints& s) {
  typedef typename H::type T; typedef typename T::const_iterator CI; typedef basic_grapheme_iterator<T> GI; typedef basic_encodedstring<typename std::conditional<H::utf8, utf8, utf32ne>::type, N> O;
  H h(s, r); T& t = h.t; auto nb = t.native_cbegin(); long len = t.native_cend() - nb; std::vector<ints> c, g, m, n;
  tr::doing(std::string("cuts ") + H::name() + " " + show(s));
  for (long p = 0; p <= len; p++) {
    O a, b; a.template append<decltype(t.native_string)>(CI(nb), CI(nb + p)); c.push_back(numbers(a.native_string));
    GI f(t.codepoint_cbegin(), t.codepoint_cend()), l(t.codepoint_cbegin(), t.codepoint_cend(), CI(nb + p)); b.append(f, l); g.push_back(numbers(b.native_string));
    // the two positions are known by different stretches of the text: the second ends there, or the first begins there
    O d, e; GI f1(t.codepoint_cbegin(), t.codepoint_cend()), l1(t.codepoint_cbegin(), CI(nb + p), CI(nb + p)); d.append(f1, l1); m.push_back(numbers(d.native_string));
    GI f2(CI(nb + p), t.codepoint_cend()), l2(t.codepoint_cbegin(), t.codepoint_cend(), t.codepoint_cend()); e.append(f2, l2); n.push_back(numbers(e.native_string));
  }
  ev("cuts").a("s", s).str("st", H::name()).b("utf8", H::utf8).aa("c", c).aa("g", g).aa("m", m).aa("n", n).done();
}
// a long text in two parts that meet where a grapheme starts
template <class GI, class S, class N> static void graphemes_of(rng& r, S& o, const N& pre) {
  GI b(o.codepoint_cbegin(), o.codepoint_cend()), e(o.codepoint_cbegin(), o.codepoint_cend(), o.codepoint_cend()), m(o.codepoint_cbegin(), o.codepoint_cend(), typename S::const_iterator(o.native_cbegin() + r.upto(o.native_string.size() + 1)));
  S x{pre}, y{pre}; x.append(b, e); y.append(b, m); size_t cut = y.native_string.size() - pre.size(); y.append(m, e);
  bool whole = x.native_string == pre + o.native_string && y.native_string == x.native_string && cut <= o.native_string.size();
  ev("sdouble").b("ok", whole).done();
}
// long appends
static void longs(rng& r, long n) {
  while (n--) {
    ints u; int k = r.in(1, 4); while (k--) u.push_back(any_cp(r)); long times = n ? r.in(1000, 30000) : r.in(66000, 80000); ints pre = some(r, 20);
    str32 src; for (long i = 0; i < times; i++) src.append(u.begin(), u.end());
    tr::doing("long append of " + show(u));
    utf32ne_string_view v{sv32(src.data(), src.size())}; utf8_string o{enc(pre)}; utf32ne_string o32{str32(pre.begin(), pre.end())};
    o.append_from_utf32ne<sv32>(v.codepoint_cbegin(), v.codepoint_cend()); o32.append_from_utf32ne<sv32>(v.codepoint_cbegin(), v.codepoint_cend());
    auto split = [&](const ints& all, size_t skip, long unit, ints& first, bool& same, ints& kept) { kept = ints(all.begin(), all.begin() + std::min(all.size(), skip)); first.clear(); same = true; 
      for (size_t i = skip; i < all.size(); i++) { if ((long)(i - skip) < unit) first.push_back(all[i]); else if (all[i] != all[i - unit]) same = false; } };
    ints first, kept; bool same; std::string e = enc(u); split(numbers(o.native_string), enc(pre).size(), e.size(), first, same, kept);
    ev("slong").b("utf8", true).a("u", u).a("pre", pre).i("times", times).a("kept", kept).a("first", first).b("same", same).i("size", o.native_string.size()).done();
    split(numbers(o32.native_string), pre.size(), u.size(), first, same, kept);
    ev("slong").b("utf8", false).a("u", u).a("pre", pre).i("times", times).a("kept", kept).a("first", first).b("same", same).i("size", o32.native_string.size()).done();
    // the long text appended as a codepoint range and to itself
    utf8_string x{enc(pre)}; x.append(o.codepoint_cbegin(), o.codepoint_cend()); std::string want = x.native_string; x.append(x.codepoint_cbegin(), x.codepoint_cend());
    bool okself = x.native_string == want + want && want.size() == enc(pre).size() + o.native_string.size() && want.compare(enc(pre).size(), std::string::npos, o.native_string) == 0;
    ev("sdouble").b("ok", okself).done();
    // the long text appended grapheme by grapheme: all of it, what is before a place in it and what is behind it
    tr::doing("long append of the graphemes of " + show(u));
    graphemes_of<utf8_string_grapheme_iterator>(r, o, enc(pre)); graphemes_of<utf32ne_string_grapheme_iterator>(r, o32, str32(pre.begin(), pre.end()));
  }
}
#define ANY(k, ...) do { switch ((k) % 4) { case 0: cuts<V8, std::string>(__VA_ARGS__); break; case 1: cuts<V32, str32>(__VA_ARGS__); break; case 2: cuts<S8, std::string>(__VA_ARGS__); break; default: cuts<S32, str32>(__VA_ARGS__); } } while (0)
int main(int argc, char** argv) {
  args a(argc, argv); tr::start(a.s("-o").c_str(), a.n("-cpu", 120));
  rng r(a.n("-seed", 1) * 1000 + a.n("-shard", 0)); long n = a.n("-n", 100); std::string m = a.s("-mode"), k = a.s("-kind", "all"); kind = k.c_str();
  int max = a.n("-max", 12);
  if (m == "session") while (n--) session(r, a.n("-ops", 40), r.p(20) ? max * 3 : max);
  else if (m == "cuts") while (n--) ANY(r.upto(4), r, some(r, max));
  else if (m == "long") longs(r, n);
  else return 95;
  tr::finish(); return 0;
}
