// Records how far operations look in long texts, and how the work of a pass
// grows with the text (C43).  Events: spec/trace/ReachTrace.tla
#include "common.hpp"
#include "probe.hpp"
#include "texts.hpp"
#include "ucd_sets.hpp"
#include <malloc.h>
#include <u5e/utf8_bounds.hpp>
#include <u5e/basic_grapheme_iterator.hpp>
#include <u5e/utf8_string_grapheme_iterator.hpp>
#include <u5e/utf8_string_view_grapheme_iterator.hpp>
#include <u5e/utf32ne_string_grapheme_iterator.hpp>
#include <u5e/utf32ne_string_view_grapheme_iterator.hpp>
#include <u5e/filter.hpp>
#include <u5e/normalization_form_d.hpp>
#include <u5e/normalization_form_c.hpp>
#include <u5e/normalization_form_kd.hpp>
#include <u5e/normalization_form_kc.hpp>
#include <u5e/canonical_decomposition.hpp>
#include <u5e/compatibility_and_canonical_decomposition.hpp>
using namespace u5e; using tr::ev;

//---------------------------------------------------------------- steps and memory
#define QUIET __attribute__((no_sanitize_coverage, optimize("no-tree-loop-distribute-patterns")))
static volatile long steps = 0, held = 0, peak = 0; static volatile bool watching = false;
extern "C" QUIET void __sanitizer_cov_trace_pc() { steps++; }
extern "C" void* __libc_malloc(size_t); extern "C" void __libc_free(void*); extern "C" void* __libc_realloc(void*, size_t); extern "C" void* __libc_calloc(size_t, size_t);
#ifdef VERIF_STEPS
QUIET static void got(void* p) { if (watching && p) { held += malloc_usable_size(p); if (held > peak) peak = held; } }
QUIET static void gone(void* p) { if (watching && p) held -= malloc_usable_size(p); }
extern "C" QUIET void* malloc(size_t s) { void* p = __libc_malloc(s); got(p); return p; }
extern "C" QUIET void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); steps += a * b; got(p); return p; }
extern "C" QUIET void* realloc(void* q, size_t s) { gone(q); void* p = __libc_realloc(q, s); got(p); return p; }
extern "C" QUIET void free(void* p) { gone(p); __libc_free(p); }
// copying takes a step per octet
extern "C" QUIET void* memcpy(void* d, const void* s, size_t n) { steps += n; char* a = (char*)d; const char* b = (const char*)s; while (n--) *a++ = *b++; return d; }
extern "C" QUIET void* memmove(void* d, const void* s, size_t n) { steps += n; char* a = (char*)d; const char* b = (const char*)s; if (a < b) while (n--) *a++ = *b++; else { a += n; b += n; while (n--) *--a = *--b; } return d; }
extern "C" QUIET void* memset(void* d, int c, size_t n) { steps += n; char* a = (char*)d; while (n--) *a++ = (char)c; return d; }
#endif

//---------------------------------------------------------------- how far an operation looks
typedef probe_string<char> P8; typedef probe_string<int> P32;
typedef basic_encodedstring<utf8, P8> T8; typedef basic_encodedstring<utf32ne, P32> T32;
static std::vector<int> seen;
static void start(const char* what, long p, long q, const ints& s) { tr::doing(std::string(what) + " at " + std::to_string(p) + "," + std::to_string(q) + " of " + show(s)); seen.clear(); plog.reset(); plog.all = &seen; }
static std::vector<ints> runs() {
  plog.all = nullptr; std::sort(seen.begin(), seen.end()); std::vector<ints> r;
  for (int p : seen) if (!r.empty() && p <= r.back()[1] + 1) r.back()[1] = p; else r.push_back({ p, p });
  return r;
}
static void near(const char* what, long p, long q) { ev("near").str("what", what).i("p", p).i("q", q).aa("r", runs()).done(); }
template <class T> struct kind;
template <> struct kind<T8> { typedef char unit; static const bool utf8 = true; static probe_mem<char> hold(const ints& s) { return probed<char>(std::string("zz"), enc(s), std::string("!\xCC\x81")); }
  static void app(T8::const_iterator a, T8::const_iterator b) { utf8_string o; o.append<P8>(a, b); } static void appg(basic_grapheme_iterator<T8>& a, basic_grapheme_iterator<T8>& b) { utf8_string o; o.append<P8>(a, b); } };
template <> struct kind<T32> { typedef int unit; static const bool utf8 = false; static probe_mem<int> hold(const ints& s) { return probed<int>(ints{ 'z' }, s, ints{ '!', 0x301 }); }
  static void app(T32::const_iterator a, T32::const_iterator b) { utf32ne_string o; o.append<P32>(a, b); } static void appg(basic_grapheme_iterator<T32>& a, basic_grapheme_iterator<T32>& b) { utf32ne_string o; o.append<P32>(a, b); } };
template <class T> static void close_by(rng& r, const ints& s, int points) {
  typedef kind<T> K; typedef probe_it<typename K::unit, true> N; typedef typename T::const_iterator CI; typedef basic_grapheme_iterator<T> G;
  probe_mem<typename K::unit> b = K::hold(s); T t; t.native_string.m = &b; long len = b.len, first = K::utf8 ? enc(s[0]).size() : 1;
  ev("text").b("utf8", K::utf8).a("s", s).done();
  auto at = [&](long p) { return CI(N(&b, p)); }; volatile long sink = 0;
  auto some = [&](long lo) { return r.p(15) ? len : r.p(15) ? lo : lo + r.upto(len + 1 - lo); };
  while (points--) {
    long p = some(0), q = r.p(30) ? std::min<long>(len, p + r.upto(6)) : some(0);
    { start("make", p, q, s); CI i = at(p); (void)i; near("make", p, q); }
    if (p < len) { CI i = at(p); start("read", p, q, s); codepoint c = *i; sink = c.value; near("read", p, q); start("inc", p, q, s); ++i; near("inc", p, q); i = at(p); start("pinc", p, q, s); i++; near("pinc", p, q); }
    if (p >= first) { CI i = at(p); start("dec", p, q, s); --i; near("dec", p, q); i = at(p); start("pdec", p, q, s); i--; near("pdec", p, q);
      std::reverse_iterator<CI> x(at(p)); start("rread", p, q, s); codepoint c = *x; sink = c.value; near("rread", p, q); }
    { CI i = at(p), j = at(q); start("eq", p, q, s); sink = i == j; near("eq", p, q); start("ne", p, q, s); sink = i != j; near("ne", p, q); }
    CI e = t.codepoint_cend(), o = t.codepoint_cbegin();
    start("place", p, q, s); G i(o, e, at(p)); near("place", p, q); G j(o, e, at(q));
    start("gread", p, q, s); { auto g = *i; CI k = g.codepoint_begin(), m = g.codepoint_end(); (void)k; (void)m; } near("gread", p, q);
    start("geq", p, q, s); sink = i == j; near("geq", p, q); start("gne", p, q, s); sink = i != j; near("gne", p, q);
    start("geqpos", p, q, s); sink = i == at(q); near("geqpos", p, q);
    if (p < len) { G k(i); start("ginc", p, q, s); ++k; near("ginc", p, q); G m(i); start("gpinc", p, q, s); m++; near("gpinc", p, q); }
    if (p > q) std::swap(p, q);
    G f(o, e, at(p)), l(o, e, at(q));
    if (r.p(40)) { CI a = at(p), z = at(q); start("append", p, q, s); K::app(a, z); near("append", p, q); start("appendg", p, q, s); K::appg(f, l); near("appendg", p, q); }
  }
  (void)sink;
}
static void ends(rng& r) {
  std::string t; int n = r.in(0, 60); int k = r.upto(4); if (k == 0) for (int i = r.upto(30); i--; ) t += (char)r.in(0x80, 0xBF);
  while (n--) { int c = r.upto(6); if (c < 3) t += enc(any_cp(r)); else if (c == 3) t += (char)r.in(0x80, 0xBF); else if (c == 4) t += (char)r.in(0xC0, 0xFF); else t += (char)r.in(0, 127); }
  if (r.p(50)) t += (char)r.in(0xC0, 0xFF); for (int i = r.upto(8); r.p(70) && i--; ) t += (char)r.in(0x80, 0xBF);
  typedef probe_it<char, false> N; volatile bool sink; std::string none;
  for (int fix = 0; fix < 2; fix++) {
    probe_mem<char> b = probed<char>(std::string("z"), t, std::string("\x80")); N x(&b, 0), y(&b, b.len);
    const char* w = fix ? "enforce" : "check"; start(w, 0, b.len, ints()); tr::doing(std::string(w) + " " + ev::arr(std::vector<unsigned char>(t.begin(), t.end())));
    sink = fix ? utf8_bounds<N>::enforce(x, y) : utf8_bounds<N>::check(x, y);
    ev("ends").str("what", w).octets("t", t).aa("r", runs()).done();
  }
  (void)sink;
}

//---------------------------------------------------------------- how the work of a pass grows
struct cost { long steps, peak; bool done; };
static volatile long sum = 0;
template <class F> static void watch(cost& c, F f) { held = peak = 0; watching = true; long b = steps; c.done = f(); c.steps = steps - b; watching = false; c.peak = peak; }
static const char* passes[] = { "codepoints", "backwards", "reverse", "graphemes", "inside graphemes", "append", "append graphemes", "convert", "form d", "form c", "form kd", "form kc", "decompose", "decompose k", "filter", "copy", "check", "enforce", "find", "writing" };
static const int npasses = 20;
static void hold(std::string& n, size_t k) { n.reserve(20 * k); } static void hold(str32& n, size_t k) { n.reserve(20 * k); }
// the same operations for an output of another type than the input's
template <class H> struct own_of { typedef utf32ne_string type; }; template <> struct own_of<S8> { typedef utf8_string type; }; template <> struct own_of<V8> { typedef utf8_string type; };
template <class T, class O> static bool to_convert(T& t, O& o, std::false_type) { o.template append_from_utf32ne<typename std::remove_reference<decltype(t.native_string)>::type>(t.codepoint_cbegin(), t.codepoint_cend()); return true; }
template <class T, class O> static bool to_convert(T&, O&, std::true_type) { return true; }
static bool in_place(S8& h) { auto o = h.t.codepoint_begin(); auto i = h.t.codepoint_cbegin(); auto e = h.t.codepoint_cend(); while (i != e) { codepoint c = *i; ++i; *o = c; ++o; } return true; }
static bool in_place(S32& h) { for (auto i = h.t.codepoint_begin(); i != h.t.codepoint_end(); ++i) *i = codepoint(*i); return true; }
template <class H> static bool in_place(H&) { return true; }
static bool look(std::string& n, bool fix) { typedef std::string::iterator I; return (fix ? utf8_bounds<I>::enforce(n.begin(), n.end()) : utf8_bounds<I>::check(n.begin(), n.end())) || true; }
template <class N> static bool look(N&, bool) { return true; }
template <class H, class O> static cost pass(int w, const ints& s, rng r, bool reserve) {
  typedef typename H::type T; typedef typename H::native NS; H h(s, r); T& t = h.t; O o, same_as_input; utf32ne_string d; typename own_of<H>::type own; cost c;
  if (reserve) { hold(o.native_string, s.size()); hold(d.native_string, s.size()); hold(own.native_string, s.size()); }
  auto forms = [&](int f) { switch (f) { case 0: filter(t.grapheme_begin(), t.grapheme_end(), o, normalization_form_d<T, O>); break; case 1: filter(t.grapheme_begin(), t.grapheme_end(), o, normalization_form_c<T, O>); break;
    case 2: filter(t.grapheme_begin(), t.grapheme_end(), o, normalization_form_kd<T, O>); break; default: filter(t.grapheme_begin(), t.grapheme_end(), o, normalization_form_kc<T, O>); } return true; };
  tr::doing(std::string(passes[w]) + " over " + std::to_string(s.size()) + " codepoints, " + H::name() + ", beginning with " + show(ints(s.begin(), s.begin() + 40)));
  switch (w) {
  case 0: watch(c, [&]() { long k = 0; for (auto i = t.codepoint_cbegin(); i != t.codepoint_cend(); ++i) { codepoint x = *i; sum += x.value; k++; } return k == (long)s.size(); }); break;
  case 1: watch(c, [&]() { long k = 0; for (auto i = t.codepoint_cend(); i != t.codepoint_cbegin(); ) { --i; codepoint x = *i; sum += x.value; k++; } return k == (long)s.size(); }); break;
  case 2: watch(c, [&]() { long k = 0; typedef std::reverse_iterator<typename T::const_iterator> R; for (R i(t.codepoint_cend()), e(t.codepoint_cbegin()); i != e; ++i) { codepoint x = *i; sum += x.value; k++; } return k == (long)s.size(); }); break;
  case 3: watch(c, [&]() { auto e = t.grapheme_end(); for (auto i = t.grapheme_begin(); i != e; ++i) sum++; return true; }); break;
  case 4: watch(c, [&]() { long k = 0; auto e = t.grapheme_end(); for (auto i = t.grapheme_begin(); i != e; i++) { auto g = *i; for (auto j = g.codepoint_begin(); j != g.codepoint_end(); ++j) { codepoint x = *j; sum += x.value; k++; } } return k == (long)s.size(); }); break;
  case 5: watch(c, [&]() { own.template append<NS>(t.codepoint_cbegin(), t.codepoint_cend()); return true; }); break;
  case 6: watch(c, [&]() { auto b = t.grapheme_begin(), e = t.grapheme_end(); own.template append<NS>(b, e); return true; }); break;
  case 7: watch(c, [&]() { return to_convert(t, o, std::integral_constant<bool, H::utf8>()); }); break;
  case 8: case 9: case 10: case 11: watch(c, [&]() { return forms(w - 8); }); break;
  case 12: watch(c, [&]() { filter(t.codepoint_cbegin(), t.codepoint_cend(), d, canonical_decomposition<utf32ne_string>); return true; }); break;
  case 13: watch(c, [&]() { filter(t.codepoint_cbegin(), t.codepoint_cend(), d, compatibility_and_canonical_decomposition<utf32ne_string>); return true; }); break;
  case 14: watch(c, [&]() { int n = 0; int k = filter(t.codepoint_cbegin(), t.codepoint_cend(), n, [](codepoint x, int& m) { m += x.value & 1; return 1; }); return k == (int)s.size(); }); break;
  case 15: watch(c, [&]() { T copy(t); sum += copy.native_string.size(); return true; }); if (c.peak) c.peak = 0; break;
  case 16: case 17: watch(c, [&]() { return look(t.native_string, w == 17); }); break;
  case 18: watch(c, [&]() { auto i = t.codepoint_cbegin(), e = t.codepoint_cend(); while (i != e && !(*i == codepoint(0x7FFFFFF))) ++i; return i == e; }); break;
  default: watch(c, [&]() { return in_place(h); });
  }
  return c;
}
template <class H, class O> static void grow(int w, const ints& unit, bool giant, rng r) {
  ints s; while (s.size() < 2000) s.insert(s.end(), unit.begin(), unit.end());
  long st[3], mem[3]; bool done = true; rng q(r.next()); long n = s.size();
  for (int k = 0; k < 3; k++) { cost a = pass<H, O>(w, s, q, false), b = pass<H, O>(w, s, q, true); st[k] = std::min(a.steps / 16, 1L << 26); mem[k] = std::min(b.peak, 1L << 26); done = done && a.done && b.done; tr::progress++; if (k < 2) s.insert(s.end(), s.begin(), s.begin() + (long)s.size()); }
  ev("pass").str("what", passes[w]).str("st", H::name()).b("utf8", sizeof(*(O()).native_string.data()) == 1).b("giant", giant).i("n", n).a("unit", unit).b("done", done).i("s1", st[0]).i("s2", st[1]).i("s4", st[2]).i("m1", mem[0]).i("m4", mem[2]).done();
}
int main(int argc, char** argv) {
  args a(argc, argv); tr::start(a.s("-o").c_str(), a.n("-cpu", 600)); std::string m = a.s("-mode"); long sh = a.n("-shard", 0), of = a.n("-of", 1), n = a.n("-n", 20); rng r(a.n("-seed", 1) * 1000 + sh);
  if (m == "near") while (n--) {
    int max = r.in(40, 90), k = r.upto(4); ints s; while ((int)s.size() < max) { ints u = k == 0 ? any_text(r, 10) : k == 1 ? mark_text(r, 10) : k == 2 ? class_text(r, 10) : r.p(50) ? ints{ 'a', 'b', 'c', 0x20AC, 0x1F600 } : mark_text(r, 30); s.insert(s.end(), u.begin(), u.end()); }
    if (n % 2) close_by<T8>(r, s, 24); else close_by<T32>(r, s, 24); for (int i = 0; i < 10; i++) ends(r);
  } else if (m == "passes") {
    long cnt = 0; for (long round = 0; round < n; round++) for (int w = 0; w < npasses; w++) for (int hs = 0; hs < 4; hs++) {
      if (cnt++ % of != sh) continue;
      bool giant = r.p(40); ints u; int max = r.in(3, 40);
      if (giant) { if (r.p(75)) while ((int)u.size() < max) u.push_back(r.pick(mark_cps)); else u = r.p(50) ? ints{ 0x1100 } : ints{ 0x1F1E6, 0x1F1FF }; }
      else { do u = r.p(40) ? mark_text(r, max) : r.p(50) ? any_text(r, max) : class_text(r, max); while (u.empty()); u.insert(u.begin(), 'a'); u.push_back(r.pick(ucd_canon)); if (r.p(50)) u.push_back(r.pick(ucd_compat)); if (r.p(20)) u.push_back(0xFDFA); u.push_back('\n'); }
      bool o8 = r.p(50);
      switch (hs) { case 0: o8 ? grow<S8, utf8_string>(w, u, giant, r) : grow<S8, utf32ne_string>(w, u, giant, r); break; case 1: o8 ? grow<S32, utf8_string>(w, u, giant, r) : grow<S32, utf32ne_string>(w, u, giant, r); break;
        case 2: o8 ? grow<V8, utf8_string>(w, u, giant, r) : grow<V8, utf32ne_string>(w, u, giant, r); break; default: o8 ? grow<V32, utf8_string>(w, u, giant, r) : grow<V32, utf32ne_string>(w, u, giant, r); }
    }
  } else return 95;
  tr::finish(); return 0;
}
