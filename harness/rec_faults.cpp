// Records what operations leave behind when memory cannot be obtained at every
// point in turn, or when a function given to the filter throws (C39).
// Events: spec/trace/FaultsTrace.tla
#include "common.hpp"
#include "texts.hpp"
#include "ucd_sets.hpp"
#include <new>
#include <list>
#include <errno.h>
#include <u5e/utf8_string_grapheme_iterator.hpp>
#include <u5e/utf8_string_view_grapheme_iterator.hpp>
#include <u5e/utf32ne_string_grapheme_iterator.hpp>
#include <u5e/utf32ne_string_view_grapheme_iterator.hpp>
#include <u5e/filter.hpp>
#include <u5e/normalization_form_d.hpp>
#include <u5e/normalization_form_c.hpp>
#include <u5e/normalization_form_kd.hpp>
#include <u5e/normalization_form_kc.hpp>
#include <u5e/canonical_decomposition.hpp>
#include <u5e/compatibility_and_canonical_decomposition.hpp>
using namespace u5e; using tr::ev;

//---------------------------------------------------------------- memory
extern "C" void* __libc_malloc(size_t); extern "C" void __libc_free(void*); extern "C" void* __libc_realloc(void*, size_t); extern "C" void* __libc_calloc(size_t, size_t);
namespace mem {
  static const int max = 1 << 14;
  static void* held[max];                // blocks obtained while an operation was watched
  static int n = 0; static long asked = 0, fail_at = 0; static bool watching = false, all = false, lost = false;
  static bool refuse() { if (!watching) return false; asked++; return fail_at && (asked == fail_at || (all && asked > fail_at)); }
  static void got(void* p) { if (watching && p) { if (n < max) held[n++] = p; else lost = true; } }
  static void gone(void* p) { if (n && p) for (int i = n; i-- > 0;) if (held[i] == p) { held[i] = held[--n]; return; } }
  static void watch(long k, bool sticky) { asked = 0; fail_at = k; all = sticky; watching = true; }
  static long end() { watching = false; return asked; }
}
extern "C" void* malloc(size_t s) { if (mem::refuse()) { errno = ENOMEM; return nullptr; } void* p = __libc_malloc(s); mem::got(p); return p; }
extern "C" void* calloc(size_t a, size_t b) { if (mem::refuse()) { errno = ENOMEM; return nullptr; } void* p = __libc_calloc(a, b); mem::got(p); return p; }
extern "C" void* realloc(void* q, size_t s) { if (mem::refuse()) { errno = ENOMEM; return nullptr; } mem::gone(q); void* p = __libc_realloc(q, s); mem::got(p); return p; }
extern "C" void free(void* p) { mem::gone(p); __libc_free(p); }

//---------------------------------------------------------------- one operation
struct outcome { int how; long asked, left; bool same; ints dest; };     // how: 0 done, 1 bad_alloc, 2 something else
static const int room = 1 << 14; static int units[room]; static int nunits;
template <class N> static void keep(const N& n) { nunits = 0; for (auto c : n) if (nunits < room) units[nunits++] = sizeof c == 1 ? (unsigned char)c : (int)c; }
template <class N> static bool same(const N& n, const std::vector<int>& w) { size_t i = 0; for (auto c : n) { if (i >= w.size() || w[i] != (sizeof c == 1 ? (int)(unsigned char)c : (int)c)) return false; i++; } return i == w.size(); }
template <class N> static ints numbers(const N& n) { keep(n); return ints(units, units + nunits); }
static void set(std::string& n, const ints& s) { n = enc(s); }
static void set(str32& n, const ints& s) { n = str32(s.begin(), s.end()); }
template <class H, class O, class F> static outcome once(const ints& s, const ints& pre, rng r, long k, bool sticky, F op) {
  outcome o; o.how = 0;
  {
    H h(s, r); O d; set(d.native_string, pre);
    ints before = numbers(h.t.native_string);
    mem::n = 0; mem::lost = false; mem::watch(k, sticky);
    try { op(h.t, d); o.asked = mem::end(); }
    catch (std::bad_alloc&) { o.asked = mem::end(); o.how = 1; }
    catch (...) { o.asked = mem::end(); o.how = 2; }
    o.same = same(h.t.native_string, before); o.dest = numbers(d.native_string);
  }
  o.left = mem::lost ? 0 : mem::n; mem::n = 0; return o;
}
static void add(std::vector<ints>& v, const ints& x) { for (auto& y : v) if (y == x) return; v.push_back(x); }
template <class H, class O, class F> static void every(const char* kind, const char* f, const ints& s, const ints& pre, rng r, F op) {
  tr::doing(std::string(kind) + " " + f + " " + H::name() + " " + show(s));
  // twice without a failure: something may be set up once and for all
  outcome a = once<H, O>(s, pre, r, 0, false, op), b = once<H, O>(s, pre, r, 0, false, op);
  std::vector<ints> left, kept, again; bool same = a.same && b.same; long leak = b.left, other = 0, fine = 0, thrown = 0;
  long points = std::min(b.asked, 400L);
  for (long k = 1; k <= points; k++) for (int sticky = 0; sticky < 2; sticky++) {
    tr::doing(std::string(kind) + " " + f + " " + H::name() + " " + show(s) + " failing at " + std::to_string(k) + (sticky ? " and on" : ""));
    outcome x = once<H, O>(s, pre, r, k, sticky, op);
    if (x.left) { once<H, O>(s, pre, r, k, sticky, op); x = once<H, O>(s, pre, r, k, sticky, op); }
    leak = std::max(leak, x.left); same = same && x.same;
    if (x.how == 0) { add(kept, x.dest); fine++; } else { add(left, x.dest); thrown++; if (x.how == 2) other++; }
    outcome y = once<H, O>(s, pre, r, 0, false, op); same = same && y.same; add(again, y.dest); if (y.how) other++;
  }
  ev("faults").str("kind", kind).str("f", f).str("st", H::name()).b("utf8", sizeof(typename O::native_type_of) == 1).a("s", s).a("pre", pre).i("points", points).i("fine", fine).i("thrown", thrown).i("other", other)
    .i("how", a.how + b.how).a("full", a.dest).aa("left", left).aa("kept", kept).aa("again", again).b("same", same).i("leak", leak).done();
}
struct O8 : utf8_string { typedef char native_type_of; };
struct O32 : utf32ne_string { typedef int native_type_of; };
typedef utf8_string B8; typedef utf32ne_string B32;

template <class H, class O, class B> static void forms(const ints& s, const ints& pre, rng r, int f) {
  typedef typename H::type T;
  switch (f) {
  case 0: every<H, O>("form", "d", s, pre, r, [](T& t, B& d) { filter(t.grapheme_begin(), t.grapheme_end(), d, normalization_form_d<T, B>); }); break;
  case 1: every<H, O>("form", "c", s, pre, r, [](T& t, B& d) { filter(t.grapheme_begin(), t.grapheme_end(), d, normalization_form_c<T, B>); }); break;
  case 2: every<H, O>("form", "kd", s, pre, r, [](T& t, B& d) { filter(t.grapheme_begin(), t.grapheme_end(), d, normalization_form_kd<T, B>); }); break;
  default: every<H, O>("form", "kc", s, pre, r, [](T& t, B& d) { filter(t.grapheme_begin(), t.grapheme_end(), d, normalization_form_kc<T, B>); }); break;
  }
}
template <class H> static void decs(const ints& s, const ints& pre, rng r, int f) {
  typedef typename H::type T;
  if (f) every<H, O32>("dec", "kd", s, pre, r, [](T& t, B32& d) { filter(t.codepoint_cbegin(), t.codepoint_cend(), d, compatibility_and_canonical_decomposition<B32>); });
  else every<H, O32>("dec", "d", s, pre, r, [](T& t, B32& d) { filter(t.codepoint_cbegin(), t.codepoint_cend(), d, canonical_decomposition<B32>); });
}
template <class H, class O, class B> static void appends(const ints& s, const ints& pre, rng r, int f) {
  typedef typename H::type T; typedef typename H::native N;
  if (f) every<H, O>("append", "graphemes", s, pre, r, [](T& t, B& d) { auto b = t.grapheme_begin(), e = t.grapheme_end(); d.template append<N>(b, e); });
  else every<H, O>("append", "codepoints", s, pre, r, [](T& t, B& d) { d.template append<N>(t.codepoint_cbegin(), t.codepoint_cend()); });
}
template <class H, class O, class B> static void converts(const ints& s, const ints& pre, rng r) {
  typedef typename H::type T; typedef typename H::native N;
  every<H, O>("append", "converted", s, pre, r, [](T& t, B& d) { d.template append_from_utf32ne<N>(t.codepoint_cbegin(), t.codepoint_cend()); });
}
template <class H, class O, class B> static void values(const ints& s, const ints& pre, rng r, int f) {
  typedef typename H::type T;
  if (f) every<H, O>("set", "assigned", s, pre, r, [](T& t, B& d) { d = t; });
  else every<H, O>("set", "copied", s, pre, r, [](T& t, B& d) { B c(t); B e(c.native_string); d.native_string.swap(e.native_string); });
}
template <class H, class O, class B> static void selves(const ints& s, const ints& pre, rng r, int f) {
  typedef typename H::type T;
  if (f) every<H, O>("self", "graphemes", s, pre, r, [](T&, B& d) { auto b = d.grapheme_begin(), e = d.grapheme_end(); d.append(b, e); });
  else every<H, O>("self", "codepoints", s, pre, r, [](T&, B& d) { d.append(d.codepoint_cbegin(), d.codepoint_cend()); });
}
//---------------------------------------------------------------- a function that throws
struct stop_here { int at; };
template <class H> static void functor(const ints& s, const ints& pre, rng r) {
  int n = s.size();
  for (int k = 1; k <= n + 1; k++) {
    H h(s, r); utf8_string d; d.native_string = enc(pre); ints calls; int seen = 0, ret = -1; ints before = numbers(h.t.native_string);
    tr::doing(std::string("functor ") + H::name() + " " + show(s) + " throwing at " + std::to_string(k));
    try {
      ret = filter(h.t.codepoint_cbegin(), h.t.codepoint_cend(), d, [&](codepoint c, utf8_string& o) -> int {
        calls.push_back(c.value); if ((int)calls.size() == k) throw stop_here{ k };
        int v = c.value; utf32ne_string one(str32(1, v)); o.append_from_utf32ne<str32>(one.codepoint_cbegin(), one.codepoint_cend()); return 1; });
    } catch (stop_here& x) { seen = x.at; } catch (...) { seen = -1; }
    ev("functor").str("st", H::name()).a("s", s).a("pre", pre).i("k", k).i("seen", seen).a("calls", calls).i("ret", ret).octets("dest", d.native_string).b("same", same(h.t.native_string, before)).done();
  }
}
static ints text(rng& r, int max) {
  ints s = r.p(40) ? mark_text(r, max) : r.p(50) ? any_text(r, max) : class_text(r, max);
  if (r.p(30)) s.push_back(r.pick(ucd_canon)); if (r.p(30)) s.push_back(r.pick(ucd_compat)); if (r.p(10)) s.push_back(0xFDFA);
  if (r.p(10)) { int m = r.in(5, 40); s.push_back('a'); while (m--) s.push_back(r.pick(mark_cps)); }
  return s;
}
int main(int argc, char** argv) {
  args a(argc, argv); tr::start(a.s("-o").c_str(), a.n("-cpu", 600));
  rng r(a.n("-seed", 1) * 1000 + a.n("-shard", 0)); int n = a.n("-n", 40), max = a.n("-max", 10);
  for (int i = 0; i < n; i++) {
    ints s = text(r, max), pre = r.p(60) ? any_text(r, 6) : ints(); rng q(r.next());
    int f = r.upto(4);
    switch (r.upto(8)) { case 0: forms<S8, O8, B8>(s, pre, q, f); break; case 1: forms<S32, O32, B32>(s, pre, q, f); break; case 2: forms<V8, O8, B8>(s, pre, q, f); break; case 3: forms<V32, O32, B32>(s, pre, q, f); break;
      case 4: forms<S8, O32, B32>(s, pre, q, f); break; case 5: forms<S32, O8, B8>(s, pre, q, f); break; case 6: forms<V8, O32, B32>(s, pre, q, f); break; default: forms<V32, O8, B8>(s, pre, q, f); }
    f = r.upto(2);
    switch (r.upto(4)) { case 0: decs<S8>(s, pre, q, f); break; case 1: decs<S32>(s, pre, q, f); break; case 2: decs<V8>(s, pre, q, f); break; default: decs<V32>(s, pre, q, f); }
    switch (r.upto(4)) { case 0: appends<S8, O8, B8>(s, pre, q, f); break; case 1: appends<S32, O32, B32>(s, pre, q, f); break; case 2: appends<V8, O8, B8>(s, pre, q, f); break; default: appends<V32, O32, B32>(s, pre, q, f); }
    switch (r.upto(4)) { case 0: converts<S32, O8, B8>(s, pre, q); break; case 1: converts<V32, O8, B8>(s, pre, q); break; case 2: converts<S32, O32, B32>(s, pre, q); break; default: converts<V32, O32, B32>(s, pre, q); }
    f = r.upto(2); if (r.p(50)) values<S8, O8, B8>(s, pre, q, f); else values<S32, O32, B32>(s, pre, q, f);
    if (r.p(50)) selves<S8, O8, B8>(s, s, q, f); else selves<S32, O32, B32>(s, s, q, f);
    if (s.size() < 12) { if (r.p(50)) functor<S8>(s, pre, q); else functor<V32>(s, pre, q); }
    tr::flush();
  }
  tr::finish(); return 0;
}
