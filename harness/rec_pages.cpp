// Records texts being cut into pages of limited size.  Events: spec/trace/PagesTrace.tla
#include "common.hpp"
#include "texts.hpp"
#include "ucd_sets.hpp"
#include <u5e/basic_grapheme_iterator.hpp>
#include <u5e/filter.hpp>
#include <u5e/utf8_bounds.hpp>
#include <u5e/normalization_form_d.hpp>
#include <u5e/normalization_form_c.hpp>
#include <u5e/normalization_form_kd.hpp>
#include <u5e/normalization_form_kc.hpp>
using namespace u5e; using tr::ev;
static ints numbers(const std::string& n) { ints r; for (unsigned char c : n) r.push_back(c); return r; }
static ints numbers(const str32& n) { return ints(n.begin(), n.end()); }

// one page of at most limit native units, from position at of the text, and the size of what was forced
template <class H, class N> struct pager {
  typedef typename H::type T; typedef typename T::const_iterator CI; typedef basic_grapheme_iterator<T> GI; typedef typename std::conditional<H::utf8, utf8, utf32ne>::type E; typedef basic_encodedstring<E, N> O;
  typedef decltype(T::native_string) native;
  // in the whole text
  static void inside(T& t, long at, long p, bool gr, O& o) {
    auto b = t.native_cbegin(); CI tb(b), te(t.native_cend());
    if (gr) { GI f(tb, te, CI(b + at)), l(tb, te, CI(b + p)); o.append(f, l); } else o.template append<native>(CI(b + at), CI(b + p));
  }
  static long forced(T& t, long at, bool gr, O& o) {      // from at: one unit
    auto b = t.native_cbegin(); CI tb(b), te(t.native_cend());
    if (gr) { GI f(tb, te, CI(b + at)), l(f); ++l; o.append(f, l); } else { CI f(b + at), l(f); ++l; o.template append<native>(f, l); } return o.native_string.size();
  }
};
template <class H, class N> static void paging(rng& r, const ints& s, bool gr) {
  typedef pager<H, N> P; typedef typename P::O O; typedef typename P::T T; typedef basic_encodedstring<typename P::E, typename std::conditional<H::utf8, sv8, sv32>::type> V;
  H h(s, r); T& t = h.t; long total = t.native_cend() - t.native_cbegin(), at = 0; int guard = 0; O all; O fo; int f = r.upto(4), ret = 0; long fixed = r.p(60) ? r.in(0, gr ? 14 : 7) : -1; bool rest = r.p(50);
  tr::doing(std::string("pages of ") + H::name() + (gr ? " graphemes " : " codepoints ") + show(s));
  ev("pstart").a("s", s).str("st", H::name()).b("utf8", H::utf8).b("gr", gr).b("rest", rest).done();
  while (at < total && guard++ < 300) {
    long limit = fixed >= 0 ? fixed : r.in(0, 20), left = total - at; O o; bool force = false;
    if (rest) { // a view of what is left, in its place in memory
      V v(typename std::conditional<H::utf8, sv8, sv32>::type(&*t.native_cbegin() + at, left));
      typedef typename V::const_iterator CI; typedef basic_grapheme_iterator<V> GI; auto b = v.native_cbegin(); CI vb(b), ve(v.native_cend());
      if (gr) { GI a = v.grapheme_begin(), l(vb, ve, CI(b + std::min(limit, left))); o.append(a, l); if (o.native_string.empty()) { force = true; ++a; GI z = v.grapheme_begin(); o.append(z, a); } }
      else { o.template append<decltype(v.native_string)>(vb, CI(b + std::min(limit, left))); if (o.native_string.empty()) { force = true; CI l(vb); ++l; o.template append<decltype(v.native_string)>(vb, l); } }
    } else { P::inside(t, at, at + std::min(limit, left), gr, o); if (o.native_string.empty()) { force = true; P::forced(t, at, gr, o); } }
    ev("page").i("limit", limit).b("forced", force).a("out", numbers(o.native_string)).done();
    at += o.native_string.size(); if (o.native_string.empty()) at = total;
    all.append(o.codepoint_cbegin(), o.codepoint_cend());
    switch (f) { case 0: ret += u5e::filter(o.grapheme_begin(), o.grapheme_end(), fo, normalization_form_d<O, O>); break; case 1: ret += u5e::filter(o.grapheme_begin(), o.grapheme_end(), fo, normalization_form_c<O, O>); break;
      case 2: ret += u5e::filter(o.grapheme_begin(), o.grapheme_end(), fo, normalization_form_kd<O, O>); break; default: ret += u5e::filter(o.grapheme_begin(), o.grapheme_end(), fo, normalization_form_kc<O, O>); }
  }
  static const char* name[] = { "d", "c", "kd", "kc" };
  ev("pend").a("all", numbers(all.native_string)).str("f", name[f]).a("form", numbers(fo.native_string)).i("ret", ret).done();
}
// octets in windows cut anywhere, shortened until the bounds check accepts them
static void blocks(rng& r, const ints& s) {
  size_t lead = r.upto(3); std::string mem = std::string(lead, 'z') + enc(s) + (r.p(50) ? "!" : r.p(50) ? "\xF0\x9F" : ""); long total = enc(s).size(), at = 0; char* b = &mem[0] + lead;
  utf8_string all, fo; int ret = 0, guard = 0, f = r.upto(4); long fixed = r.p(60) ? r.in(0, 9) : -1; tr::doing("blocks of " + show(s)); ev("pstart").a("s", s).str("st", "bounds").b("utf8", true).b("gr", false).b("rest", false).done();
  while (at < total && guard++ < 300) {
    long limit = fixed >= 0 ? fixed : r.in(0, 20), e = at + std::min(limit, total - at); bool force = false;
    while (e > at && !utf8_bounds<char*>::check(b + at, b + e)) e--;
    if (e == at) { force = true; e = at + 1; while (e < total && !utf8_bounds<char*>::check(b + at, b + e)) e++; }
    utf8_string o(std::string(b + at, b + e)); all.append(o.codepoint_cbegin(), o.codepoint_cend());
    ev("page").i("limit", limit).b("forced", force).a("out", numbers(o.native_string)).done(); at = e;
  }
  static const char* name[] = { "d", "c", "kd", "kc" };
  switch (f) { case 0: ret = u5e::filter(all.grapheme_begin(), all.grapheme_end(), fo, normalization_form_d<utf8_string, utf8_string>); break; case 1: ret = u5e::filter(all.grapheme_begin(), all.grapheme_end(), fo, normalization_form_c<utf8_string, utf8_string>); break;
    case 2: ret = u5e::filter(all.grapheme_begin(), all.grapheme_end(), fo, normalization_form_kd<utf8_string, utf8_string>); break; default: ret = u5e::filter(all.grapheme_begin(), all.grapheme_end(), fo, normalization_form_kc<utf8_string, utf8_string>); }
  ev("pend").a("all", numbers(all.native_string)).str("f", name[f]).a("form", numbers(fo.native_string)).i("ret", ret).done();
}
#define ANY(k, ...) do { switch ((k) % 4) { case 0: paging<V8, std::string>(__VA_ARGS__); break; case 1: paging<V32, str32>(__VA_ARGS__); break; case 2: paging<S8, std::string>(__VA_ARGS__); break; default: paging<S32, str32>(__VA_ARGS__); } } while (0)
static ints text(rng& r, int max) { ints s = r.p(30) ? any_text(r, max) : r.p(40) ? class_text(r, max) : r.p(50) ? mark_text(r, max) : ints(); if (s.empty()) { int n = r.in(0, max); while (n--) s.push_back(r.p(30) ? r.pick(ucd_marks) : r.p(30) ? r.pick(ucd_canon) : r.p(50) ? r.pick(ucd_compat) : r.p(50) ? 0x1100 + r.upto(0x100) : any_cp(r)); } return s; }
int main(int argc, char** argv) {
  args a(argc, argv); tr::start(a.s("-o").c_str(), a.n("-cpu", 120));
  long n = a.n("-n", 100); rng r(a.n("-seed", 1) * 1000 + a.n("-shard", 0)); std::string m = a.s("-mode"); int max = a.n("-max", 10);
  if (m == "pages") while (n--) { ints s = text(r, r.p(10) ? max * 4 : max); ANY(r.upto(4), r, s, r.p(60)); }
  else if (m == "blocks") while (n--) blocks(r, text(r, r.p(10) ? max * 4 : max));
  else return 95;
  tr::finish(); return 0;
}
