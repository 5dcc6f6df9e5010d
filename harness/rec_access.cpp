// Records which positions the operations read and write (C28), on a native
// string that notes every access.  Events: spec/trace/AccessTrace.tla
#include "common.hpp"
#include "probe.hpp"
#include "texts.hpp"
#include <u5e/utf8.hpp>
#include <u5e/utf8_bounds.hpp>
#include <u5e/utf32ne.hpp>
#include <u5e/basic_encodedstring.hpp>
#include <u5e/basic_grapheme_iterator.hpp>
#include <u5e/filter.hpp>
#include <u5e/normalization_form_d.hpp>
#include <u5e/normalization_form_c.hpp>
#include <u5e/normalization_form_kd.hpp>
#include <u5e/normalization_form_kc.hpp>
using namespace u5e; using tr::ev;
typedef probe_string<char> P8; typedef probe_string<int> P32;
typedef basic_encodedstring<utf8, P8> T8; typedef basic_encodedstring<utf32ne, P32> T32;

struct mem8 { static const bool utf8 = true; typedef T8 T; typedef P8 P; typedef char unit; probe_mem<char> b;
  mem8(const ints& s, rng& r) { static const char* pre[] = { "", "z", "\xE1\x84\x80", "\xF0\x9F\x87\xA6", "\x80", "a\xF0" }; static const char* post[] = { "", "!", "\xCC\x81", "\xE2\x80\x8D", "\xF0\x9F\x87\xA6", "\xE1\x85\xA1", "\xFF" };
    b = probed<char>(std::string(pre[r.upto(6)]), enc(s), std::string(post[r.upto(7)])); } };
struct mem32 { static const bool utf8 = false; typedef T32 T; typedef P32 P; typedef int unit; probe_mem<int> b;
  mem32(const ints& s, rng& r) { static const ints pre[] = { {}, { 'z' }, { 0x1100 }, { 0x1F1E6 } }, post[] = { {}, { '!' }, { 0x301 }, { 0x200D }, { 0x1F1E6 }, { 0x1161 } };
    b = probed<int>(pre[r.upto(4)], s, post[r.upto(6)]); } };
static void out(const char* what, bool utf8, const ints& s, long len, long p, long q, int size) {
  ev("acc").str("what", what).b("utf8", utf8).a("s", s).i("len", len).i("p", p).i("q", q).i("size", size).a("r", plog.reads()).a("w", plog.writes()).done();
}
static void start(const char* what, const ints& s, long p, long q) { tr::doing(std::string(what) + " at " + std::to_string(p) + "," + std::to_string(q) + " of " + show(s)); plog.reset(); }
// one operation of a codepoint iterator
template <class N, class I> static void cursor_op(probe_mem<char>* b, const ints& s, int op, long p, long q) {
  static const char* names[] = { "read", "inc", "pinc", "dec", "pdec", "eq", "ne", "rread", "copy", "read2" };
  const char* w = names[op]; I x(N(b, p)), y(N(b, q)); start(w, s, p, q); volatile int sink = 0;
  switch (op) {
  case 0: { codepoint c = *x; sink = c.value; break; }
  case 1: ++x; break;
  case 2: x++; break;
  case 3: --x; break;
  case 4: x--; break;
  case 5: sink = x == y; break;
  case 6: sink = x != y; break;
  case 7: { std::reverse_iterator<I> r(x); codepoint c = *r; sink = c.value; break; }
  case 8: { I z(x); z = y; break; }
  case 9: { I z(x); codepoint c = *z; codepoint d = *z; sink = c.value + d.value; break; }
  }
  (void)sink; out(w, true, s, b->len, p, q, 0);
}
// every operation at every position
static void cursors(rng& r, const ints& s) {
  mem8 m(s, r); std::string t = enc(s); long len = t.size(), first = s.empty() ? 0 : enc(s[0]).size();
  typedef probe_it<char, false> N; typedef probe_it<char, true> C;
  for (long p = 0; p <= len; p++) for (int op = 0; op < 10; op++) {
    if ((op == 0 || op == 1 || op == 2 || op == 9) && p == len) continue;
    if ((op == 3 || op == 4 || op == 7) && p < first) continue;
    if (op == 3 || op == 4 || op == 7) if (len == 0) continue;
    long qs = op == 5 || op == 6 ? len + 1 : 1;
    for (long q = 0; q < qs; q++) { if (r.p(60)) cursor_op<N, utf8_iterator<N>>(&m.b, s, op, p, q); else cursor_op<C, utf8_const_iterator<C>>(&m.b, s, op, p, q); }
  }
  // writing: a codepoint over one of the same size, and into space filled with zeros
  for (long p = 0; p < len; p++) if (!cont(t[p])) {
    int size = 1; while (p + size < len && cont(t[p + size])) size++;
    int c; do c = any_cp(r); while ((int)enc(c).size() != size);
    utf8_iterator<N> x(N(&m.b, p)); start("write", s, p, p); *x = codepoint(c); out("write", true, s, len, p, p, size);
    start("wread", s, p, p); codepoint d = *x; (void)d; out("wread", true, s, len, p, p, size);
    start("winc", s, p, p); ++x; out("winc", true, s, len, p, p, size);
  }
}
static void space(rng& r, const ints& s) {
  std::string zeros(enc(s).size(), r.p(50) ? '\0' : '?'); static const char* pre[] = { "", "z", "\xF0" }; static const char* post[] = { "", "!", "\xF0" };
  probe_mem<char> b = probed<char>(std::string(pre[r.upto(3)]), zeros, std::string(post[r.upto(3)])); typedef probe_it<char, false> N;
  utf8_iterator<N> x(N(&b, 0)); long at = 0;
  for (int c : s) { int size = enc(c).size(); start("write", s, at, at); *x = codepoint(c); out("write", true, s, b.len, at, at, size); start("winc", s, at, at); ++x; out("winc", true, s, b.len, at, at, size); at += size; }
}
template <class T> static int form(int f, basic_grapheme<T> g, utf32ne_string& o) { switch (f) { case 0: return normalization_form_d<T, utf32ne_string>(g, o); case 1: return normalization_form_c<T, utf32ne_string>(g, o); case 2: return normalization_form_kd<T, utf32ne_string>(g, o); default: return normalization_form_kc<T, utf32ne_string>(g, o); } }
static void app(T8&, T8::const_iterator a, T8::const_iterator b) { utf8_string o; o.append<P8>(a, b); }
static void app(T32&, T32::const_iterator a, T32::const_iterator b) { utf32ne_string o; o.append<P32>(a, b); }
static void appg(T8&, basic_grapheme_iterator<T8>& f, basic_grapheme_iterator<T8>& l) { utf8_string o; o.append<P8>(f, l); }
static void appg(T32&, basic_grapheme_iterator<T32>& f, basic_grapheme_iterator<T32>& l) { utf32ne_string o; o.append<P32>(f, l); }
static void convert(mem8&, const ints&, T8&, long, long) {}
static void convert(mem32& m, const ints& s, T32& t, long p, long q) { typedef probe_it<int, true> N; utf8_string o; start("append32", s, p, q); o.append_from_utf32ne<P32>(T32::const_iterator(N(&m.b, p)), T32::const_iterator(N(&m.b, q))); out("append32", false, s, m.b.len, p, q, 0);
  utf32ne_string o2; start("append32", s, p, q); o2.append_from_utf32ne<P32>(T32::const_iterator(N(&m.b, p)), T32::const_iterator(N(&m.b, q))); out("append32", false, s, m.b.len, p, q, 0); (void)t; }
template <class M> static void whole(rng& r, const ints& s) {
  typedef typename M::T T; M m(s, r); T t; t.native_string.m = &m.b; long len = m.b.len; const bool u = M::utf8; typedef basic_grapheme_iterator<T> G; typedef typename T::const_iterator CI; typedef probe_it<typename M::unit, true> N;
  auto at = [&](long p) { return CI(N(&m.b, p)); };
  { start("codepoints", s, 0, len); long guard = 0; for (CI i = t.codepoint_cbegin(); i != t.codepoint_cend() && guard++ <= len; ++i) { codepoint c = *i; (void)c; } out("codepoints", u, s, len, 0, len, 0); }
  { start("graphemes", s, 0, len); long guard = 0; G e = t.grapheme_end(); for (G i = t.grapheme_begin(); i != e && guard++ <= len; ++i) { auto g = *i; CI k = g.codepoint_begin(); (void)k; } out("graphemes", u, s, len, 0, len, 0); }
  if (u || len) { start("backwards", s, 0, len); long guard = 0; CI i = t.codepoint_cend(); while (i != t.codepoint_cbegin() && guard++ <= len) --i; out("backwards", u, s, len, len, 0, 0); }
  for (int k = 0; k < 6; k++) {
    long p = r.upto(len + 1), q = r.upto(len + 1); if (r.p(20)) p = len; if (r.p(20)) p = 0;
    start("place", s, p, q); G i(t.codepoint_cbegin(), t.codepoint_cend(), at(p)); out("place", u, s, len, p, q, 0);
    G j(t.codepoint_cbegin(), t.codepoint_cend(), at(q)); volatile bool sink;
    start("geq", s, p, q); sink = i == j; out("geq", u, s, len, p, q, 0);
    start("geqpos", s, p, q); sink = i == at(q); (void)sink; out("geqpos", u, s, len, p, q, 0);
    if (p < len) { start("ginc", s, p, q); ++i; out("ginc", u, s, len, p, q, 0); }
    if (p > q) std::swap(p, q);
    start("append", s, p, q); app(t, at(p), at(q)); out("append", u, s, len, p, q, 0);
    { G f(t.codepoint_cbegin(), t.codepoint_cend(), at(p)), l(t.codepoint_cbegin(), t.codepoint_cend(), at(q)); start("appendg", s, p, q); appg(t, f, l); out("appendg", u, s, len, p, q, 0); }
    convert(m, s, t, p, q);
  }
  for (int f = 0; f < 4; f++) { static const char* names[] = { "form d", "form c", "form kd", "form kc" }; utf32ne_string o; start(names[f], s, 0, len); u5e::filter(t.grapheme_begin(), t.grapheme_end(), o, [&](basic_grapheme<T> g, utf32ne_string& oo) { return form<T>(f, g, oo); }); out(names[f], u, s, len, 0, len, 0); }
}
//------------------------------------------------------------------ any octets the bounds check accepts, anything around them
// what the library accepts, whether it should or not (C06)
static bool accepted(const std::string& t) { tr::doing("checking octets " + ev::arr(std::vector<unsigned char>(t.begin(), t.end()))); return utf8_bounds<const char*>::check(t.data(), t.data() + t.size()); }
template <class N, class I> static void anyop(probe_mem<char>* b, const std::string& t, int after, int op, long p, long q) {
  static const char* names[] = { "xread", "xinc", "xpinc", "xdec", "xpdec", "xeq", "xne" }; I x(N(b, p)), y(N(b, q)); volatile int sink = 0;
  tr::doing(std::string(names[op]) + " at " + std::to_string(p) + "," + std::to_string(q) + " of octets " + ev::arr(std::vector<unsigned char>(t.begin(), t.end()))); plog.reset();
  switch (op) { case 0: { codepoint c = *x; sink = c.value; break; } case 1: ++x; break; case 2: x++; break; case 3: --x; break; case 4: x--; break; case 5: sink = x == y; break; case 6: sink = x != y; break; }
  (void)sink; ev("any").str("what", names[op]).octets("t", t).i("after", after).i("p", p).i("q", q).b("res", sink != 0).i("to", x.raw_iterator_.p).a("r", plog.reads()).a("w", plog.writes()).done();
}
static void anyoctets(rng& r, const std::string& t, bool few = false) {
  static const char* pre[] = { "", "z", "\xE1\x84\x80", "\x80", "a\xF0" }; static const char* post[] = { "", "!", "\x80", "\xBF\xBF\xBF", "\xF0\x9F", "\xFF" };
  std::string after = post[r.upto(6)]; probe_mem<char> b = probed<char>(std::string(pre[r.upto(5)]), t, after); long len = t.size(); bool ca = !after.empty() && cont(after[0]); int ao = after.empty() ? 0 : (unsigned char)after[0];
  typedef probe_it<char, false> N; typedef probe_it<char, true> C; auto start = [&](long p) { while (p > 0 && p < len && cont(t[p])) p--; return p; };
  for (long p = 0; p <= len; p++) for (int op = 0; op < 7; op++) {
    if (op < 3 && p == len) continue;
    if (op == 0 && (unsigned char)t[start(p)] >= 0xF8) continue;     // no codepoint
    if ((op == 3 || op == 4) && (start(p) <= 0 || (p == len && ca))) continue;
    for (long q = 0; q <= (op >= 5 ? len : 0); q++) {
      if (op >= 5 && p == len && q != p && ca) continue;
      if (few && op >= 5 && p != q && r.p(q == len ? 60 : 92)) continue;
      if (r.p(50)) anyop<N, utf8_iterator<N>>(&b, t, ao, op, p, q); else anyop<C, utf8_const_iterator<C>>(&b, t, ao, op, p, q); }
  }
}
int main(int argc, char** argv) {
  args a(argc, argv); tr::start(a.s("-o").c_str(), a.n("-cpu", 120));
  long sh = a.n("-shard", 0), of = a.n("-of", 1), n = a.n("-n", 100), cnt = 0; rng r(a.n("-seed", 1) * 1000 + sh); std::string m = a.s("-mode"); int max = a.n("-max", 8);
  auto mine = [&]() { return cnt++ % of == sh; };
  if (m == "sizes") { // all sequences of encoded sizes up to a length
    int len = a.n("-len", 3); for (int k = 0; k <= len; k++) { long tot = 1; for (int i = 0; i < k; i++) tot *= 4; for (long x = 0; x < tot; x++) if (mine()) { ints s; long y = x; for (int i = 0; i < k; i++) { int size = y % 4 + 1, c; y /= 4; do c = any_cp(r); while ((int)enc(c).size() != size); s.push_back(c); } cursors(r, s); } }
  } else if (m == "cursor") while (n--) { cursors(r, any_text(r, max)); space(r, any_text(r, max)); }
  else if (m == "whole") while (n--) { int k = r.upto(3); ints s = k == 0 ? any_text(r, max) : k == 1 ? class_text(r, max) : mark_text(r, max); whole<mem8>(r, s); whole<mem32>(r, s); }
  else if (m == "octets") {        // all accepted sequences of octet classes of one length
    static const unsigned char rep[] = { 0x41, 0x80, 0xC3, 0xE2, 0xF0, 0xF8, 0xFC, 0xFE, 0xFF }; int k = sizeof rep, len = a.n("-len", 4); long tot = 1; for (int i = 0; i < len; i++) tot *= k;
    for (long x = 0; x < tot; x++) { std::string t; long y = x; for (int i = 0; i < len; i++) { t += (char)rep[y % k]; y /= k; } if (mine() && accepted(t)) anyoctets(r, t); }
  } else if (m == "tails") {        // every leading octet at every distance from the end, with octets of one kind behind it and before it
    for (int lead = 0xC0; lead < 0x100; lead++) for (int d = 0; d < 10; d++) for (int kind = 0; kind < 4; kind++) { if (!mine()) continue; int pre = r.upto(3); std::string t(pre == 1 ? "a" : pre == 2 ? "abcdefgh" : ""); t += (char)lead; for (int i = 0; i < d; i++) t += (char)(kind == 0 ? r.in(0x80, 0xBF) : kind == 1 ? 'x' : kind == 2 ? (i % 2 ? 0x80 : 'x') : (i + 1 < d ? r.in(0x80, 0xBF) : r.in(0, 127))); if (accepted(t)) anyoctets(r, t, true); }
  } else if (m == "anyoctets") while (n--) { std::string t; int k = r.in(5, 14); while (k--) { int c = r.upto(5); t += (char)(c < 2 ? r.in(0x80, 0xBF) : c == 2 ? r.in(0xC0, 0xFF) : r.in(0, 127)); } if (accepted(t)) anyoctets(r, t); }
  else return 95;
  tr::finish(); return 0;
}
