// Records what happens to values outside Unicode, up to 31 bits.  Events: spec/trace/WideTrace.tla
#include "common.hpp"
#include "texts.hpp"
#include <u5e/utf8_iterator.hpp>
#include <u5e/utf8_bounds.hpp>
#include <u5e/basic_grapheme_iterator.hpp>
#include <u5e/utf8_string_grapheme_iterator.hpp>
#include <u5e/utf8_string_view_grapheme_iterator.hpp>
#include <u5e/utf32ne_string_grapheme_iterator.hpp>
#include <u5e/utf32ne_string_view_grapheme_iterator.hpp>
#include <u5e/filter.hpp>
#include <u5e/canonical_decomposition.hpp>
#include <u5e/compatibility_and_canonical_decomposition.hpp>
#include <u5e/normalization_form_d.hpp>
#include <u5e/normalization_form_c.hpp>
#include <u5e/normalization_form_kd.hpp>
#include <u5e/normalization_form_kc.hpp>
#include <u5e/props/grapheme_cluster_break.hpp>
#include <u5e/props/canonical_combining_class.hpp>
#include <u5e/props/canonical_composition_mapping.hpp>
#include <u5e/props/canonical_decomposition_mapping.hpp>
#include <u5e/props/compatibility_and_canonical_decomposition_mapping.hpp>
using namespace u5e; using tr::ev;
// writing reads first what is there: in memory that is watched, not octets that stand for something outside
#ifdef VERIF_ASAN
static const std::string fills(".\0", 2);
#else
static const std::string fills("\xAA.\0\xFF", 4);
#endif

// whole 31 bit numbers
static ev& w(ev& e, const char* k, const ints& v) { e.k(k); e.s += "["; for (size_t i = 0; i < v.size(); i++) { if (i) e.s += ","; e.s += std::to_string(v[i] < 0 ? -1 : v[i]); } e.s += "]"; return e; }
static std::string wenc(int v) {      // the recorder's own encoder
  if (v < 0x110000) return enc(v);
  std::string r; int n = v < 0x200000 ? 4 : v < 0x4000000 ? 5 : 6; for (int i = 1; i < n; i++) { r = (char)(0x80 | (v & 63)) + r; v >>= 6; }
  return (char)((0xFF << (8 - n)) | v) + r;
}
static std::string wenc(const ints& s) { std::string r; for (int c : s) r += wenc(c); return r; }
static ints numbers(const std::string& n) { ints r; for (unsigned char c : n) r.push_back(c); return r; }
static ints numbers(const str32& n) { return ints(n.begin(), n.end()); }
static int wide(rng& r) { int b = r.in(20, 30); long v = r.p(40) ? (1l << b) + r.in(-70, 70) : r.p(50) ? 0x7FFFFFFFl - r.in(0, 70) : r.p(30) ? (1l << b) | any_cp(r) : (long)(r.next() & ((1l << (b + 1)) - 1)); if (r.p(15)) v = 0x110000 + r.in(0, 300); return v < 0x110000 ? 0x110000 + (int)v : v > 0x7FFFFFFF ? 0x7FFFFFFF : (int)v; }
static ints text(rng& r, int max) { ints s; int n = r.in(1, max); while (n--) s.push_back(r.p(50) ? wide(r) : r.p(50) ? r.pick(r.pick(gcb_reps)) : any_cp(r)); return s; }

template <class V, class It> static void reads(const char* st, const ints& s, const std::string& t, V begin, V end) {
  ints f, b, rv, at; std::vector<ints> nx; long len = t.size(); auto rel = [&](It i) { return (int)raw(i, begin); };
  int guard = 0; for (It i(begin); i != It(end) && guard++ < 300; ++i) { codepoint c = *i; f.push_back(c.value); }
  guard = 0; for (It i(end); i != It(begin) && guard++ < 300;) { --i; codepoint c = *i; b.push_back(c.value); }
  for (long p = 0; p < len; p++) { It i(begin + p); codepoint c = *i; rv.push_back(c.value); It j(begin + p); ++j; ints e; e.push_back(rel(j)); long q = p; while (q > 0 && cont(t[q])) q--; if (q > 0) { It k(begin + p); --k; e.push_back(rel(k)); } nx.push_back(e);
    ints row; for (long o = 0; o < len; o++) row.push_back(It(begin + p) == It(begin + o)); int m = 0; for (size_t x = 0; x < row.size(); x++) m += row[x] << (x % 24); at.push_back(m); }
  ev e("wread"); e.str("st", st); w(e, "s", s); e.octets("t", t); w(e, "f", f); w(e, "b", b); w(e, "at", rv); e.aa("nx", nx).i("dist", std::distance(It(begin), It(end))).b("chk", utf8_bounds<V>::check(begin, end)); 
  std::vector<ints> eq; for (long p = 0; p < len; p++) { ints row; for (long o = 0; o < len; o++) if (It(begin + p) == It(begin + o)) row.push_back(o); eq.push_back(row); } e.aa("eq", eq); e.done();
}
static void read(rng& r, const ints& s, int how) {
  std::string t = wenc(s), mem = std::string(r.p(50) ? "z" : "") + t + "!"; size_t at = mem.size() - 1 - t.size(); char* p = &mem[at]; tr::doing("reading wide " + show(s));
  switch (how % 4) {
  case 0: reads<const char*, utf8_const_iterator<const char*>>("pointer", s, t, p, p + t.size()); break;
  case 1: reads<char*, utf8_iterator<char*>>("mpointer", s, t, p, p + t.size()); break;
  case 2: { utf8_string x(t); reads<std::string::const_iterator, utf8_string::const_iterator>("string", s, t, x.native_cbegin(), x.native_cend()); break; }
  default: { utf8_string_view x{sv8(p, t.size())}; reads<sv8::const_iterator, utf8_string_view::const_iterator>("view", s, t, x.native_cbegin(), x.native_cend()); } }
}
// into a buffer filled with something, and appended
static void write(rng& r, const ints& s) {
  size_t need = wenc(s).size(); char fill = r.pick(fills); std::string buf(need + 4, fill); buf[0] = '<'; tr::doing("writing wide " + show(s)); ints rb;
  { utf8_iterator<char*> i(&buf[2]); for (int v : s) { *i = codepoint(v); utf8_iterator<char*> k(i); codepoint c = *k; rb.push_back(c.value); ++i; } }
  ev e("wwrite"); w(e, "s", s); e.octets("out", buf.substr(2, need)); w(e, "rb", rb); e.b("around", buf[0] == '<' && buf[1] == fill && buf.substr(2 + need) == std::string(2, fill)); 
  ints pre = text(r, 3); utf8_string o(wenc(pre)); utf32ne_string src(str32(s.begin(), s.end())), o32(str32(pre.begin(), pre.end())); o.append_from_utf32ne<str32>(src.codepoint_cbegin(), src.codepoint_cend()); o32.append_from_utf32ne<str32>(src.codepoint_cbegin(), src.codepoint_cend());
  w(e, "pre", pre); e.octets("app", o.native_string); w(e, "app32", numbers(o32.native_string)); 
  utf8_string x; x.append(o.codepoint_cbegin(), o.codepoint_cend()); e.b("copied", x.native_string == o.native_string); e.done();
}
static void lookup(rng& r, int v) {
  tr::doing("looking up " + std::to_string(v)); int a = r.pick(ints{ 'a', 0x1100, 0xAC00, 0x300, 0x11A8, 0x1161, 0x338, 0x3099, 0x41 }), x = -7, y = -7; ints pre = any_text(r, 2);
  bool c1 = props::canonical_composition_mapping::resolve(v, a, &x), c2 = props::canonical_composition_mapping::resolve(a, v, &y);
  utf32ne_string d(str32(pre.begin(), pre.end())), k = d; int n = canonical_decomposition<utf32ne_string>(v, d), m = compatibility_and_canonical_decomposition<utf32ne_string>(v, k);
  ev e("wprops"); w(e, "v", ints{ v }); e.b("neg", v < 0).i("gcb", (int)props::grapheme_cluster_break::resolve(v)).i("ccc", props::canonical_combining_class::resolve(v)).b("comp", c1 || c2 || x != -7 || y != -7)
    .b("none", !props::canonical_decomposition_mapping::resolve(v) && !props::compatibility_and_canonical_decomposition_mapping::resolve(v)).b("dec", n == 1 && d.native_string.size() == pre.size() + 1 && std::equal(pre.begin(), pre.end(), d.native_string.begin()) && d.native_string.back() == v)
    .b("kdec", m == 1 && k.native_string.size() == pre.size() + 1 && std::equal(pre.begin(), pre.end(), k.native_string.begin()) && k.native_string.back() == v).done();
}
template <class T> static ints spots(T& t) { ints g; int guard = 0; for (auto i = t.grapheme_begin(); i != t.grapheme_end() && guard++ < 300; ++i) { auto x = *i; g.push_back(std::distance(t.codepoint_cbegin(), x.codepoint_begin())); g.push_back(std::distance(t.codepoint_cbegin(), x.codepoint_end())); } return g; }
template <class T, class O> static int form(int f, T& t, O& o) {
  switch (f) { case 0: return u5e::filter(t.grapheme_begin(), t.grapheme_end(), o, normalization_form_d<T, O>); case 1: return u5e::filter(t.grapheme_begin(), t.grapheme_end(), o, normalization_form_c<T, O>);
    case 2: return u5e::filter(t.grapheme_begin(), t.grapheme_end(), o, normalization_form_kd<T, O>); default: return u5e::filter(t.grapheme_begin(), t.grapheme_end(), o, normalization_form_kc<T, O>); } }
template <class T, class O> static void whole(T& t, const char* st, const ints& s, bool out8) {
  static const char* name[] = { "d", "c", "kd", "kc" }; tr::doing("text with wide " + show(s)); ints g = spots(t);
  for (int f = 0; f < 4; f++) { O o; int n = form<T, O>(f, t, o); ev e("wtext"); e.str("st", st); w(e, "s", s); w(e, "g", g); e.str("f", name[f]).b("utf8", out8).i("ret", n); w(e, "out", numbers(o.native_string)); e.done(); }
}
template <class T> static void whole(T t, const char* st, const ints& s, bool out8) { if (out8) whole<T, utf8_string>(t, st, s, true); else whole<T, utf32ne_string>(t, st, s, false); }
static void texts(rng& r, const ints& s) {
  std::string t = wenc(s), m = t + "!"; std::vector<int> m32(s.begin(), s.end()); m32.push_back('!');
  switch (r.upto(4)) { case 0: whole(utf8_string(t), "S8", s, r.p(50)); break; case 1: whole(utf8_string_view(sv8(m.data(), t.size())), "V8", s, r.p(50)); break;
    case 2: whole(utf32ne_string(str32(s.begin(), s.end())), "S32", s, r.p(50)); break; default: whole(utf32ne_string_view(sv32(m32.data(), s.size())), "V32", s, r.p(50)); }
}
int main(int argc, char** argv) {
  args a(argc, argv); tr::start(a.s("-o").c_str(), a.n("-cpu", 120));
  long sh = a.n("-shard", 0), of = a.n("-of", 1), n = a.n("-n", 100), cnt = 0; rng r(a.n("-seed", 1) * 1000 + sh); std::string m = a.s("-mode");
  auto mine = [&]() { return cnt++ % of == sh; };
  auto edges = [&](int near, std::function<void(int)> f) { for (int b = 20; b <= 31; b++) for (int d = -near; d <= near; d++) { long v = (1l << b) + d; if (v >= 0x110000 && v <= 0x7FFFFFFF && mine()) f((int)v); } for (int v = 0x110000; v < 0x110000 + 2 * near; v++) if (mine()) f(v); };
  if (m == "edges") edges(70, [&](int v) { ints s{ r.p(50) ? 'a' : 0x7FF, v }; if (r.p(50)) s.push_back(r.p(50) ? 0x20AC : wide(r)); read(r, s, cnt / of); write(r, s); });
  else if (m == "random") while (n--) { ints s = text(r, 6); read(r, s, n); write(r, s); }
  else if (m == "lookup") { edges(70, [&](int v) { lookup(r, v); }); while (n--) lookup(r, r.p(70) ? wide(r) : r.p(50) ? -r.in(1, 0x20000) : -(int)(r.next() & 0x3FFFFFFF) - 1); }
  else if (m == "texts") while (n--) texts(r, text(r, 10));
  else return 95;
  tr::finish(); return 0;
}
