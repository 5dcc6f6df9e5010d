// Records what the normalization forms do.  Events: spec/trace/NormTrace.tla
#include "common.hpp"
#include "texts.hpp"
#include "ucd_sets.hpp"
#include <u5e/basic_grapheme_iterator.hpp>
#include <u5e/utf8_string_grapheme_iterator.hpp>
#include <u5e/utf8_string_view_grapheme_iterator.hpp>
#include <u5e/utf32ne_string_grapheme_iterator.hpp>
#include <u5e/utf32ne_string_view_grapheme_iterator.hpp>
#include <u5e/filter.hpp>
#include <u5e/normalization_form_d.hpp>
#include <u5e/normalization_form_c.hpp>
#include <u5e/normalization_form_kd.hpp>
#include <u5e/normalization_form_kc.hpp>
using namespace u5e; using tr::ev;

static const char* form_name[] = { "d", "c", "kd", "kc" };
static int form_of(const std::string& s) { return s == "d" ? 0 : s == "c" ? 1 : s == "kd" ? 2 : 3; }
static ints forms;             // which forms to record

template <class I, class O> static int call(int f, basic_grapheme<I> g, O& o) {
  switch (f) { case 0: return normalization_form_d<I, O>(g, o); case 1: return normalization_form_c<I, O>(g, o); case 2: return normalization_form_kd<I, O>(g, o); default: return normalization_form_kc<I, O>(g, o); } }
static ints numbers(const std::string& n) { ints r; for (unsigned char c : n) r.push_back(c); return r; }
static ints numbers(const str32& n) { return ints(n.begin(), n.end()); }
static void put(utf8_string& o, const ints& s) { o.native_string = enc(s); }
static void put(utf32ne_string& o, const ints& s) { o.native_string.assign(s.begin(), s.end()); }
#ifdef VERIF_NATIVE
static void put(owned8& o, const ints& s) { o.native_string = enc(s); }
static void put(owned32& o, const ints& s) { o.native_string.assign(s.begin(), s.end()); }
#endif
static int many(const std::string& n, size_t from) { int k = 0; for (size_t i = from; i < n.size(); i++) if (!cont(n[i])) k++; return k; }
static int many(const str32& n, size_t from) { return n.size() - std::min(from, n.size()); }

struct result { ints out, steps; int ret; bool unchanged; };
// filters the graphemes of s, held as H, through a form into an O that already holds pre
template <class H, class O> static result normalize(rng& r, int f, const ints& s, const ints& pre) {
  typedef typename H::type T; H h(s, r); T& t = h.t; auto was = numbers(typename std::conditional<H::utf8, std::string, str32>::type(t.native_string.begin(), t.native_string.end()));
  O o; put(o, pre); result x; bool wrap = r.p(50);
  tr::doing(std::string("form ") + form_name[f] + " " + H::name() + (H::utf8 ? "" : "32") + " " + show(s));
  if (wrap) x.ret = u5e::filter(t.grapheme_begin(), t.grapheme_end(), o, [&](basic_grapheme<T> g, O& oo) { size_t before = oo.native_string.size(); int k = call<T, O>(f, g, oo); x.steps.push_back(k); x.steps.push_back(many(oo.native_string, before)); return k; });
  else switch (f) { // as a user would write it
    case 0: x.ret = u5e::filter(t.grapheme_begin(), t.grapheme_end(), o, normalization_form_d<T, O>); break;
    case 1: x.ret = u5e::filter(t.grapheme_begin(), t.grapheme_end(), o, normalization_form_c<T, O>); break;
    case 2: x.ret = u5e::filter(t.grapheme_begin(), t.grapheme_end(), o, normalization_form_kd<T, O>); break;
    default: x.ret = u5e::filter(t.grapheme_begin(), t.grapheme_end(), o, normalization_form_kc<T, O>); }
  x.out = numbers(o.native_string);
  x.unchanged = was == numbers(typename std::conditional<H::utf8, std::string, str32>::type(t.native_string.begin(), t.native_string.end())); return x;
}
static result normalize(rng& r, int f, int in, bool out8, const ints& s, const ints& pre) {
  if (out8) switch (in) { case 0: return normalize<S8, owned8>(r, f, s, pre); case 1: return normalize<V8, owned8>(r, f, s, pre); case 2: return normalize<S32, owned8>(r, f, s, pre); default: return normalize<V32, owned8>(r, f, s, pre); }
  switch (in) { case 0: return normalize<S8, owned32>(r, f, s, pre); case 1: return normalize<V8, owned32>(r, f, s, pre); case 2: return normalize<S32, owned32>(r, f, s, pre); default: return normalize<V32, owned32>(r, f, s, pre); }
}
static void log(int f, int in, bool out8, const ints& s, const ints& pre, const result& x) {
  static const char* st[] = { "S8", "V8", "S32", "V32" };
  ev e("nf"); e.str("f", form_name[f]).str("st", st[in]).b("utf8", out8).a("s", s).a("pre", pre).a("out", x.out).i("ret", x.ret).a("steps", x.steps).b("unchanged", x.unchanged); e.done();
}
static void nf(rng& r, const ints& s) {
  int in = r.upto(4); bool out8 = r.p(50); ints pre; if (r.p(30)) pre = any_text(r, 4);
  for (int f : forms) log(f, in, out8, s, pre, normalize(r, f, in, out8, s, pre));
}
//------------------------------------------------------------------ texts
static ints mapping_of(int c) { static std::map<int, ints> m; if (m.empty()) { size_t p = 0; for (int x : ucd_canon) { int k = ucd_canon_maps[p++]; m[x] = ints(ucd_canon_maps.begin() + p, ucd_canon_maps.begin() + p + k); p += k; } } auto i = m.find(c); return i == m.end() ? ints() : i->second; }
static int mark(rng& r) { return r.p(50) ? r.pick(mark_cps) : r.pick(ucd_marks); }
static int ccc_of(int c) { auto i = std::lower_bound(ucd_marks.begin(), ucd_marks.end(), c); return i != ucd_marks.end() && *i == c ? ucd_mark_classes[i - ucd_marks.begin()] : 0; }
static int starter(rng& r) { switch (r.upto(5)) { case 0: return r.pick(ucd_firsts); case 1: return r.pick(ucd_canon); case 2: return r.pick(ucd_compat); case 3: return r.in(0xAC00, 0xD7A3); default: return any_cp(r); } }
// around a composite: its pieces with marks in between, of every relation of classes
static ints around_composite(rng& r) {
  int c = r.pick(ucd_canon); ints m = r.p(75) ? mapping_of(c) : ints{ c }; ints s; if (r.p(30)) s.push_back(starter(r));
  for (size_t i = 0; i < m.size(); i++) { if (i && r.p(60)) { int k = r.in(1, 3); while (k--) s.push_back(r.p(90) ? mark(r) : r.p(50) ? 0x200D : 'b'); }
    if (r.p(25) && !mapping_of(m[i]).empty()) { ints d = mapping_of(m[i]); s.insert(s.end(), d.begin(), d.end()); } else s.push_back(m[i]); }
  if (r.p(50)) { int k = r.in(1, 3); while (k--) s.push_back(r.p(70) ? r.pick(ucd_seconds) : mark(r)); }
  return s;
}
static ints hangul(rng& r, int max) { ints s; int n = r.in(1, max); while (n--) switch (r.upto(9)) { case 0: case 1: s.push_back(0x1100 + r.upto(19)); break; case 2: case 3: s.push_back(0x1161 + r.upto(21)); break; case 4: s.push_back(0x11A7 + r.upto(28)); break;
    case 5: s.push_back(0xAC00 + 28 * r.upto(399)); break; case 6: s.push_back(r.in(0xAC00, 0xD7A3)); break; case 7: s.push_back(r.p(50) ? mark(r) : r.pick(ints{ 0x10FF, 0x1113, 0x1160, 0x1176, 0x11A7, 0x11C3, 0xABFF, 0xD7A4, 0xA960, 0xD7B0, 0xD7CB, 0x302E })); break; default: s.push_back(r.pick(ints{ 0x3131, 0x314F, 0x3133, 0xFFA1, 0xFFC2, 0x320E, 0x3260, 0x326E, 'a' })); }
  return s; }
static ints text(rng& r, int max) { switch (r.upto(6)) { case 0: return any_text(r, max); case 1: return class_text(r, max); case 2: return hangul(r, max); case 3: { ints s = around_composite(r); return s; } case 4: { ints s; int n = r.in(1, max); while ((int)s.size() < n) { s.push_back(starter(r)); int k = r.upto(5); while (k--) s.push_back(mark(r)); } return s; } default: return mark_text(r, max); } }
//------------------------------------------------------------------ modes
static void single(rng& r, long lo, long hi) {
  for (int f : forms) { long r0 = -1, rn = 0; auto out = [&]() { if (r0 >= 0) ev("nfid").str("f", form_name[f]).i("from", r0).i("n", rn).done(); r0 = -1; };
    for (long c = lo; c <= hi; c++) { int in = (c * 7 + f) % 4; bool out8 = c / 3 % 2; ints s(1, (int)c); result x = normalize(r, f, in, out8, s, {});
      ints want = out8 ? numbers(enc((int)c)) : s; bool ok = x.out == want && x.ret == 1 && x.unchanged && (x.steps.empty() || x.steps == ints{ 1, 1 });
      if (ok) { if (r0 >= 0) rn++; else { r0 = c; rn = 1; } } else { out(); log(f, in, out8, s, {}, x); } }
    out(); }
}
static void longs(rng& r, long n) {
  while (n--) {
    ints u{ r.in('a', 'z') }; { ints t = text(r, 6); u.insert(u.end(), t.begin(), t.end()); } u.push_back('.'); long times = n ? r.in(500, 4000) : 70000 / u.size() + r.in(1, 2000); ints s; for (long i = 0; i < times; i++) s.insert(s.end(), u.begin(), u.end());
    for (int f : forms) { int in = r.upto(4); bool out8 = r.p(50); ints pre = any_text(r, 3); result x = normalize(r, f, in, out8, s, pre); size_t skip = out8 ? enc(pre).size() : pre.size();
      // split into equal parts
      ints kept(x.out.begin(), x.out.begin() + std::min(skip, x.out.size())), first; bool same = x.unchanged && x.out.size() >= skip && (x.out.size() - skip) % times == 0; size_t part = same ? (x.out.size() - skip) / times : 0; if (part > 500) same = false;
      if (same) { first.assign(x.out.begin() + skip, x.out.begin() + skip + part); for (size_t i = skip + part; i < x.out.size(); i++) if (x.out[i] != x.out[i - part]) same = false; }
      ev("nflong").str("f", form_name[f]).b("utf8", out8).a("u", u).i("times", times).a("pre", pre).a("kept", kept).a("first", first).b("same", same).i("ret", x.ret).done(); }
  }
}
static void longmarks(rng& r, long n, int max) {
  while (n--) { ints s{ r.p(50) ? (int)'a' : starter(r) }; int k = r.in(max / 4, max); int kinds = r.in(1, 12); ints some; while (kinds--) some.push_back(mark(r)); while (k--) s.push_back(r.pick(some)); if (r.p(30)) s.push_back('b'); nf(r, s); }
}
// runs << codepoint, times >>: graphemes and runs of marks of any size
static bool plain(int c) { return mapping_of(c).empty() && !(c >= 0xAC00 && c < 0xAC00 + 11172) && !std::binary_search(ucd_compat.begin(), ucd_compat.end(), c); }
static int times(rng& r, int max) { int k = 1; while (k < max && r.p(80)) k = k * 2 + r.upto(2); return std::min(k, max); }
static std::vector<ints> rle(const ints& s) { std::vector<ints> o; for (int c : s) { if (!o.empty() && o.back()[0] == c) o.back()[1]++; else o.push_back(ints{ c, 1 }); } return o; }
static void runs(rng& r, long n, int max) {
  while (n--) {
    std::vector<ints> rs; int groups = r.in(1, 3); auto add = [&](int c, int k) { rs.push_back(ints{ c, plain(c) ? k : 1 }); };
    while (groups--) switch (r.upto(6)) {
      case 0: add(0x1100 + r.upto(19), times(r, max)); add(0x1161 + r.upto(21), times(r, max)); add(0x11A8 + r.upto(27), times(r, max)); break;
      case 1: add(r.pick(ints{ 0x1F1E6, 0x200D, 0x1F1FF, 0x1160, 0x11A7, 'a', 0x4E00, 0x10FFFF }), times(r, max)); break;
      default: { if (r.p(90)) rs.push_back(ints{ r.p(50) ? (int)r.pick(base_cps) : starter(r), 1 }); int k = r.in(1, 5); while (k--) { add(mark(r), times(r, max)); if (r.p(10)) add(0x200D, 1); } if (r.p(30)) rs.push_back(ints{ r.pick(ucd_seconds), 1 }); } }
    ints s; for (auto& x : rs) s.insert(s.end(), x[1], x[0]);
    for (int f : forms) { int in = r.upto(4); bool out8 = r.p(50); result x = normalize(r, f, in, out8, s, {}); std::vector<ints> o;
      if (out8) { // the octets of equal codepoints are equal
        std::string b; for (int c : x.out) b += (char)c; size_t i = 0; while (i < b.size()) { size_t e = i + 1; while (e < b.size() && cont(b[e])) e++; ints u(b.begin() + i, b.begin() + e); for (int& v : u) v &= 255; if (!o.empty() && ints(o.back().begin() + 1, o.back().end()) == u) o.back()[0]++; else { u.insert(u.begin(), 1); o.push_back(u); } i = e; } }
      else for (auto& y : rle(x.out)) o.push_back(ints{ y[1], y[0] });
      if (o.size() > 200) { o.resize(200); }
      ev("nfruns").str("f", form_name[f]).b("utf8", out8).aa("rs", rs).aa("out", o).i("ret", x.ret).b("unchanged", x.unchanged).done(); }
  }
}
// laws between results, for a text and one equivalent to it
static ints equivalent(rng& r, ints s) {
  int k = r.in(1, 4);
  while (k--) { if (s.empty()) break; size_t i = r.upto(s.size());
    switch (r.upto(3)) {
    case 0: { ints m = mapping_of(s[i]); if (s[i] >= 0xAC00 && s[i] < 0xAC00 + 11172) { int x = s[i] - 0xAC00; if (x % 28 && r.p(50)) m = { 0xAC00 + x / 28 * 28, 0x11A7 + x % 28 }; else { m = { 0x1100 + x / 588, 0x1161 + x % 588 / 28 }; if (x % 28) m.push_back(0x11A7 + x % 28); } }
        if (!m.empty()) { s.erase(s.begin() + i); s.insert(s.begin() + i, m.begin(), m.end()); } break; }
    case 1: if (i + 1 < s.size()) { int a = ccc_of(s[i]), b = ccc_of(s[i + 1]); if (a && b && a != b) std::swap(s[i], s[i + 1]); } break;
    default: if (i + 1 < s.size()) { static std::map<std::pair<int, int>, int> comp; if (comp.empty()) for (int c : ucd_canon) { ints m = mapping_of(c); if (m.size() == 2) comp[std::make_pair(m[0], m[1])] = c; } auto it = comp.find(std::make_pair(s[i], s[i + 1])); if (it != comp.end()) { s[i] = it->second; s.erase(s.begin() + i + 1); } } break;
    } }
  return s;
}
static void laws(rng& r, const ints& s) {
  int in = r.p(50) ? 2 : 3; auto nfx = [&](int f, const ints& t) { return normalize(r, f, in, false, t, {}).out; };
  ints q = equivalent(r, s), z[4], y[4]; std::vector<ints> once, eqv, twice;
  for (int f = 0; f < 4; f++) { z[f] = nfx(f, s); y[f] = nfx(f, q); once.push_back(z[f]); eqv.push_back(y[f]); }
  for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) twice.push_back(nfx(b, z[a]));
  ev("laws").a("s", s).a("q", q).aa("once", once).aa("eqv", eqv).aa("twice", twice).done();
}
static void ascii(rng& r) { ints s; int n = r.in(0, 60); while (n--) s.push_back(r.in(0, 127)); std::vector<ints> once; for (int f = 0; f < 4; f++) once.push_back(normalize(r, f, r.upto(2), true, s, {}).out); ev("ascii").a("s", s).aa("once", once).done(); }
// one text in every storage, into every output
static void storages(rng& r, const ints& s) { ints pre = r.p(30) ? any_text(r, 3) : ints(); for (int f : forms) { std::vector<ints> o8, o32; ints ret; for (int in = 0; in < 4; in++) { result a = normalize(r, f, in, true, s, pre), b = normalize(r, f, in, false, s, pre); o8.push_back(a.out); o32.push_back(b.out); ret.push_back(a.ret); ret.push_back(b.ret); }
    ev("nfstore").str("f", form_name[f]).a("s", s).a("pre", pre).aa("o8", o8).aa("o32", o32).a("ret", ret).done(); } }
// several texts into one output
static void chain(rng& r, int max) {
  bool out8 = r.p(50); ints pre; owned8 o8; owned32 o32; int k = r.in(2, 5);
  while (k--) { int f = r.pick(forms); ints s = text(r, max); int in = r.p(50) ? 2 : 1; ints before = out8 ? numbers(o8.native_string) : numbers(o32.native_string); int ret;
    tr::doing(std::string("form into one output ") + form_name[f] + " " + show(s));
    if (in == 2) { S32 h(s, r); ret = out8 ? u5e::filter(h.t.grapheme_begin(), h.t.grapheme_end(), o8, [&](basic_grapheme<owned32> g, owned8& o) { return call<owned32, owned8>(f, g, o); }) : u5e::filter(h.t.grapheme_begin(), h.t.grapheme_end(), o32, [&](basic_grapheme<owned32> g, owned32& o) { return call<owned32, owned32>(f, g, o); }); }
    else { V8 h(s, r); ret = out8 ? u5e::filter(h.t.grapheme_begin(), h.t.grapheme_end(), o8, [&](basic_grapheme<parted8> g, owned8& o) { return call<parted8, owned8>(f, g, o); }) : u5e::filter(h.t.grapheme_begin(), h.t.grapheme_end(), o32, [&](basic_grapheme<parted8> g, owned32& o) { return call<parted8, owned32>(f, g, o); }); }
    ev("nfchain").str("f", form_name[f]).b("utf8", out8).a("s", s).a("before", before).a("after", out8 ? numbers(o8.native_string) : numbers(o32.native_string)).i("ret", ret).done(); }
}
// the steps on their own: ordering, and composition of ordered text
static void steps(rng& r, int max) {
  ints s = text(r, max); utf32ne_string o; put(o, s); tr::doing("ordering " + show(s)); canonical_ordering(o.codepoint_begin(), o.codepoint_end()); ints ord = numbers(o.native_string); int n = 0;
  tr::doing("composition " + show(ord)); auto e = canonical_composition(o, &n); ints comp(o.codepoint_begin(), e); ints rest(e, o.codepoint_end());
  ev("step").a("s", s).a("ord", ord).a("comp", comp).i("n", n).i("left", rest.size()).done();
}
// a form put together from its steps, over a whole text: decomposition of codepoints i to j of any text, ordering
// of the part that was added, composition
template <class H> static void build(rng& r, const ints& s) {
  typedef typename H::type T; H h(s, r); T& t = h.t; int f = r.upto(4), i = r.p(50) ? 0 : r.upto(s.size() + 1), j = r.p(50) ? s.size() : i + r.upto(s.size() - i + 1);
  auto b = t.codepoint_cbegin(), e = b; std::advance(b, i); std::advance(e, j); ints pre = r.p(40) ? any_text(r, 4) : ints(); utf32ne_string o; put(o, pre);
  tr::doing(std::string("building ") + form_name[f] + " " + H::name() + " " + show(s));
  int ret = f < 2 ? u5e::filter(b, e, o, canonical_decomposition<utf32ne_string>) : u5e::filter(b, e, o, compatibility_and_canonical_decomposition<utf32ne_string>); ints dec = numbers(o.native_string);
  utf8_string o8; put(o8, pre); auto added = o.codepoint_cbegin(); std::advance(added, std::min(pre.size(), o.native_string.size())); o8.append_from_utf32ne<str32>(added, o.codepoint_cend());
  std::vector<int> v(dec.begin(), dec.end()); auto from = o.codepoint_begin(); std::advance(from, std::min(pre.size(), o.native_string.size())); canonical_ordering(from, o.codepoint_end()); ints ord = numbers(o.native_string);
  if (r.p(50)) canonical_ordering(v.begin() + std::min(pre.size(), v.size()), v.end()); else canonical_ordering(v.data() + std::min(pre.size(), v.size()), v.data() + v.size());
  int n = 0; auto end = canonical_composition(o, &n); ints comp(o.codepoint_begin(), end); utf32ne_string w; w.append_from_utf32ne<str32>(o.codepoint_begin(), end);
  ints lt; for (size_t x = 0; x < dec.size() && x < 8; x++) for (size_t y = 0; y < dec.size() && y < 8; y++) lt.push_back(canonical_combining_order(dec[x], dec[y]));
  ev("build").a("lt", lt).str("f", form_name[f]).str("st", H::name()).a("s", ints(s.begin() + i, s.begin() + j)).a("pre", pre).a("dec", dec).i("ret", ret).octets("dec8", o8.native_string).a("ord", ord).a("ordv", v).a("comp", comp).a("out", numbers(w.native_string)).i("n", n).i("left", std::distance(end, o.codepoint_end())).done();
}
// decomposition with a table of the user
static std::map<int, ints> user_table;
static const int* user_resolver(int c) { auto i = user_table.find(c); return i == user_table.end() ? nullptr : i->second.data(); }
struct user_resolver_object { long asked = 0; const int* operator()(int c) { asked++; return user_resolver(c); } };
static void custom(rng& r, ints s) {
  user_table.clear(); for (int& c : s) if (c >= 0xAC00 && c < 0xAC00 + 11172) c = 'h'; std::vector<ints> log; 
  for (int c : s) if (r.p(50) && !user_table.count(c)) { ints m; int k = r.p(10) ? r.in(1, 40) : r.p(20) ? 0 : r.in(1, 4); while (k--) m.push_back(std::max(1, any_cp(r))); ints e = m; e.insert(e.begin(), c); log.push_back(e); m.push_back(0); user_table[c] = m; }
  ints pre = r.p(40) ? any_text(r, 4) : ints(); utf32ne_string in(str32(s.begin(), s.end())), o; put(o, pre); user_resolver_object obj; tr::doing("decomposition with a table " + show(s)); bool fun = r.p(50);
  ints each; int ret = u5e::filter(in.codepoint_cbegin(), in.codepoint_cend(), o, [&](codepoint c, utf32ne_string& oo) { int k = fun ? codepoint_decomposition(c, oo, user_resolver) : codepoint_decomposition(c, oo, obj); each.push_back(k); return k; });
  ev("custom").a("s", s).aa("table", log).a("pre", pre).a("out", numbers(o.native_string)).a("each", each).i("ret", ret).done();
}
int main(int argc, char** argv) {
  args a(argc, argv); tr::start(a.s("-o").c_str(), a.n("-cpu", 200));
  long sh = a.n("-shard", 0), of = a.n("-of", 1), n = a.n("-n", 100), cnt = 0; rng r(a.n("-seed", 1) * 1000 + sh); std::string m = a.s("-mode"), f = a.s("-form", "all"); int max = a.n("-max", 8);
  if (f == "all") forms = { 0, 1, 2, 3 }; else forms = { form_of(f) };
  long lo = 0x110000 / of * sh, hi = sh == of - 1 ? 0x10FFFF : 0x110000 / of * (sh + 1) - 1; auto mine = [&]() { return cnt++ % of == sh; };
  if (m == "single") single(r, lo, hi);
  else if (m == "pairs") { // firsts and seconds of all canonical pairs, Hangul
    for (int x : ucd_firsts) for (int y : ucd_seconds) if (mine() && r.p(a.n("-percent", 100))) nf(r, ints{ x, y });
    for (int x = 0x10FF; x < 0x1114; x++) for (int y = 0x1160; y < 0x1177; y++) if (mine()) nf(r, r.p(50) ? ints{ x, y } : ints{ x, y, 0x11A6 + r.upto(31) });
    for (int x = 0xAC00; x < 0xAC00 + 11172; x++) if (mine() && r.p(10)) nf(r, ints{ x, 0x11A6 + r.upto(31) });
    for (int x : ucd_canon) if (mine()) nf(r, ints{ x, mark(r), mark(r) }); for (int x : ucd_compat) if (mine() && r.p(30)) nf(r, ints{ x, mark(r) });
    for (int x : ucd_marks) if (mine()) nf(r, ints{ starter(r), x, mark(r), mark(r) });
  }
  else if (m == "composites") while (n--) nf(r, around_composite(r));
  else if (m == "hangul") while (n--) nf(r, hangul(r, max));
  else if (m == "random") while (n--) nf(r, text(r, r.p(5) ? max * 6 : max));
  else if (m == "marks") longmarks(r, n, max);
  else if (m == "long") longs(r, n);
  else if (m == "runs") runs(r, n, max);
  else if (m == "laws") while (n--) { laws(r, text(r, r.p(5) ? max * 4 : max)); if (n % 20 == 0) ascii(r); }
  else if (m == "storages") while (n--) storages(r, text(r, max));
  else if (m == "chain") while (n--) chain(r, max);
  else if (m == "steps") while (n--) steps(r, r.p(10) ? max * 8 : max);
  else if (m == "build") while (n--) { ints s = text(r, r.p(10) ? max * 6 : max); if (r.p(30)) { ints x = hangul(r, max); s.insert(s.begin() + r.upto(s.size() + 1), x.begin(), x.end()); } switch (r.upto(4)) { case 0: build<S8>(r, s); break; case 1: build<V8>(r, s); break; case 2: build<S32>(r, s); break; default: build<V32>(r, s); } }
  else if (m == "custom") while (n--) custom(r, r.p(30) ? text(r, max) : any_text(r, max));
  else if (m == "known") for (const ints& s : { ints{ 0x3131, 0x314F }, ints{ 0x3131, 0x1161 }, ints{ 0x326E, 0x11A8 } }) nf(r, s);
  else return 95;
  tr::finish(); return 0;
}
