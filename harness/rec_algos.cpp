// Records standard algorithms at work on codepoint iterators.  Events: spec/trace/AlgosTrace.tla
#include "common.hpp"
#include "texts.hpp"
#include <numeric>
#include <list>
using namespace u5e; using tr::ev;
// writing reads first what is there: in memory that is watched, not octets that stand for something outside
#ifdef VERIF_ASAN
static const std::string fills(".\0", 2);
#else
static const std::string fills("\xAA.\0\xFF", 4);
#endif

static ints value(const std::vector<codepoint>& v) { ints r; for (auto c : v) r.push_back(c.value); return r; }
// I: the iterators of a range first..last of s from i to j; b begins the text; second range: f2..l2 is q
template <class I, class J> static void all(rng& r, const char* st, const ints& s, int i, int j, I b, I f, I l, const ints& q, J f2, J l2, bool sorted) {
  int c = r.p(70) && !s.empty() ? r.pick(s) : any_cp(r), k = r.upto(j - i + 1), d = any_cp(r); codepoint cp(c); int gd = 0;
  auto out = [&](const char* name, const ints& res) { ev("alg").str("name", name).str("st", st).a("s", s).i("i", i).i("j", j).a("q", q).i("c", c).i("k", k).i("d", d).a("res", res).done(); };
  auto at = [&](I x) { return (int)std::distance(b, x); };
  auto from = [&](I x) { return (int)std::distance(f, x); };
  tr::doing(std::string("algorithms on ") + st + " " + show(s));
  typedef std::vector<codepoint> V; V v; (void)gd;
  switch (r.upto(36)) {
  case 0: out("distance", { (int)std::distance(f, l) }); break;
  case 1: { I x(f); std::advance(x, k); out("next", { at(x), at(std::next(f, k)) }); break; }
  case 2: { I x(l); std::advance(x, -k); out("prev", { at(x), at(std::prev(l, k)) }); break; }
  case 3: out("find", { from(std::find(f, l, cp)), from(std::find_if(f, l, [&](codepoint x) { return x == c; })) }); break;
  case 4: out("find_if_not", { from(std::find_if_not(f, l, [&](codepoint x) { return x.value <= c; })) }); break;
  case 5: out("count", { (int)std::count(f, l, cp), (int)std::count_if(f, l, [&](int x) { return x == c; }) }); break;
  case 6: out("tests", { std::all_of(f, l, [&](int x) { return x <= c; }), std::any_of(f, l, [&](int x) { return x <= c; }), std::none_of(f, l, [&](int x) { return x <= c; }) }); break;
  case 7: out("adjacent_find", { from(std::adjacent_find(f, l)) }); break;
  case 8: out("max_element", { from(std::max_element(f, l)) }); break;
  case 9: out("min_element", { from(std::min_element(f, l)) }); break;
  case 10: out("equal", { std::equal(f, l, f2, l2) }); break;
  case 11: { auto m = std::mismatch(f, l, f2, l2); out("mismatch", { from(m.first), (int)std::distance(f2, m.second) }); break; }
  case 12: out("lexicographical_compare", { std::lexicographical_compare(f, l, f2, l2) }); break;
  case 13: out("search", { from(std::search(f, l, f2, l2)) }); break;
  case 14: out("find_end", { from(std::find_end(f, l, f2, l2)) }); break;
  case 15: out("find_first_of", { from(std::find_first_of(f, l, f2, l2)) }); break;
  case 16: std::copy(f, l, std::back_inserter(v)); out("copy", value(v)); break;
  case 17: std::reverse_copy(f, l, std::back_inserter(v)); out("reverse_copy", value(v)); break;
  case 18: { std::reverse_iterator<I> x(l), y(f); for (; x != y && gd++ < 1000; ++x) { codepoint z = *x; v.push_back(z); } out("reverse_copy", value(v)); break; }
  case 19: { std::reverse_iterator<I> x(l), y(f); out("find_last", { (int)std::distance(x, std::find(x, y, cp)) }); break; }
  case 20: out("sum", { (int)std::accumulate(f, l, 0) }); break;
  case 21: std::unique_copy(f, l, std::back_inserter(v)); out("unique_copy", value(v)); break;
  case 22: std::remove_copy(f, l, std::back_inserter(v), cp); out("remove_copy", value(v)); break;
  case 23: std::replace_copy(f, l, std::back_inserter(v), cp, codepoint(d)); out("replace_copy", value(v)); break;
  case 24: { I x(f); std::advance(x, k); std::rotate_copy(f, x, l, std::back_inserter(v)); out("rotate_copy", value(v)); break; }
  case 25: { ints w(f, l); out("copy", w); break; }
  case 26: { str32 w(f, l); out("copy", ints(w.begin(), w.end())); break; }
  case 27: { std::list<int> w; w.assign(f, l); out("copy", ints(w.begin(), w.end())); break; }
  case 28: std::copy_n(f, k, std::back_inserter(v)); out("copy_n", value(v)); break;
  case 29: std::copy_if(f, l, std::back_inserter(v), [&](int x) { return x <= c; }); out("copy_if", value(v)); break;
  case 30: std::for_each(f, l, [&](codepoint x) { v.push_back(x); }); out("copy", value(v)); break;
  case 31: std::transform(f, l, std::back_inserter(v), [](codepoint x) { return codepoint(x.value + 1); }); out("plus_one", value(v)); break;
  case 32: out("is_permutation", { std::is_permutation(f, l, f2, l2) }); break;
  case 33: { V lo, hi; std::partition_copy(f, l, std::back_inserter(lo), std::back_inserter(hi), [&](int x) { return x <= c; }); lo.insert(lo.end(), hi.begin(), hi.end()); out("partition_copy", value(lo)); break; }
  case 34: if (sorted) { out("bounds", { from(std::lower_bound(f, l, cp)), from(std::upper_bound(f, l, cp)), std::binary_search(f, l, cp) }); break; } // fall through
  default: out("is_sorted", { std::is_sorted(f, l), from(std::is_sorted_until(f, l)) }); break;
  }
}
// I made from native positions; ranges also end and begin inside of codepoints
template <class I, class N> static I place(rng& r, N nb, const ints& s, int i, bool utf8) { if (!utf8) return I(nb + i); long p = enc(ints(s.begin(), s.begin() + i)).size(); if (i < (int)s.size() && r.p(30)) p += r.upto(enc(s[i]).size()); return I(nb + p); }
template <class I, class N> static void on(rng& r, const char* st, const ints& s, N nb, bool utf8) {
  ints t(s); int i = r.p(40) ? 0 : r.upto(s.size() + 1), j = r.p(40) ? (int)s.size() : r.in(i, s.size()); bool sorted = std::is_sorted(s.begin(), s.end());
  I f = place<I>(r, nb, s, i, utf8), l = place<I>(r, nb, s, j, utf8), b(nb + 0);
  ints q; if (r.p(70)) { int x = r.in(i, j), y = r.in(x, j); if (r.p(60)) y = std::min(j, x + 2); q = ints(s.begin() + x, s.begin() + y); if (r.p(30) && !q.empty()) q[r.upto(q.size())] = any_cp(r); if (r.p(20)) std::reverse(q.begin(), q.end()); if (r.p(20)) q.push_back(any_cp(r)); } else q = any_text(r, 5);
  if (r.p(50)) { utf8_string o(enc(q)); all<I>(r, st, s, i, j, b, f, l, q, o.codepoint_cbegin(), o.codepoint_cend(), sorted); }
  else { str32 o(q.begin(), q.end()); all<I>(r, st, s, i, j, b, f, l, q, o.cbegin(), o.cend(), sorted); }
}
static ints some(rng& r, int max) { ints s; int n = r.p(5) ? 0 : r.in(1, max); if (r.p(40)) { ints few; for (int i = 0; i < 3; i++) few.push_back(any_cp(r)); while (n--) s.push_back(r.pick(few)); } else while (n--) s.push_back(any_cp(r)); if (r.p(25)) std::sort(s.begin(), s.end()); return s; }
static void ranges(rng& r, const ints& s) {
  std::string t = enc(s); str32 w(s.begin(), s.end());
  switch (r.upto(8)) {
  case 0: { std::string m = t + "!"; on<utf8_const_iterator<const char*>>(r, "pointer", s, m.c_str(), true); break; }
  case 1: { std::string m = t + "!"; on<utf8_iterator<char*>>(r, "mpointer", s, &m[0], true); break; }
  case 2: { owned8 x(t); on<owned8::const_iterator>(r, "S8", s, x.native_cbegin(), true); break; }
  case 3: { owned8 x(t); on<owned8::iterator>(r, "mS8", s, x.native_begin(), true); break; }
  case 4: { V8 x(s, r); on<parted8::const_iterator>(r, "V8", s, x.t.native_cbegin(), true); break; }
  case 5: { V32 x(s, r); on<parted32::const_iterator>(r, "V32", s, x.t.native_cbegin(), false); break; }
  case 6: { owned32 x(w); on<owned32::iterator>(r, "mS32", s, x.native_begin(), false); break; }
  default: { owned32 x(w); on<owned32::const_iterator>(r, "S32", s, x.native_cbegin(), false); break; } }
}
// algorithms that write through the mutable iterator into room of the right size
static int same_size(rng& r, int c) { for (int k = 0; k < 60; k++) { int d = any_cp(r); if (enc(d).size() == enc(c).size()) return d; } return c; }
template <class W> static auto from_mutable(W a, W b, W o, int) -> decltype((void)(*o = *a)) { std::copy(a, b, o); }
template <class W> static void from_mutable(W a, W b, W o, long) { for (; a != b; ++a, ++o) *o = codepoint((int)*a); }
static void writes(rng& r, const ints& s) {
  std::string t = enc(s); char fill = r.pick(fills); int c = s.empty() || r.p(20) ? any_cp(r) : r.pick(s), d = same_size(r, c); tr::doing("writing algorithms " + show(s));
  auto out = [&](const char* name, size_t room, std::function<void(utf8_iterator<char*>, utf8_iterator<char*>)> f, const std::string& init = "") {
    std::string buf(room + 8, fill); buf[0] = '<'; if (init.size()) buf.replace(3, room, init); f(utf8_iterator<char*>(&buf[3]), utf8_iterator<char*>(&buf[3] + room));
    ev("wrote").str("name", name).a("s", s).i("c", c).i("d", d).octets("out", buf.substr(3, room)).b("around", buf.substr(0, 3) == '<' + std::string(2, fill) && buf.substr(3 + room) == std::string(5, fill)).done(); };
  typedef utf8_iterator<char*> W; utf8_string x(t); utf32ne_string y(str32(s.begin(), s.end())); int n = s.size();
  switch (r.upto(10)) {
  case 9: { std::string z = t + "!"; W a(&z[0]), b(&z[0] + t.size()); out("copy", t.size(), [&](W o, W) { from_mutable(a, b, o, 0); }); break; }
  case 0: out("copy", t.size(), [&](W o, W) { std::copy(x.codepoint_cbegin(), x.codepoint_cend(), o); }); break;
  case 1: out("copy", t.size(), [&](W o, W) { std::copy(y.codepoint_cbegin(), y.codepoint_cend(), o); }); break;
  case 2: out("copy", t.size(), [&](W o, W) { std::copy_n(x.codepoint_cbegin(), n, o); }); break;
  case 3: out("reverse_copy", t.size(), [&](W o, W) { std::reverse_copy(x.codepoint_cbegin(), x.codepoint_cend(), o); }); break;
  case 4: out("fill", enc(c).size() * n, [&](W o, W) { std::fill_n(o, n, codepoint(c)); }); break;
  case 5: out("copy", t.size(), [&](W o, W) { int k = 0; std::generate_n(o, n, [&]() { return codepoint(s[k++]); }); }); break;
  case 6: out("copy", t.size(), [&](W o, W) { std::transform(y.codepoint_begin(), y.codepoint_end(), o, [](codepoint z) { return z; }); }); break;
  case 7: if (n) { out("replace", t.size(), [&](W o, W e) { std::replace(o, e, codepoint(c), codepoint(d)); }, t); } break;
  default: out("remove_copy", enc([&]() { ints z; for (int v : s) if (v != c) z.push_back(v); return z; }()).size(), [&](W o, W) { std::remove_copy(x.codepoint_cbegin(), x.codepoint_cend(), o, codepoint(c)); }); break; }
}
// texts of hundreds of thousands of codepoints, as runs << codepoint, times >>
template <class I> static void long_on(const char* st, I f, I l, rng& r, const std::vector<ints>& rs, int n) {
  int k = r.p(50) ? r.upto(n + 1) : std::min(n, (1 << r.in(7, 17)) + r.in(-1, 1)), c = r.p(70) ? rs[r.upto(rs.size())][0] : any_cp(r);
  tr::doing(std::string("long range ") + st); codepoint cp(c); long long res = -1; const char* name = "";
  switch (r.upto(8)) {
  case 0: name = "distance"; res = std::distance(f, l); break;
  case 1: name = "count"; res = std::count(f, l, cp); break;
  case 2: name = "count_if"; res = std::count_if(f, l, [&](int x) { return x <= c; }); break;
  case 3: name = "next"; if (k == n) k--; { I x(f); std::advance(x, k); codepoint y = *x; res = y.value; } break;
  case 4: name = "prev"; if (k == 0) k++; { I x(l); std::advance(x, -k); codepoint y = *x; res = y.value; } break;
  case 5: name = "find"; res = std::distance(f, std::find(f, l, cp)); break;
  case 6: name = "walk"; { int seen = 0; for (I x(l); x != f; --x) seen++; res = seen; } break;
  default: name = "copy"; { std::vector<int> w(f, l); res = w.size(); ints v(w.begin(), w.end()); std::vector<ints> got; for (int x : v) { if (got.size() < 50 && (got.empty() || got.back()[0] != x)) got.push_back(ints{ x, 0 }); got.back()[1]++; } ev("copied").str("st", st).aa("rs", rs).aa("got", got).done(); } }
  ev("long").str("name", name).str("st", st).aa("rs", rs).i("c", c).i("k", k).i("res", res).done();
}
static void longs(rng& r, int max) {
  std::vector<ints> rs; str32 s; int m = r.in(1, 5); while (m--) { int c = any_cp(r), k = r.p(30) ? r.in(1, 3) : r.p(50) ? r.in(1, max / 4) : (1 << r.in(6, 16)) + r.in(-1, 1); if (!rs.empty() && rs.back()[0] == c) continue; rs.push_back(ints{ c, k }); s.append(k, c); }
  int n = s.size(); std::string t = enc(ints(s.begin(), s.end()));
  switch (r.upto(7)) {
  case 0: { std::string z = t + "!"; long_on("pointer", utf8_const_iterator<const char*>(z.data()), utf8_const_iterator<const char*>(z.data() + t.size()), r, rs, n); break; }
  case 1: { utf8_string x(t); long_on("S8", x.codepoint_cbegin(), x.codepoint_cend(), r, rs, n); break; }
  case 2: { utf8_string x(t); long_on("mS8", x.codepoint_begin(), x.codepoint_end(), r, rs, n); break; }
  case 3: { utf8_string_view x(std::experimental::string_view(t.data(), t.size())); long_on("V8", x.codepoint_cbegin(), x.codepoint_cend(), r, rs, n); break; }
  case 4: { utf32ne_string x(s); long_on("S32", x.codepoint_cbegin(), x.codepoint_cend(), r, rs, n); break; }
  case 5: { utf32ne_string x(s); long_on("mS32", x.codepoint_begin(), x.codepoint_end(), r, rs, n); break; }
  default: { std::string z = t + "!"; long_on("mpointer", utf8_iterator<char*>(&z[0]), utf8_iterator<char*>(&z[0] + t.size()), r, rs, n); } }
}
int main(int argc, char** argv) {
  args a(argc, argv); tr::start(a.s("-o").c_str(), a.n("-cpu", 120));
  long n = a.n("-n", 100); rng r(a.n("-seed", 1) * 1000 + a.n("-shard", 0)); std::string m = a.s("-mode"); int max = a.n("-max", 10);
  if (m == "ranges") while (n--) ranges(r, some(r, max));
  else if (m == "writes") while (n--) writes(r, some(r, max));
  else if (m == "long") while (n--) longs(r, max);
  else return 95;
  tr::finish(); return 0;
}
