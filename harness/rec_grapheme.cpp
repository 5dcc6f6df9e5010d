// Records what grapheme iterators do.  Events: spec/trace/GraphemeTrace.tla
#include "common.hpp"
#include "texts.hpp"
#include <u5e/basic_grapheme_iterator.hpp>
#include <u5e/utf8_string_grapheme_iterator.hpp>
#include <u5e/utf8_string_view_grapheme_iterator.hpp>
#include <u5e/utf32ne_string_grapheme_iterator.hpp>
#include <u5e/utf32ne_string_view_grapheme_iterator.hpp>
#include <u5e/utf8_bounds.hpp>
using namespace u5e; using tr::ev;

template <class G, class B> static ints range(G g, B b) { return ints{ (int)raw(g.codepoint_begin(), b), (int)raw(g.codepoint_end(), b) }; }
template <class G> static ints content(G g) { ints r; int guard = 0; for (auto i = g.codepoint_begin(); i != g.codepoint_end() && guard++ < 100000; ++i) { codepoint c = *i; r.push_back(c.value); } return r; }

template <class H> static ints natives(const ints& s) { ints r; int p = 0; for (int c : s) { r.push_back(p); p += H::utf8 ? enc(c).size() : 1; } r.push_back(p); return r; }

//------------------------------------------------------------------ sessions
template <class H> static void session(rng& r, const ints& s, int ops) {
  typedef typename H::type T; typedef basic_grapheme_iterator<T> GI; typedef typename T::const_iterator CI;
  H h(s, r); T& t = h.t; auto nb = t.native_cbegin(); long len = t.native_cend() - nb; ints off = natives<H>(s);
  tr::doing(std::string("grapheme session ") + H::name() + " " + show(s));
  ev("new").a("s", s).str("st", H::name()).b("utf8", H::utf8).done();
  auto at = [&](long p) { return CI(nb + p); };
  std::vector<GI> it; for (int i = 0; i < 3; i++) it.push_back(GI(t.codepoint_cbegin(), t.codepoint_cend()));
  auto put = [&](int i, const GI& g) { std::vector<GI> n; for (int k = 0; k < 3; k++) n.push_back(k == i ? g : it[k]); it.swap(n); };
  auto atend = [&](int i) { return it[i] == t.codepoint_cend() && raw((*it[i]).codepoint_begin(), nb) >= len; };
  auto g = [&](int i) { return range(*it[i], nb); };
  auto anypos = [&]() -> int { return r.upto(len + 1); };
  while (ops--) {
    int i = r.upto(3), j = r.upto(3);
    switch (r.upto(11)) {
    case 0: put(i, t.grapheme_begin()); ev("begin").i("i", i).a("g", g(i)).done(); break;
    case 1: put(i, t.grapheme_end()); ev("end_").i("i", i).a("g", g(i)).done(); break;
    case 2: case 3: { int p = anypos(); put(i, GI(t.codepoint_cbegin(), t.codepoint_cend(), at(p))); ev("place").i("i", i).i("p", p).a("g", g(i)).done(); break; }
    case 4: case 5: if (!atend(i)) { GI x = ++it[i]; ev("inc").i("i", i).a("g", g(i)).a("ret", range(*x, nb)).done(); } break;
    case 6: if (!atend(i)) { GI x = it[i]++; ev("pinc").i("i", i).a("g", g(i)).a("ret", range(*x, nb)).done(); } break;
    case 7: { put(i, GI(it[j])); ev("copy").i("i", i).i("j", j).a("g", g(i)).done(); break; }
    case 8: if (!atend(i)) { auto y = *it[i]; ev("deref").i("i", i).a("g", range(y, nb)).a("cps", content(y)).done(); } break;
    case 9: { bool q = it[i] == it[j], n = it[i] != it[j]; ev("eq").i("i", i).i("j", j).b("eq", q).b("ne", n).done(); break; }
    case 10: { int p = anypos(); bool q = it[i] == at(p), n = it[i] != at(p); ev("eqpos").i("i", i).i("p", p).b("eq", q).b("ne", n).done(); break; }
    }
  }
}
//------------------------------------------------------------------ the graphemes of a text, walked in one of several ways
template <class H> static void walk(rng& r, const ints& s, int how) {
  typedef typename H::type T; typedef basic_grapheme_iterator<T> GI;
  H h(s, r); T& t = h.t; auto nb = t.native_cbegin();
  tr::doing(std::string("walking the graphemes ") + H::name() + " " + std::to_string(how) + " " + show(s));
  std::vector<ints> g, c; size_t guard = s.size() * 2 + 5; bool same = true;
  switch (how) {
  case 0: for (GI i = t.grapheme_begin(); i != t.grapheme_end() && g.size() < guard; ++i) { g.push_back(range(*i, nb)); c.push_back(content(*i)); } break;
  case 1: for (GI i = t.grapheme_begin(); !(i == t.grapheme_end()) && g.size() < guard; ) { GI j = i++; g.push_back(range(*j, nb)); c.push_back(content(*j)); } break;
  case 2: { GI i(t.codepoint_cbegin(), t.codepoint_cend()); auto e = t.codepoint_cend(); while (i != e && g.size() < guard) { GI k(i); g.push_back(range(*k, nb)); c.push_back(content(*k)); i++; } break; }
  case 3: { GI i = t.grapheme_begin(); GI e(t.codepoint_cbegin(), t.codepoint_cend(), t.codepoint_cend()); while (i != e && g.size() < guard) { GI k(i); ++k; g.push_back(range(*i, nb)); c.push_back(content(*i)); ++i; if (!(i == k)) same = false; } break; }
  }
  ev("walk").a("s", s).str("st", H::name()).b("utf8", H::utf8).i("how", how).aa("g", g).aa("cps", c).b("same", same).done();
}
// which grapheme every position of a text belongs to, and all comparisons
template <class H> static void places(rng& r, const ints& s) {
  typedef typename H::type T; typedef basic_grapheme_iterator<T> GI; typedef typename T::const_iterator CI;
  H h(s, r); T& t = h.t; auto nb = t.native_cbegin(); long len = t.native_cend() - nb;
  tr::doing(std::string("grapheme places ") + H::name() + " " + show(s));
  std::vector<ints> g, nx, eq, ep;
  for (long p = 0; p <= len; p++) {
    GI i(t.codepoint_cbegin(), t.codepoint_cend(), CI(nb + p)); g.push_back(range(*i, nb));
    if (p < len) { GI k(i); ++k; nx.push_back(range(*k, nb)); } else nx.push_back(ints{ -1, -1 });
    ints row, row2;
    for (long q = 0; q <= len; q++) { GI j(t.codepoint_cbegin(), t.codepoint_cend(), CI(nb + q)); row.push_back((i == j) + 2 * (i != j)); row2.push_back((i == CI(nb + q)) + 2 * (i != CI(nb + q))); }
    eq.push_back(row); ep.push_back(row2);
  }
  ev("places").a("s", s).str("st", H::name()).b("utf8", H::utf8).aa("g", g).aa("nx", nx).aa("eq", eq).aa("ep", ep).done();
}
// some positions of a text with long graphemes
template <class H> static void spots(rng& r, const ints& s, const ints& cuts) {
  typedef typename H::type T; typedef basic_grapheme_iterator<T> GI; typedef typename T::const_iterator CI;
  H h(s, r); T& t = h.t; auto nb = t.native_cbegin(); long len = t.native_cend() - nb; ints off = natives<H>(s), ps;
  for (int c : cuts) for (int d = -1; d <= 1; d++) { int p = off[c] + d; if (p >= 0 && p <= len) ps.push_back(p); }
  for (int k = 0; k < 6; k++) ps.push_back(r.upto(len + 1));
  for (size_t i = ps.size() - 1; i > 0; i--) std::swap(ps[i], ps[r.upto(i + 1)]);
  if (ps.size() > 20) ps.resize(20);
  tr::doing(std::string("places in long graphemes ") + H::name());
  std::vector<ints> g, nx, eq, ep;
  for (int p : ps) { GI i(t.codepoint_cbegin(), t.codepoint_cend(), CI(nb + p)); g.push_back(range(*i, nb));
    if (p < len) { GI k(i); if (r.p(50)) ++k; else k++; nx.push_back(range(*k, nb)); } else nx.push_back(ints{ -1, -1 });
    ints row, row2; for (int q : ps) { GI j(t.codepoint_cbegin(), t.codepoint_cend(), CI(nb + q)); row.push_back((i == j) + 2 * (i != j)); row2.push_back((i == CI(nb + q)) + 2 * (i != CI(nb + q))); }
    eq.push_back(row); ep.push_back(row2); }
  ev("spots").a("s", s).str("st", H::name()).b("utf8", H::utf8).a("ps", ps).aa("g", g).aa("nx", nx).aa("eq", eq).aa("ep", ep).done();
}
// texts of runs << codepoint, times >>, graphemes of any size: places, comparisons, the number of graphemes
template <class H> static void giant(rng& r, const std::vector<ints>& rs) {
  typedef typename H::type T; typedef basic_grapheme_iterator<T> GI; typedef typename T::const_iterator CI;
  ints s; std::vector<long> marks{ 0 }; long at = 0; for (auto& x : rs) { s.insert(s.end(), x[1], x[0]); at += (H::utf8 ? (long)enc(x[0]).size() : 1) * x[1]; marks.push_back(at); }
  H h(s, r); T& t = h.t; auto nb = t.native_cbegin(); long len = t.native_cend() - nb; ints ps;
  tr::doing(std::string("places in giant graphemes ") + H::name());
  while (ps.size() < 7) { long p = r.p(60) ? marks[r.upto(marks.size())] + r.in(-4, 4) : r.p(50) ? r.in(0, len) : r.p(50) ? len - r.in(0, 9) : r.in(0, 9); if (p >= 0 && p <= len) ps.push_back(p); }
  std::vector<ints> g, nx, eq, ep; std::vector<GI> its;
  for (int p : ps) { its.push_back(GI(t.codepoint_cbegin(), t.codepoint_cend(), CI(nb + p))); GI& i = its.back(); g.push_back(range(*i, nb)); if (p < len) { GI k(i); if (r.p(50)) ++k; else k++; nx.push_back(range(*k, nb)); } else nx.push_back(ints{ -1, -1 }); }
  for (auto& i : its) { ints row, row2; for (int q : ps) { bool both = r.p(50); row2.push_back(both ? (i == CI(nb + q)) + 2 * (i != CI(nb + q)) : (i == CI(nb + q)) ? 1 : 2); } ep.push_back(row2);
    // comparing two iterators looks at all pairs of positions of their graphemes
    for (auto& j : its) { auto a = *i, b = *j; long x = std::distance(a.codepoint_begin(), a.codepoint_end()), y = std::distance(b.codepoint_begin(), b.codepoint_end()); if ((double)x * y > 4e5) row.push_back(0); else row.push_back((i == j) + 2 * (i != j)); } eq.push_back(row); }
  long n = 0, cps = 0, guard = 0; for (GI i = t.grapheme_begin(); i != t.codepoint_cend() && guard++ < (long)s.size() + 5; i++) { auto x = *i; n++; cps += std::distance(x.codepoint_begin(), x.codepoint_end()); }
  ev("giant").aa("rs", rs).str("st", H::name()).b("utf8", H::utf8).a("ps", ps).aa("g", g).aa("nx", nx).aa("eq", eq).aa("ep", ep).i("n", n).i("cps", cps).done();
}
static std::vector<ints> run_text(rng& r, int max) {
  std::vector<ints> rs; int k = r.in(1, 6); bool calm = r.p(30);
  while (k--) { int c = r.pick(gcb_reps[r.p(60) ? r.pick(ints{ 4, 6, 7, 8, 9, 12, 5, 15 }) : r.upto(18)]); int n = 1; while (n < max && r.p(calm ? 40 : 85)) n = n * 2 + r.upto(2); rs.push_back(ints{ c, std::min(n, max) }); }
  return rs;
}
static ints long_text(rng& r, int max, ints& cuts) {
  ints s; int k = r.in(1, 4); cuts.push_back(0);
  while (k--) { if (r.p(40)) { ints x = class_text(r, 4); s.insert(s.end(), x.begin(), x.end()); }
    ints u; switch (r.upto(5)) { case 0: u = { 0x1F1E6 + r.upto(26) }; break; case 1: u = { r.pick(gcb_reps[4]), r.pick(gcb_reps[6]) }; break; case 2: u = { r.pick(gcb_reps[5]) }; break; case 3: u = { r.pick(gcb_reps[r.upto(18)]) }; break; default: u = { r.pick(mark_cps), 0x200D }; }
    if (r.p(50)) s.push_back(r.pick(base_cps)); cuts.push_back(s.size());
    int n = r.p(50) ? r.in(1, 40) : r.in(1, max); for (int i = 0; i < n; i++) s.insert(s.end(), u.begin(), u.end()); cuts.push_back(s.size()); }
  if (r.p(50)) s.push_back(r.pick(base_cps)); return s;
}
#define ANY(f, k, ...) do { switch ((k) % 4) { case 0: f<V8>(__VA_ARGS__); break; case 1: f<V32>(__VA_ARGS__); break; case 2: f<S8>(__VA_ARGS__); break; default: f<S32>(__VA_ARGS__); } } while (0)

static ints some_text(rng& r, int maxlen) { int k = r.upto(4); return k == 0 ? any_text(r, maxlen) : k == 1 ? mark_text(r, maxlen) : class_text(r, maxlen); }

//------------------------------------------------------------------ a slice of a buffer, repaired and walked in place
static void slice(rng& r, int max) {
  ints s; int k = r.in(1, max); while (k--) s.push_back(r.p(40) ? r.pick(edge_cps) : r.p(50) ? r.pick(mark_cps) : any_cp(r));
  std::string m = enc(s), before; long lo = r.upto(m.size() + 1), hi = lo + r.upto(m.size() - lo + 1); if (r.p(30)) lo = 0;
  before = m; tr::doing("repairing and walking a slice of " + show(s) + " from " + std::to_string(lo) + " to " + std::to_string(hi));
  std::vector<char> mem(m.begin(), m.end()); mem.shrink_to_fit(); char* p = mem.data();
  bool ok = utf8_bounds<char*>::check(p + lo, p + hi), same = utf8_bounds<char*>::enforce(p + lo, p + hi);
  utf8_string_view v(sv8(p + lo, hi - lo)); auto nb = v.native_cbegin(); size_t guard = m.size() + 5; bool copies = true;
  ints f, g, w; std::vector<ints> gr, cps;
  { auto i = v.codepoint_cbegin(), e = v.codepoint_cend(); while (i != e && f.size() < guard) { codepoint c = *i; f.push_back(c.value); ++i; } }
  { utf8_iterator<char*> i(p + lo), e(p + hi); while (!(i == e) && w.size() < guard) { utf8_iterator<char*> j = i++; codepoint c = *j; w.push_back(c.value); } }
  { utf8_const_iterator<const char*> i(p + lo), e(p + hi); while (i != e && g.size() < guard) { auto j = i++; auto h = j; codepoint c = *h; g.push_back(c.value); if (!(h == j)) copies = false; } }
  for (auto i = v.grapheme_begin(); i != v.grapheme_end() && gr.size() < guard; ++i) { gr.push_back(range(*i, nb)); cps.push_back(content(*i)); }
  int n = 0; { auto i = v.grapheme_begin(); auto e = v.codepoint_cend(); while (i != e && (size_t)n < guard) { i++; n++; } }
  ev("slice").octets("m", before).i("lo", lo).i("hi", hi).b("chk", ok).b("enf", same).octets("em", std::string(mem.begin(), mem.end())).a("f", f).a("w", w).a("g", g).aa("gr", gr).aa("cps", cps).i("n", n).b("copies", copies).done();
}
//------------------------------------------------------------------ every codepoint next to every class (C09)
static bool boundary(int a, int b) { int m[2] = { a, b }; utf32ne_string_view v{sv32(m, 2)}; auto i = v.grapheme_begin(); return (*i).codepoint_end() - v.codepoint_cbegin() == 1; }
static void bsweep(rng& r, long from, long to) {
  ints reps; for (auto& c : gcb_reps) reps.push_back(c[r.upto(c.size())]);
  struct sig { ints a, b; bool operator==(const sig& o) const { return a == o.a && b == o.b; } } run; long r0 = -1, rn = 0;
  auto out = [&]() { if (r0 >= 0) ev("bsweep").i("from", r0).i("n", rn).a("reps", reps).a("a", run.a).a("b", run.b).done(); };
  for (long c = from; c <= to; c++) {
    char cur[64]; snprintf(cur, sizeof cur, "boundaries around U+%04lX", c); tr::doing(cur);
    sig s; for (int x : reps) { s.a.push_back(boundary(x, c)); s.b.push_back(boundary(c, x)); }
    if (r0 >= 0 && s == run) rn++; else { out(); run = s; r0 = c; rn = 1; }
  }
  out();
}
//------------------------------------------------------------------ long texts
static void glong(rng& r, long n) {
  while (n--) {
    ints u; long times = n ? r.in(3000, 60000) : r.in(66000, 140000);
    switch (r.upto(4)) { case 0: u = { 0x1F1E6 }; break; case 1: u = { 'e', 0x301, 0x323 }; break; case 2: u = { r.pick(r.pick(gcb_reps)) }; break;
      default: u = { r.pick(base_cps) }; { int k = r.upto(4); while (k--) u.push_back(r.pick(mark_cps)); } }
    ints s; for (long i = 0; i < times; i++) s.insert(s.end(), u.begin(), u.end());
    std::vector<ints> rle; long total = 0;
    auto see = [&](long len) { total += len; if (!rle.empty() && rle.back()[0] == len) rle.back()[1]++; else if (rle.size() < 20) rle.push_back(ints{ (int)len, 1 }); else rle.back()[1] += 1000000; };
    tr::doing("graphemes of a long text of " + show(u));
    if (r.p(50)) { V8 h(s, r); long guard = 0; for (auto i = h.t.grapheme_begin(); i != h.t.codepoint_cend() && guard++ < (long)s.size() + 5; ++i) { auto g = *i; see(std::distance(g.codepoint_begin(), g.codepoint_end())); } }
    else { V32 h(s, r); long guard = 0; for (auto i = h.t.grapheme_begin(); i != h.t.codepoint_cend() && guard++ < (long)s.size() + 5; ++i) { auto g = *i; see(std::distance(g.codepoint_begin(), g.codepoint_end())); } }
    ev("glong").a("unit", u).i("times", times).aa("rle", rle).i("total", total).done();
  }
}

int main(int argc, char** argv) {
  args a(argc, argv); tr::start(a.s("-o").c_str(), a.n("-cpu", 120));
  long sh = a.n("-shard", 0), of = a.n("-of", 1), n = a.n("-n", 100), cnt = 0; rng r(a.n("-seed", 1) * 1000 + sh);
  std::string m = a.s("-mode"); int max = a.n("-max", 10); cont_after = true;
  auto mine = [&]() { return cnt++ % of == sh; };
  long lo = 0x110000 / of * sh, hi = sh == of - 1 ? 0x10FFFF : 0x110000 / of * (sh + 1) - 1;
  if (m == "session") while (n--) { ints s = some_text(r, max); ANY(session, r.upto(4), r, s, (int)a.n("-ops", 30)); }
  else if (m == "walk") while (n--) { ints s = some_text(r, r.p(10) ? max * 10 : max); ANY(walk, r.upto(4), r, s, r.upto(4)); }
  else if (m == "storages") while (n--) { ints s = some_text(r, max); int how = r.upto(4); for (int k = 0; k < 4; k++) ANY(walk, k, r, s, how); }
  else if (m == "places") while (n--) { ints s = some_text(r, max); ANY(places, r.upto(4), r, s); }
  else if (m == "spots") while (n--) { ints cuts, s = long_text(r, max, cuts); ANY(spots, r.upto(4), r, s, cuts); }
  else if (m == "giant") while (n--) { auto rs = run_text(r, max); ANY(giant, r.upto(4), r, rs); }
  else if (m == "contexts") {     // every sequence of classes of one length
    int len = a.n("-len", 3); long tot = 1; for (int i = 0; i < len; i++) tot *= 18;
    for (long x = 0; x < tot; x++) if (mine()) { ints s; long y = x; for (int i = 0; i < len; i++) { s.push_back(r.pick(gcb_reps[y % 18])); y /= 18; } ANY(walk, cnt / of, r, s, (int)(cnt / of / 4 % 4)); }
  }
  else if (m == "slices") while (n--) slice(r, max);
  else if (m == "bsweep") bsweep(r, lo, hi);
  else if (m == "long") glong(r, n);
  else return 95;
  tr::finish(); return 0;
}
