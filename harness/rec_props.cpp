// Records what the property lookups and the decomposition operations do.
// Events: spec/trace/PropsTrace.tla
#include "common.hpp"
#include "ucd_sets.hpp"
#include <experimental/string_view>
#include <u5e/utf32ne_string.hpp>
#include <u5e/utf32ne_string_view.hpp>
#include <u5e/canonical_decomposition.hpp>
#include <u5e/compatibility_and_canonical_decomposition.hpp>
#include <u5e/props/grapheme_cluster_break.hpp>
#include <u5e/props/canonical_combining_class.hpp>
#include <u5e/props/canonical_decomposition_mapping.hpp>
#include <u5e/props/compatibility_and_canonical_decomposition_mapping.hpp>
#include <u5e/props/canonical_composition_mapping.hpp>
using namespace u5e; using tr::ev;

// the numbering of Graphemes.tla
static int gcb(int c) {
  typedef props::grapheme_cluster_break P;
  switch (P::resolve(codepoint(c))) {
  case P::OTHER: return 0; case P::CR: return 1; case P::LF: return 2; case P::CONTROL: return 3; case P::EXTEND: return 4; case P::PREPEND: return 5; case P::SPACINGMARK: return 6;
  case P::L: return 7; case P::V: return 8; case P::T: return 9; case P::LV: return 10; case P::LVT: return 11; case P::REGIONAL_INDICATOR: return 12; case P::E_BASE: return 13;
  case P::E_MODIFIER: return 14; case P::ZWJ: return 15; case P::GLUE_AFTER_ZWJ: return 16; case P::E_BASE_GAZ: return 17; }
  return 99;
}
static int ccc(int c) { return props::canonical_combining_class::resolve(c); }
// every codepoint of a part, in some order, written as runs
static void lookup(const char* op, int (*f)(int), long lo, long hi, int order, rng& r) {
  long n = hi - lo + 1; ints v(n, -7);
  long stride = order == 0 ? 1 : order == 1 ? n - 1 : 0; 
  if (order == 2) { do stride = r.in(2, n - 1) | 1; while (std::__gcd(stride, n) != 1); }
  for (long k = 0, x = order == 1 ? n - 1 : 0; k < n; k++, x = (x + stride) % n) { char cur[48]; snprintf(cur, sizeof cur, "%s of U+%04lX", op, lo + x); tr::doing(cur); v[x] = f(lo + x); }
  for (long a = 0; a < n; ) { long b = a; while (b < n && v[b] == v[a]) b++; ev(op).i("from", lo + a).i("n", b - a).i("v", v[a]).done(); a = b; }
}

struct decomposition { bool compat; ints pre, out, res; bool null; int count; };
static ints mapping(int const* p) { ints r; while (p && *p && r.size() < 64) r.push_back(*p++); return r; }
static decomposition decompose(int c, bool compat, const ints& pre) {
  decomposition d; d.compat = compat; d.pre = pre; utf32ne_string o; o.native_string.assign(pre.begin(), pre.end());
  d.count = compat ? compatibility_and_canonical_decomposition<utf32ne_string>(codepoint(c), o) : canonical_decomposition<utf32ne_string>(codepoint(c), o);
  d.out = ints(o.native_string.begin(), o.native_string.end());
  int const* m = compat ? props::compatibility_and_canonical_decomposition_mapping::resolve(c) : props::canonical_decomposition_mapping::resolve(c);
  d.null = m == nullptr; d.res = mapping(m); return d;
}
static void decsweep(bool compat, long lo, long hi, int order, rng& r) {
  long r0 = -1, rn = 0; ints pre; long n = hi - lo + 1;
  auto out = [&]() { if (r0 >= 0) ev("decid").b("compat", compat).i("from", r0).i("n", rn).a("pre", pre).done(); r0 = -1; };
  for (long k = 0; k < n; k++) {
    long c = order ? hi - k : lo + k; char cur[48]; snprintf(cur, sizeof cur, "decomposition of U+%04lX", c); tr::doing(cur);
    if (k % 4096 == 0) { out(); pre = any_text(r, 3); }
    decomposition d = decompose(c, compat, pre); ints same = pre; same.push_back(c);
    if (d.out == same && d.null && d.count == 1) { if (r0 >= 0 && order) { r0--; rn++; } else if (r0 >= 0) rn++; else { r0 = c; rn = 1; } }
    else { out(); ev("dec").b("compat", compat).i("c", c).a("pre", pre).a("out", d.out).i("count", d.count).b("null", d.null).a("res", d.res).done(); }
  }
  out();
}
// canonical_composition_mapping over a rectangle of pairs
static void rectangle(long a0, long an, const ints& as, long b0, long bn, const ints& bs) {
  std::vector<ints> hits; const size_t max = 30000;
  auto one = [&](int a, int b) { int c = -5; bool ok = props::canonical_composition_mapping::resolve(a, b, &c); if (ok && hits.size() < max) hits.push_back(ints{ a, b, c }); };
  char cur[80]; snprintf(cur, sizeof cur, "composition of pairs from %lX, %lX", as.empty() ? a0 : (long)as[0], bs.empty() ? b0 : (long)bs[0]); tr::doing(cur);
  if (!bs.empty()) for (long a = a0; a < a0 + an; a++) for (int b : bs) one(a, b);
  else for (int a : as) for (long b = b0; b < b0 + bn; b++) one(a, b);
  ev("comp").i("a0", a0).i("an", an).a("as", as).i("b0", b0).i("bn", bn).a("bs", bs).aa("hits", hits).done();
}
int main(int argc, char** argv) {
  args a(argc, argv); tr::start(a.s("-o").c_str(), a.n("-cpu", 300));
  long sh = a.n("-shard", 0), of = a.n("-of", 1), n = a.n("-n", 1000000); rng r(a.n("-seed", 1) * 1000 + sh); std::string m = a.s("-mode");
  long lo = 0x110000 / of * sh, hi = sh == of - 1 ? 0x10FFFF : 0x110000 / of * (sh + 1) - 1; int order = a.n("-order", 0);
  if (m == "gcb") lookup("gcb", gcb, lo, hi, order, r);
  else if (m == "ccc") lookup("ccc", ccc, lo, hi, order, r);
  else if (m == "dec") decsweep(false, lo, hi, order, r);
  else if (m == "kdec") decsweep(true, lo, hi, order, r);
  else if (m == "comp") {
    ints firsts = ucd_firsts, seconds = ucd_seconds;
    for (int x = 0x1100 - 2; x < 0x1100 + 19 + 3; x++) firsts.push_back(x); for (int x = 0x1161 - 2; x < 0x1161 + 21 + 3; x++) { seconds.push_back(x); firsts.push_back(x); } for (int x = 0x11A7 - 2; x < 0x11A7 + 28 + 3; x++) seconds.push_back(x);
    std::set<int> u(firsts.begin(), firsts.end()), w(seconds.begin(), seconds.end()); firsts.assign(u.begin(), u.end()); seconds.assign(w.begin(), w.end());
    // all codepoints as first, everything that is a second somewhere as second
    const long page = 4096; for (long x = lo; x <= hi; x += page) rectangle(x, std::min(page, hi - x + 1), {}, 0, 0, seconds);
    // and the other way round; LV syllables as first only with a stride
    long k = 0; ints chunk; auto flush = [&]() { if (!chunk.empty()) { if (k++ % of == sh) for (long b = 0; b < 0x110000; b += 0x22000) rectangle(0, 0, chunk, b, 0x22000, {}); chunk.clear(); } };
    for (int x : firsts) { chunk.push_back(x); if (chunk.size() == 4) flush(); } flush();
    for (int x = 0xAC00; x < 0xAC00 + 11172; x += 28) if (r.p(a.n("-lv", 12))) { chunk.push_back(x); if (chunk.size() == 4) flush(); if (r.p(20)) { chunk.push_back(x + r.in(1, 27)); } } flush();
    // a square around the Hangul blocks and random squares
    if (sh == 0) { ints l; for (int x = 0x10F0; x < 0x1120; x++) l.push_back(x); rectangle(0, 0, l, 0x1150, 0x100, {}); l.clear(); for (int x = 0xABF0; x < 0xAC60; x++) l.push_back(x); rectangle(0, 0, l, 0x1150, 0x100, {}); l.clear(); for (int x = 0xD780; x < 0xD7B0; x++) l.push_back(x); rectangle(0, 0, l, 0x1150, 0x100, {}); }
    while (n > 0) { ints l; for (int i = 0; i < 16; i++) l.push_back(r.p(40) ? r.pick(firsts) : any_cp(r)); std::set<int> s(l.begin(), l.end()); l.assign(s.begin(), s.end()); long b = r.upto(0x10F000); rectangle(0, 0, l, b, 0x1000, {}); n -= 65536; }
  }
  else return 95;
  tr::finish(); return 0;
}
