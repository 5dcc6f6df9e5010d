// Records what u5e::filter does.  Events: spec/trace/FilterTrace.tla
#include "common.hpp"
#include "texts.hpp"
#include <list>
#include <deque>
#include <sstream>
#include <forward_list>
#include <u5e/filter.hpp>
#include <u5e/basic_grapheme_iterator.hpp>
#include <u5e/utf8_string_grapheme_iterator.hpp>
#include <u5e/utf8_string_view_grapheme_iterator.hpp>
#include <u5e/utf32ne_string_grapheme_iterator.hpp>
#include <u5e/utf32ne_string_view_grapheme_iterator.hpp>
using namespace u5e; using tr::ev;

// the output object: notes copies
struct sink { ints got; int copies = 0; sink() {} sink(const sink& o) : got(o.got), copies(o.copies + 1) {} sink& operator=(const sink& o) { got = o.got; copies = o.copies + 1; return *this; } };
static int number(int x) { return x; } static int number(char x) { return (unsigned char)x; } static int number(const codepoint& c) { return c.value; }
// a grapheme as one number: its codepoints in base 31, modulo a prime
template <class T> static int number(basic_grapheme<T> g) { long h = 7; int guard = 0; for (auto i = g.codepoint_begin(); i != g.codepoint_end() && guard++ < 10000; ++i) { codepoint c = *i; h = (h * 1009 + c.value) % 1000003; } return h; }
static int fold(const ints& s, size_t a, size_t b) { long h = 7; for (; a < b; a++) h = (h * 1009 + s[a]) % 1000003; return h; }

static int value(rng& r, int how) { switch (how) { case 0: return 1; case 1: return r.in(0, 3); case 2: return r.in(-1000000, 1000000); case 3: return 0; case 4: return r.p(50) ? -1 : 2; default: return r.p(10) ? r.in(-20000000, 20000000) : r.in(-3, 3); } }

// runs the filter over [b, e) whose elements are `want`
template <class I> static void run(rng& r, const char* name, I b, I e, const ints& want, std::function<bool()> unchanged) {
  sink out; int k = r.upto(4); while (k--) out.got.push_back(r.in(-5, 5));
  ints before = out.got, expect = before; std::vector<ints> calls; bool same = true; int how = r.upto(6), outs = r.upto(3); sink* addr = &out; long guard = 0;
  tr::doing(std::string("filter over ") + name + " of " + std::to_string(want.size()));
  auto note = [&](int x, sink& o) -> int { if (&o != addr || o.got != expect || o.copies) same = false; int v = value(r, how); if (++guard > (long)want.size() + 50) { ev("frunaway").done(); tr::finish(); _exit(0); }
    int m = outs == 0 ? 0 : outs == 1 ? 1 : r.upto(4); while (m--) { o.got.push_back(x + m); expect.push_back(x + m); } calls.push_back(ints{ x, v }); return v; };
  int ret; long own = 0;       // a function object may keep its state in itself
  if (r.p(50)) ret = u5e::filter(b, e, out, [&](decltype(*b) x, sink& o) -> int { return note(number(x), o); });
  else ret = u5e::filter(b, e, out, [&, own](decltype(*b) x, sink& o) mutable -> int { if (own++ != (long)calls.size()) same = false; return note(number(x), o); });
  ev("fstart").str("over", name).a("range", want).done();
  for (auto& c : calls) ev("fcall").i("x", c[0]).i("v", c[1]).done();
  ev("fret").i("v", ret).b("same", same && out.got == expect && out.copies == 0).b("unchanged", unchanged()).done();
}
static int fn_result; static sink* fn_sink; static ints fn_seen; static bool fn_same;
static int plain_function(const codepoint c, sink& o) { if (&o != fn_sink) fn_same = false; fn_seen.push_back(c.value); return fn_result; }
struct functor { int* calls; int operator()(int x, ints& o) const { ++*calls; o.push_back(x); return 2; } };

template <class H> static void over_text(rng& r, const ints& s) {
  H h(s, r); auto& t = h.t; auto n0 = t.native_string; std::vector<long> was(n0.begin(), n0.end());
  auto same = [&]() { std::vector<long> now(t.native_string.begin(), t.native_string.end()); return now == was; };
  switch (r.upto(4)) {
  case 0: run(r, H::name(), t.codepoint_cbegin(), t.codepoint_cend(), s, same); break;
  case 1: run(r, H::name(), t.codepoint_begin(), t.codepoint_end(), s, same); break;
  case 2: { // a function, not an object
      sink o; fn_sink = &o; fn_result = r.in(-4, 9); fn_seen.clear(); fn_same = true; int ret = u5e::filter(t.codepoint_cbegin(), t.codepoint_cend(), o, plain_function);
      ev("fstart").str("over", "function").a("range", s).done(); for (int x : fn_seen) ev("fcall").i("x", x).i("v", fn_result).done(); ev("fret").i("v", ret).b("same", fn_same && o.got.empty() && !o.copies).b("unchanged", same()).done(); break; }
  case 3: { // graphemes; what they are is known from codepoint classes only through the library, so walk first
      ints want; size_t at = 0; for (auto i = t.grapheme_begin(); i != t.grapheme_end(); ++i) { auto g = *i; size_t n = std::distance(g.codepoint_begin(), g.codepoint_end()); want.push_back(fold(s, at, at + n)); at += n; if (at > s.size() || !n) break; }
      run(r, "graphemes", t.grapheme_begin(), t.grapheme_end(), want, same); break; }
  }
}
static void one(rng& r, int max) {
  ints s = any_text(r, max);
  switch (r.upto(10)) {
  case 0: over_text<S8>(r, s); break; case 1: over_text<V8>(r, s); break; case 2: over_text<S32>(r, s); break; case 3: over_text<V32>(r, s); break;
  case 4: { std::list<int> l(s.begin(), s.end()), c = l; run(r, "list", l.begin(), l.end(), s, [&]() { return l == c; }); break; }
  case 5: { std::forward_list<int> l(s.begin(), s.end()), c = l; run(r, "forward_list", l.begin(), l.end(), s, [&]() { return l == c; }); break; }
  case 6: { ints l = s; run(r, "int*", l.data(), l.data() + l.size(), s, [&]() { return l == s; }); break; }
  case 7: { std::set<int> l(s.begin(), s.end()); ints w(l.begin(), l.end()); run(r, "set", l.begin(), l.end(), w, [&]() { return ints(l.begin(), l.end()) == w; }); break; }
  case 8: { ints l = s; run(r, "reverse", l.rbegin(), l.rend(), ints(s.rbegin(), s.rend()), [&]() { return l == s; }); break; }
  case 9: { // a part of a longer range
      ints l = s; size_t a = r.upto(s.size() + 1), b = a + r.upto(s.size() - a + 1); run(r, "part", l.cbegin() + a, l.cbegin() + b, ints(s.begin() + a, s.begin() + b), [&]() { return l == s; }); break; }
  }
}
static void longs(rng& r, long n) {
  while (n--) {
    ints u = any_text(r, 6); if (u.empty()) u.push_back('a'); long times = r.in(1000, 100000); ints s; for (long i = 0; i < times; i++) s.insert(s.end(), u.begin(), u.end());
    ints vals; for (size_t i = 0; i < u.size(); i++) vals.push_back(r.in(-3, 9)); std::vector<ints> first; bool same = true; long calls = 0; ints out;
    tr::doing("long filter");
    auto op = [&](codepoint c, ints& o) -> int { size_t k = calls++ % u.size(); if (first.size() < u.size()) first.push_back(ints{ c.value, vals[k] }); else if (first[k][0] != c.value) same = false; if (&o != &out) same = false; return vals[k]; };
    int ret; if (r.p(50)) { V8 h(s, r); ret = u5e::filter(h.t.codepoint_cbegin(), h.t.codepoint_cend(), out, op); } else { V32 h(s, r); ret = u5e::filter(h.t.codepoint_cbegin(), h.t.codepoint_cend(), out, op); }
    ev("flong").a("u", u).i("times", times).aa("first", first).b("same", same && out.empty()).i("calls", calls).i("ret", ret).done();
  }
}
int main(int argc, char** argv) {
  args a(argc, argv); tr::start(a.s("-o").c_str(), a.n("-cpu", 120));
  rng r(a.n("-seed", 1) * 1000 + a.n("-shard", 0)); long n = a.n("-n", 100); std::string m = a.s("-mode");
  if (m == "random") while (n--) one(r, r.p(10) ? 120 : a.n("-max", 10));
  else if (m == "long") longs(r, n);
  else return 95;
  tr::finish(); return 0;
}
