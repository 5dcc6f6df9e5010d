// Steps the real code through transitions printed by TLC (one test per line)
// and compares the state afterwards with the specification's.
// Compiled once per specification, with -DREPLAY_<mode> -DREPLAY=<mode>.
#include "common.hpp"
#include "texts.hpp"
#include <fstream>
#include <iostream>
#include <list>
#include <u5e/utf8_iterator.hpp>
#ifdef REPLAY_bounds
#include <u5e/utf8_bounds.hpp>
#endif
#include <u5e/basic_grapheme_iterator.hpp>
#include <u5e/utf8_string_grapheme_iterator.hpp>
#include <u5e/utf8_string_view_grapheme_iterator.hpp>
#include <u5e/utf32ne_string_grapheme_iterator.hpp>
#include <u5e/utf32ne_string_view_grapheme_iterator.hpp>
using namespace u5e;
static long total = 0, mismatches = 0; static std::string current, where;
static void flunk(const std::string& got) { if (++mismatches <= 20) { std::string s = "MISMATCH " + where + " got " + got + " for " + current + "\n"; tr::rawwrite(s.data(), s.size()); } }
static std::string num(long n) { return std::to_string(n); }
static void died(int sig) { where += sig == 0 ? " (timeout)" : " (crash)"; flunk("signal " + num(sig)); char b[64]; int n = snprintf(b, sizeof b, "REPLAYED %ld MISMATCHES %ld\n", total, mismatches); tr::rawwrite(b, n); _exit(0); }
static void threw() { flunk("exception"); char b[64]; int n = snprintf(b, sizeof b, "REPLAYED %ld MISMATCHES %ld\n", total, mismatches); tr::rawwrite(b, n); _exit(0); }

#ifdef REPLAY_cursor
//------------------------------------------------------------------ Cursor
// the codepoint an octet position stands for, in the text of the test
static long st(const std::string& t, long p) { while (p > 0 && p < (long)t.size() && cont(t[p])) p--; return p; }
template <class I, class N> static void cursor_on(const json& j, const char* name, N nb, const std::string& t) {
  where = name;
  const std::string op = j["op"].s; long a = j["a"][0].n, b2 = j["a"][1].n, want = j["b"][0].n; const json& out = j["out"];
  I x(nb + a), y(nb + b2);
  auto at = [&](const I& i, long p, const char* w) { long r = raw(i, nb); if (!(i == I(nb + p)) || (r != -1 && st(t, r) != st(t, p))) flunk(std::string(w) + " " + num(r)); };
  if (op == "inc") { I& r = ++x; at(r, out[1].n, "returned"); if (&r != &x) { I z(x); ++r; (void)z; } }
  else if (op == "pinc") { I r = x++; at(r, out[1].n, "returned"); }
  else if (op == "dec") { I& r = --x; at(r, out[1].n, "returned"); }
  else if (op == "pdec") { I r = x--; at(r, out[1].n, "returned"); }
  else if (op == "read") { codepoint c = *x; if (c.value != out[1].n) flunk(num(c.value)); codepoint d = *x; if (d.value != out[1].n) flunk("second read " + num(d.value)); }
  else if (op == "rread") { std::reverse_iterator<I> r(x); codepoint c = *r; if (c.value != out[1].n) flunk(num(c.value)); at(r.base(), a, "base"); }
  else if (op == "copy") { x = y; at(x, want, "copy"); I z(y); at(z, want, "copy constructed"); }
  else if (op == "eq") { bool r = x == y; if (r != (out[1].n != 0)) flunk(num(r)); }
  else if (op == "ne") { bool r = x != y; if (r != (out[1].n != 0)) flunk(num(r)); }
  else flunk("unknown operation");
  at(x, want, "position"); at(y, b2, "other iterator");
}
static void cursor(const json& j) {
  std::string t = j["t"].bytes(), copy = t; std::vector<char> mem(t.begin(), t.end()); mem.push_back(total % 2 ? '!' : '\xC3');
  switch (total % 4) {
  case 0: cursor_on<utf8_const_iterator<std::string::const_iterator>>(j, "string::const_iterator", (const std::string::const_iterator)t.begin(), copy); break;
  case 1: cursor_on<utf8_iterator<std::string::iterator>>(j, "string::iterator", t.begin(), copy); break;
  case 2: cursor_on<utf8_const_iterator<const char*>>(j, "const char*", (const char*)mem.data(), copy); break;
  case 3: cursor_on<utf8_iterator<std::vector<char>::iterator>>(j, "vector<char>::iterator", mem.begin(), copy); break;
  }
  if (t != copy || std::string(mem.begin(), mem.end() - 1) != copy) flunk("text modified");
}
#endif
#ifdef REPLAY_writer
//------------------------------------------------------------------ Writer
template <class I, class N> static void writer_on(const json& j, const char* name, N nb, std::function<std::string()> now) {
  where = name;
  // play the history: the writes so far, with ++ between them; then the step
  I it(nb + j["from"].n); std::string op = j["op"].s; const json& w = j["w"]; bool after = op != "write";
  for (size_t k = 0; k < w.v.size(); k++) { *it = codepoint((int)w[k].n); if (k + 1 < w.v.size() || !after) ++it; }
  if (now() != j["before"].bytes()) flunk("history");
  if (op == "write") *it = codepoint((int)j["c"].n);
  else if (op == "wread") { codepoint c = *it; if (c.value != j["c"].n) flunk("read " + num(c.value)); }
  else if (op == "winc") { ++it; long r = raw(it, nb); if (r != -1 && r != j["at"].n) flunk("position " + num(r)); }
  if (now() != j["after"].bytes()) { std::string s; for (unsigned char c : now()) s += num(c) + " "; flunk(s); }
}
static void writer(const json& j) {
  std::string t = j["orig"].bytes(); std::vector<char> mem(t.begin(), t.end()); mem.push_back('!'); size_t n = t.size();
  if (total % 2) writer_on<utf8_iterator<std::string::iterator>>(j, "string", t.begin(), [&]() { return t; });
  else writer_on<utf8_iterator<char*>>(j, "char*", mem.data(), [&]() { return std::string(mem.begin(), mem.begin() + n) + (mem[n] == '!' ? "" : "X"); });
}
#endif
#ifdef REPLAY_bounds
//------------------------------------------------------------------ Bounds
template <class N> static void bounds_on(const json& j, const char* name, N nb, std::function<std::string()> now) {
  where = name; bool r = j["fn"].s == "check" ? utf8_bounds<N>::check(nb + j["lo"].n, nb + j["hi"].n) : utf8_bounds<N>::enforce(nb + j["lo"].n, nb + j["hi"].n);
  if (r != (j["res"].n != 0)) flunk(num(r));
  if (now() != j["after"].bytes()) { std::string s; for (unsigned char c : now()) s += num(c) + " "; flunk(s); }
}
static void bounds(const json& j) {
  std::string t = j["mem"].bytes(); std::vector<char> mem(t.begin(), t.end());
  if (total % 2) bounds_on<std::string::iterator>(j, "string::iterator", t.begin(), [&]() { return t; });
  else bounds_on<char*>(j, "char*", mem.data(), [&]() { return std::string(mem.begin(), mem.end()); });
}
#endif
#ifdef REPLAY_grapheme
//------------------------------------------------------------------ GraphemeCursor
template <class H> static void grapheme_on(const json& j, rng& r) {
  typedef typename H::type T; typedef basic_grapheme_iterator<T> GI; typedef typename T::const_iterator CI;
  where = H::name(); ints s; for (auto& x : j["k"].v) s.push_back(r.pick(gcb_reps[x.n]));
  where += " " + show(s);
  H h(s, r); T& t = h.t; auto nb = t.native_cbegin();
  ints nat; { int p = 0; for (int c : s) { nat.push_back(p); p += H::utf8 ? enc(c).size() : 1; } nat.push_back(p); }
  // a position of the model as an iterator, anywhere in that codepoint
  auto pos = [&](long p) { long q = nat[p]; if (p < (long)s.size()) q += r.upto(nat[p + 1] - nat[p]); return CI(nb + q); };
  auto is = [&](const CI& i, long p) { return i == CI(nb + nat[p]); };
  auto same = [&](GI& g, const json& w, const char* what) {
    auto y = *g; if (!is(y.codepoint_begin(), w[0].n) || !is(y.codepoint_end(), w[1].n)) flunk(std::string(what) + " " + num(raw(y.codepoint_begin(), nb)) + ".." + num(raw(y.codepoint_end(), nb))); };
  auto make = [&](const json& w) { return GI(t.codepoint_cbegin(), t.codepoint_cend(), CI(nb + nat[w[0].n])); };
  GI x = make(j["a"][0]), y = make(j["a"][1]); std::string op = j["op"].s; const json& out = j["out"]; GI* now = &x; std::list<GI> keep;
  if (op == "begin") { keep.push_back(t.grapheme_begin()); now = &keep.back(); }
  else if (op == "end") { keep.push_back(t.grapheme_end()); now = &keep.back(); }
  else if (op == "place") { keep.push_back(GI(t.codepoint_cbegin(), t.codepoint_cend(), pos(j["p"].n))); now = &keep.back(); }
  else if (op == "inc") { GI z = ++x; same(z, out[1], "returned"); }
  else if (op == "pinc") { GI z = x++; same(z, out[1], "returned"); }
  else if (op == "deref") { same(x, out[1], "read"); }
  else if (op == "copy") { keep.push_back(GI(y)); now = &keep.back(); }
  else if (op == "eq") { if ((x == y) != (out[1].n != 0)) flunk("eq"); }
  else if (op == "ne") { if ((x != y) != (out[1].n != 0)) flunk("ne"); }
  else if (op == "eqpos") { if ((x == pos(j["p"].n)) != (out[1].n != 0)) flunk("eq position"); }
  else if (op == "nepos") { if ((x != pos(j["p"].n)) != (out[1].n != 0)) flunk("ne position"); }
  else flunk("unknown operation");
  same(*now, j["b"][0], "state"); same(y, j["b"][1], "other iterator");
}
static void grapheme(const json& j) {
  rng r(total);
  switch (total % 4) { case 0: grapheme_on<S8>(j, r); break; case 1: grapheme_on<V8>(j, r); break; case 2: grapheme_on<S32>(j, r); break; default: grapheme_on<V32>(j, r); }
}
#endif
#ifdef REPLAY_strings
//------------------------------------------------------------------ Strings
template <class T> struct conv;
template <> struct conv<utf8_string> { static std::string of(const json& j) { return j.bytes(); } typedef V8 view; };
template <> struct conv<utf32ne_string> { static str32 of(const json& j) { ints v = j.list_of_int(); return str32(v.begin(), v.end()); } typedef V32 view; };
template <class T, class View, class VN> static void strings_on(const json& j) {
  typedef conv<T> C; typedef typename T::const_iterator CI; typedef basic_grapheme_iterator<T> GI;
  T o[2] = { T(C::of(j["a"][0])), T(C::of(j["a"][1])) }; std::string op = j["op"].s; int i = j["i"].n - 1, k = j["j"].n - 1; long p = j["p"].n, q = j["q"].n; T* res = &o[i];
  where = std::is_same<T, utf8_string>::value ? "utf8_string" : "utf32ne_string";
  T& x = o[i]; T& y = o[k];
  // the source may also be a view of the same content
  bool viewed = total % 2; VN vn(y.native_string.data(), y.native_string.size()); View v(vn); typedef typename View::const_iterator VI; typedef basic_grapheme_iterator<View> VG;
  if (viewed) where += " from a view";
  if (op == "default") { T d; x = d; T* e = new T; if (!e->native_string.empty()) flunk("not empty"); delete e; }
  else if (op == "native") { T d(y.native_string); x = d; }
  else if (op == "copy") { T d(y); x.native_string.swap(d.native_string); }
  else if (op == "assign") { res = &(x = y); }
  else if (op == "move") { if (viewed) { T d(std::move(y)); res = &(x = std::move(d)); } else res = &(x = std::move(y)); y = C::of(j["s"]); }
  else if (op == "swap") { if (viewed) std::swap(x, y); else { T d(std::move(x)); x = std::move(y); y = std::move(d); } }
  else if (op == "append") {
    if (viewed) res = &x.template append<VN>(VI(v.native_cbegin() + p), VI(v.native_cbegin() + q));
    else res = &x.append(CI(y.native_cbegin() + p), CI(y.native_cbegin() + q)); }
  else if (op == "appendg") {
    if (viewed) { VG f(v.codepoint_cbegin(), v.codepoint_cend(), VI(v.native_cbegin() + p)), l(v.codepoint_cbegin(), v.codepoint_cend(), VI(v.native_cbegin() + q)); res = &x.append(f, l); }
    else { GI f(y.codepoint_cbegin(), y.codepoint_cend(), CI(y.native_cbegin() + p)), l(y.codepoint_cbegin(), y.codepoint_cend(), CI(y.native_cbegin() + q)); res = &x.append(f, l); } }
  else if (op == "append32") {
    ints s = j["s"].list_of_int(); str32 n(s.begin(), s.end()); utf32ne_string u(n); utf32ne_string_view uv{sv32(n.data(), n.size())};
    if (viewed) res = &x.template append_from_utf32ne<sv32>(uv.codepoint_cbegin(), uv.codepoint_cend()); else res = &x.template append_from_utf32ne<str32>(u.codepoint_cbegin(), u.codepoint_cend()); }
  else if (op == "overwrite") { typename T::iterator it(x.native_begin() + p); *it = codepoint((int)j["s"][0].n); }
  else flunk("unknown operation");
  if (res != &o[i]) flunk("did not return the object itself");
  if (o[0].native_string != C::of(j["b"][0]) || o[1].native_string != C::of(j["b"][1])) { std::string s; for (auto& z : o) { for (auto c : z.native_string) s += num((int)(std::is_same<T, utf8_string>::value ? (unsigned char)c : c)) + " "; s += "| "; } flunk(s); }
}
static void strings(const json& j) { if (j["enc"].s == "8") strings_on<utf8_string, utf8_string_view, sv8>(j); else strings_on<utf32ne_string, utf32ne_string_view, sv32>(j); }
#endif
#ifdef REPLAY_pipeline
//------------------------------------------------------------------ Pipeline
#include <u5e/filter.hpp>
#include <u5e/normalization_form_d.hpp>
#include <u5e/normalization_form_c.hpp>
#include <u5e/normalization_form_kd.hpp>
#include <u5e/normalization_form_kc.hpp>
template <class H, class O, class Mk> static void pipeline_on(const json& j, const char* name, Mk mk) {
  typedef typename H::type T; where = name; rng r(total); ints s = j["s"].list_of_int(), pre = j["pre"].list_of_int(), want = j["out"].list_of_int(); const std::string f = j["f"].s;
  H h(s, r); O o; o.native_string = mk(pre); int n;
  if (f == "d") n = u5e::filter(h.t.grapheme_begin(), h.t.grapheme_end(), o, normalization_form_d<T, O>);
  else if (f == "c") n = u5e::filter(h.t.grapheme_begin(), h.t.grapheme_end(), o, normalization_form_c<T, O>);
  else if (f == "kd") n = u5e::filter(h.t.grapheme_begin(), h.t.grapheme_end(), o, normalization_form_kd<T, O>);
  else n = u5e::filter(h.t.grapheme_begin(), h.t.grapheme_end(), o, normalization_form_kc<T, O>);
  if (o.native_string != mk(want)) { std::string g; for (auto c : o.native_string) g += num((int)(std::is_same<O, utf8_string>::value ? (unsigned char)c : c)) + " "; flunk(g); }
  if (n != j["cnt"].n) flunk("count " + num(n));
}
static void pipeline(const json& j) {
  auto m8 = [](const ints& s) { return enc(s); }; auto m32 = [](const ints& s) { return str32(s.begin(), s.end()); };
  switch (total % 4) {
  case 0: pipeline_on<S32, utf32ne_string>(j, "S32 to utf32ne_string", m32); break;
  case 1: pipeline_on<V8, utf8_string>(j, "V8 to utf8_string", m8); break;
  case 2: pipeline_on<V32, utf8_string>(j, "V32 to utf8_string", m8); break;
  case 3: pipeline_on<S8, utf32ne_string>(j, "S8 to utf32ne_string", m32); break;
  }
}
#endif
#ifdef REPLAY_filtering
//------------------------------------------------------------------ Filter
#include <u5e/filter.hpp>
template <class I> static void filtering_on(const json& j, const char* name, I b, I e) {
  where = name; size_t k = 0; ints out; bool same = true; const json& calls = j["calls"];
  int n = u5e::filter(b, e, out, [&](int x, ints& o) -> int { if (&o != &out) same = false; if (k >= calls.v.size() || calls[k][0].n != x) flunk("call " + num(k) + " with " + num(x)); return k < calls.v.size() ? calls[k++][1].n : (k++, 0); });
  if (k != calls.v.size()) flunk(num(k) + " calls"); if (n != j["sum"].n) flunk("returned " + num(n)); if (!same || !out.empty()) flunk("output object");
}
static void filtering(const json& j) {
  ints s = j["range"].list_of_int();
  switch (total % 3) { case 0: filtering_on(j, "vector", s.begin(), s.end()); break; case 1: { std::list<int> l(s.begin(), s.end()); filtering_on(j, "list", l.cbegin(), l.cend()); break; } default: filtering_on(j, "pointer", (const int*)s.data(), (const int*)s.data() + s.size()); }
  if (s != j["range"].list_of_int()) flunk("range modified");
}
#endif
int main(int argc, char** argv) {
  args a(argc, argv); tr::start("", a.n("-cpu", 300));
  for (int s : { SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL }) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = died; sa.sa_flags = SA_ONSTACK; sigaction(s, &sa, nullptr); }
  std::set_terminate(threw); tr::on_timeout = []() { died(0); };
  std::ifstream in(a.s("-i")); std::string l;
  while (std::getline(in, l)) {
    const char* p = l.c_str(); json j = json::parse(p); current = l; where = "";
    total++; tr::progress++;
    REPLAY(j);
  }
  printf("REPLAYED %ld MISMATCHES %ld\n", total, mismatches); return 0;
}
