// Records the results of the same calls made alone in a fresh process, after
// long histories of other calls, and by several threads at once (C29).
// Events: spec/trace/ThreadsTrace.tla
#include "common.hpp"
#include "texts.hpp"
#include "ucd_sets.hpp"
#include <thread>
#include <atomic>
#include <sys/wait.h>
#include <u5e/basic_grapheme_iterator.hpp>
#include <u5e/utf8_string_grapheme_iterator.hpp>
#include <u5e/utf8_string_view_grapheme_iterator.hpp>
#include <u5e/utf32ne_string_grapheme_iterator.hpp>
#include <u5e/utf32ne_string_view_grapheme_iterator.hpp>
#include <u5e/filter.hpp>
#include <u5e/utf8_bounds.hpp>
#include <u5e/normalization_form_d.hpp>
#include <u5e/normalization_form_c.hpp>
#include <u5e/normalization_form_kd.hpp>
#include <u5e/normalization_form_kc.hpp>
#include <u5e/canonical_decomposition.hpp>
#include <u5e/compatibility_and_canonical_decomposition.hpp>
#include <u5e/props/grapheme_cluster_break.hpp>
#include <u5e/props/canonical_combining_class.hpp>
#include <u5e/props/canonical_composition_mapping.hpp>
using namespace u5e; using tr::ev;

enum { GCB, CCC, DEC, KDEC, COMP, WALK, PLACES, FORM_D, FORM_C, FORM_KD, FORM_KC, BOUNDS, APPEND, CODEPOINTS, KINDS };
static const char* kind_name[] = { "gcb", "ccc", "dec", "kdec", "comp", "walk", "places", "d", "c", "kd", "kc", "bounds", "append", "codepoints" };
struct job { int kind; ints s; };
static ints numbers(const std::string& n) { ints r; for (unsigned char c : n) r.push_back(c); return r; }

template <class T, class O> static ints norm(T& t, int k) {
  O o; int n;
  switch (k) { case FORM_D: n = u5e::filter(t.grapheme_begin(), t.grapheme_end(), o, normalization_form_d<T, O>); break; case FORM_C: n = u5e::filter(t.grapheme_begin(), t.grapheme_end(), o, normalization_form_c<T, O>); break;
    case FORM_KD: n = u5e::filter(t.grapheme_begin(), t.grapheme_end(), o, normalization_form_kd<T, O>); break; default: n = u5e::filter(t.grapheme_begin(), t.grapheme_end(), o, normalization_form_kc<T, O>); }
  ints r{ n }; for (auto c : o.native_string) r.push_back((int)(sizeof c == 1 ? (unsigned char)c : c)); return r;
}
// everything is on objects of the caller
static ints run(const job& j) {
  ints r; const ints& s = j.s;
  switch (j.kind) {
  case GCB: for (int c : s) r.push_back((int)props::grapheme_cluster_break::resolve(c)); break;
  case CCC: for (int c : s) r.push_back(props::canonical_combining_class::resolve(c)); break;
  case DEC: case KDEC: { utf32ne_string o; for (int c : s) r.push_back(j.kind == DEC ? canonical_decomposition<utf32ne_string>(c, o) : compatibility_and_canonical_decomposition<utf32ne_string>(c, o)); r.insert(r.end(), o.native_string.begin(), o.native_string.end()); break; }
  case COMP: for (size_t i = 0; i + 1 < s.size(); i++) { int c = -1; bool ok = props::canonical_composition_mapping::resolve(s[i], s[i + 1], &c); r.push_back(ok ? c : -2); } break;
  case WALK: { utf32ne_string t(str32(s.begin(), s.end())); size_t guard = 0; for (auto i = t.grapheme_begin(); i != t.grapheme_end() && guard++ < s.size() + 2; ++i) { auto g = *i; r.push_back(g.codepoint_begin() - t.codepoint_cbegin()); r.push_back(g.codepoint_end() - t.codepoint_cbegin()); } break; }
  case PLACES: { utf8_string t(enc(s)); for (size_t p = 0; p <= t.native_string.size(); p++) { basic_grapheme_iterator<utf8_string> i(t.codepoint_cbegin(), t.codepoint_cend(), utf8_string::const_iterator(t.native_cbegin() + p)); auto g = *i; r.push_back(std::distance(t.codepoint_cbegin(), g.codepoint_begin())); } break; }
  case FORM_D: case FORM_C: case FORM_KD: case FORM_KC: { if (s.size() % 2) { utf8_string t(enc(s)); return norm<utf8_string, utf8_string>(t, j.kind); } utf32ne_string t(str32(s.begin(), s.end())); return norm<utf32ne_string, utf32ne_string>(t, j.kind); }
  case BOUNDS: { std::string b = enc(s); if (!b.empty()) b.resize(b.size() - s.size() % 3 % b.size()); r.push_back(utf8_bounds<std::string::iterator>::check(b.begin(), b.end())); r.push_back(utf8_bounds<std::string::iterator>::enforce(b.begin(), b.end())); ints o = numbers(b); r.insert(r.end(), o.begin(), o.end()); break; }
  case APPEND: { utf32ne_string t(str32(s.begin(), s.end())); utf8_string o, p; o.append_from_utf32ne<str32>(t.codepoint_cbegin(), t.codepoint_cend()); p.append(o.codepoint_cbegin(), o.codepoint_cend()); auto a = o.grapheme_begin(), b = o.grapheme_end(); p.append(a, b); r = numbers(p.native_string); break; }
  case CODEPOINTS: { utf8_string t(enc(s)); for (auto i = t.codepoint_begin(); i != t.codepoint_end(); ++i) { codepoint c = *i; r.push_back(c.value); } if (!s.empty()) { auto i = t.codepoint_end(); do { --i; codepoint c = *i; r.push_back(c.value); } while (i != t.codepoint_begin()); } break; }
  }
  if (r.size() > 400) r.resize(400);
  return r;
}
// in a process of its own that has not called the library before
static bool alone(const job& j, ints& r) {
  int p[2]; if (pipe(p)) _exit(98);
  pid_t c = fork();
  if (c == 0) { close(p[0]); for (int s : { SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGPROF }) signal(s, SIG_DFL); alarm(6); ints x = run(j); std::string b((const char*)x.data(), x.size() * sizeof(int)); tr::fd = p[1]; tr::rawwrite(b.data(), b.size()); _exit(0); }
  close(p[1]); std::string b; char buf[4096]; ssize_t k; while ((k = read(p[0], buf, sizeof buf)) > 0) b.append(buf, k); close(p[0]);
  int st; waitpid(c, &st, 0); r.assign((const int*)b.data(), (const int*)b.data() + b.size() / sizeof(int)); return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}
// arguments that a wrong cache would take for each other
static int like(rng& r, int c) { switch (r.upto(8)) { case 0: return c ^ 1; case 1: return c ^ 0x100; case 2: return c & 0xFFFF; case 3: return (c & 0xFFFF) | 0x10000; case 4: return c & 0xFF; case 5: return c ^ 0x1000; case 6: return c > 0 ? c - 1 : 1; default: return (c + 0x40) % 0x110000; } }
static ints text(rng& r, int max) { switch (r.upto(4)) { case 0: return any_text(r, max); case 1: return class_text(r, max); default: { ints s = mark_text(r, max); if (r.p(30)) s.push_back(r.pick(ucd_canon)); if (r.p(30)) s.push_back(r.pick(ucd_compat)); if (r.p(30)) s.push_back(r.pick(ucd_marks)); return s; } } }
static std::vector<std::pair<int, int>> compositions() { std::vector<std::pair<int, int>> v; size_t p = 0; for (size_t i = 0; i < ucd_canon.size(); i++) { int k = ucd_canon_maps[p++]; if (k == 2) v.emplace_back(ucd_canon_maps[p], ucd_canon_maps[p + 1]); p += k; } return v; }
static std::vector<job> make(rng& r, int n) {
  std::vector<job> js;
  while ((int)js.size() < n) {
    job j; j.kind = r.upto(KINDS);
    if (j.kind <= KDEC) { int c = r.p(60) ? r.pick(r.p(50) ? ucd_marks : r.p(50) ? ucd_canon : ucd_compat) : any_cp(r); j.s = { c }; js.push_back(j); int k = r.upto(3); while (k--) { int d = like(r, c) % 0x110000; js.push_back(job{ j.kind, { d } }); } }
    else if (j.kind == COMP) { static const std::vector<std::pair<int, int>> pairs = compositions(); int a = r.pick(ucd_firsts), b = r.pick(ucd_seconds); if (r.p(60)) { auto x = pairs[r.upto(pairs.size())]; a = x.first; b = x.second; } else if (r.p(40)) { a = 0xAC00 + 28 * r.upto(399); b = 0x11A7 + r.upto(28); } j.s = { a, b }; js.push_back(j); if (r.p(50)) js.push_back(job{ COMP, { a, like(r, b) % 0x110000 } }); if (r.p(50)) js.push_back(job{ COMP, { like(r, a) % 0x110000, b } });
      int d = r.in(1, 40); if (r.p(40)) js.push_back(job{ COMP, { b, a } }); if (r.p(30) && b > d) js.push_back(job{ COMP, { a + d, b - d } }); if (r.p(30) && a > d) js.push_back(job{ COMP, { a - d, b + d } }); if (r.p(30)) js.push_back(job{ COMP, { a ^ d, b ^ d } }); }
    else { j.s = text(r, r.p(10) ? 60 : 8); js.push_back(j); }
  }
  js.resize(n); return js;
}
// the same calls made before any constructor of another object has run, as the
// initialization of a static object in another file may do
static std::vector<job> early_jobs() {
  std::vector<job> js; rng r(29);
  static const int some[] = { 'a', 'e', 'o', 0xE9, 0x1E69, 0x1EBF, 0x300, 0x301, 0x323, 0x327, 0x345, 0x5B0, 0x93C, 0x903, 0x915, 0x1100, 0x1161, 0x11A8, 0xAC00, 0xAC01, 0xD7A3, 0x200D, 0x1F1E6, 0x1F466, 0x1F3FB, 0xFB01, 0x3300, 0xFDFA, 0x1D15E, 0x1D165, 0x2F81A, 0x10FFFF, 0xD, 0xA };
  const int n = sizeof some / sizeof *some;
  for (int k = 0; k <= COMP; k++) for (int i = 0; i < n; i++) { job j; j.kind = k; j.s = { some[i] }; if (k == COMP) j.s.push_back(some[(i + 5) % n]); js.push_back(j); }
  for (int i = 0; i < 8; i++) { job j; j.kind = COMP; j.s = { some[i % 3], 0x300 + i % 3 }; js.push_back(j); }
  for (int k = WALK; k < KINDS; k++) for (int i = 0; i < 12; i++) { job j; j.kind = k; int m = r.in(1, 7); while (m--) j.s.push_back(some[r.upto(n)]); js.push_back(j); }
  return js;
}
static std::vector<ints>* early_results = nullptr;
#if !defined(__SANITIZE_THREAD__) && !defined(__SANITIZE_ADDRESS__)
__attribute__((constructor(101))) static void early() {
  early_results = new std::vector<ints>;
  for (auto& j : early_jobs()) { ints x; if (!alone(j, x)) x = { -999 }; early_results->push_back(x); }
}
#endif
typedef std::map<ints, long> seen;
static void log(const std::vector<job>& js, const char* phase, int thread, std::vector<seen>& got) { for (size_t i = 0; i < js.size(); i++) for (auto& x : got[i]) ev("called").str("phase", phase).i("thread", thread).i("job", i + 1).i("times", x.second).a("res", x.first).done(); }

static std::atomic<int> races(0);
#ifdef __SANITIZE_THREAD__
extern "C" void __tsan_on_report(void*) { races++; }
#endif
int main(int argc, char** argv) {
  args a(argc, argv); tr::start(a.s("-o").c_str(), a.n("-cpu", 600));
  rng r(a.n("-seed", 1) * 1000 + a.n("-shard", 0)); int n = a.n("-n", 300), rounds = a.n("-rounds", 20), threads = a.n("-threads", 8); std::string m = a.s("-mode");
  std::vector<job> js = make(r, n);
  if (m == "early") js = early_jobs();
  std::vector<char> fine(js.size(), 1); int failed = 0;
  for (size_t i = 0; i < js.size(); i++) { ints x; tr::doing(std::string("alone ") + kind_name[js[i].kind] + " " + show(js[i].s)); bool ok = alone(js[i], x); ev("alone").i("job", i + 1).str("kind", kind_name[js[i].kind]).a("s", js[i].s).b("ok", ok).a("res", x).done(); fine[i] = ok; if (!ok && ++failed == 4) { tr::finish(); return 0; } }
  tr::flush();
  if (m == "early") {
    std::vector<seen> got(js.size());
    for (size_t i = 0; i < js.size(); i++) if (fine[i] && early_results) got[i][(*early_results)[i]]++;
    log(js, "early", 0, got);
  } else if (m == "history") {
    std::vector<seen> got(js.size());
    for (int k = 0; k < rounds; k++) {
      // each job many times: after itself, after random others, after a burst of one kind
      for (size_t q = 0; q < js.size(); q++) { size_t i = k % 3 == 0 ? q : k % 3 == 1 ? js.size() - 1 - q : r.upto(js.size()); if (!fine[i]) continue; tr::doing(std::string("history ") + kind_name[js[i].kind] + " " + show(js[i].s)); got[i][run(js[i])]++; if (r.p(20)) got[i][run(js[i])]++;
        if (r.p(3)) for (int b = r.upto(600); b > 0; b--) { job x{ r.upto(KDEC + 1), { any_cp(r) } }; run(x); } } }
    log(js, "history", 0, got);
  } else if (m == "threads") {
    std::vector<std::vector<seen>> got(threads, std::vector<seen>(js.size())); std::vector<std::thread> ts; std::atomic<int> ready(0);
    tr::doing("several threads at once");
    for (int t = 0; t < threads; t++) { uint64_t seed = r.next(); ts.emplace_back([&, t, seed]() { rng q(seed); ready++; while (ready < threads) {} 
      for (int k = 0; k < rounds; k++) for (size_t x = 0; x < js.size(); x++) { size_t i = k % 2 ? q.upto(js.size()) : (x + k) % js.size(); if (fine[i]) got[t][i][run(js[i])]++; tr::progress.fetch_add(1, std::memory_order_relaxed); } }); }
    for (auto& t : ts) t.join();
    for (int t = 0; t < threads; t++) log(js, "threads", t + 1, got[t]);
  } else return 95;
  if (races) ev("race").i("n", races).done();
  tr::finish(); return 0;
}
