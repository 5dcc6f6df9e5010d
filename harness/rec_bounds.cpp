// Records utf8_bounds::check and ::enforce.  Events: spec/trace/BoundsTrace.tla
#include "common.hpp"
#ifndef VERIF_NO_PROBE
#include "probe.hpp"
#endif
#include <u5e/utf8_bounds.hpp>
#include <u5e/utf8_string.hpp>
#ifdef VERIF_NATIVE
#include "loose.hpp"
#endif
using namespace u5e; using tr::ev;

static std::string oct(const std::string& t) { std::string r; char b[8]; for (unsigned char c : t) { snprintf(b, sizeof b, "%02x ", c); r += b; } return r; }
// what is around the range must not matter: sometimes continuation octets, sometimes lead octets
static void one(const std::string& mem, size_t lo, size_t hi, int how);
static void around(const std::string& t, int how, long k) {
  static const char* b[] = { "", "\x80", "\xF0", "a\xFE" }; static const char* a[] = { "", "\x80\x80\x80\x80\x80\x80\x80", "\xF0", "a" };
  std::string x = b[k % 4], y = a[k / 4 % 4]; one(x + t + y, x.size(), x.size() + t.size(), how);
}
// the range is mem[lo..hi)
static void one(const std::string& mem, size_t lo, size_t hi, int how) {
  tr::doing("bounds of [" + std::to_string(lo) + "," + std::to_string(hi) + ") of " + oct(mem));
  bool chk = false, chk2 = false, enf = false; std::string after, afterchk; ints rd, wr, crd, cwr; 
#ifdef VERIF_NATIVE
  how = 3; { loose<unit8> m(mem); typedef loose_it<unit8, false> LI; typedef loose_it<unit8, true> LC; auto was = m.m; auto kept = [&]() { for (size_t i = 0; i < was.size(); i++) if (i % loose_step && was[i] != m.m[i]) return false; return true; };
    chk = utf8_bounds<LC>::check(m.cbegin() + lo, m.cbegin() + hi); afterchk = std::string(m);
    enf = utf8_bounds<LI>::enforce(m.begin() + lo, m.begin() + hi); after = std::string(m); if (!kept()) after += "X";
    chk2 = utf8_bounds<LI>::check(m.begin() + lo, m.begin() + hi); }
  if (false) {} else
#elif defined VERIF_NO_PROBE
  if (how == 0) how = 1;
#else
  if (how == 0) {         // probe: every access is seen
    probe_mem<char> b = probed<char>(std::string(), mem, std::string()); typedef probe_it<char, false> it; typedef probe_it<char, true> cit;
    plog.reset(); chk = utf8_bounds<cit>::check(cit(&b, lo), cit(&b, hi)); crd = plog.reads(); cwr = plog.writes();
    afterchk = std::string(b.m.begin() + probe_margin, b.m.begin() + probe_margin + mem.size());
    plog.reset(); enf = utf8_bounds<it>::enforce(it(&b, lo), it(&b, hi)); rd = plog.reads(); wr = plog.writes();
    after = std::string(b.m.begin() + probe_margin, b.m.begin() + probe_margin + mem.size());
    chk2 = utf8_bounds<it>::check(it(&b, lo), it(&b, hi));
  } else
#endif
  if (how == 1) {  // raw pointers, the range in a block of its own size when it is everything
    std::vector<char> m(mem.begin(), mem.end()); m.shrink_to_fit(); char* p = m.data();
    chk = utf8_bounds<const char*>::check(p + lo, p + hi); afterchk.assign(p, m.size());
    enf = utf8_bounds<char*>::enforce(p + lo, p + hi); after.assign(p, m.size());
    chk2 = utf8_bounds<char*>::check(p + lo, p + hi);
  } else if (how == 2) {
    std::string s(mem);
    chk = utf8_bounds<std::string::const_iterator>::check(s.cbegin() + lo, s.cbegin() + hi); afterchk = s;
    enf = utf8_bounds<std::string::iterator>::enforce(s.begin() + lo, s.begin() + hi); after = s;
    chk2 = utf8_bounds<std::string::iterator>::check(s.begin() + lo, s.begin() + hi);
  }
  ev("bounds").octets("m", mem).i("lo", lo).i("hi", hi).b("chk", chk).octets("cm", afterchk).b("enf", enf).octets("em", after).b("chk2", chk2)
    .b("probe", how == 0).a("crd", crd).a("cwr", cwr).a("erd", rd).a("ewr", wr).done();
}
// a huge range, as runs << octet, times >>
static std::vector<ints> oruns(const std::string& s) { std::vector<ints> o; for (unsigned char c : s) { if (!o.empty() && o.back()[0] == c) o.back()[1]++; else { if (o.size() > 300) break; o.push_back(ints{ (int)c, 1 }); } } return o; }
static void giant(rng& r, int max) {
  static const unsigned char kinds[] = { 'a', '?', 0x80, 0xBF, 0xC3, 0xE2, 0xF0, 0xF8, 0xFC, 0xFE, 0xFF }; std::string s; int k = r.in(1, 6); bool big = false;
  while (k--) { int n = 1; bool grow = r.p(40) || (!k && !big); while (grow && n < max && r.p(94)) n = n * 2 + r.upto(2); if (n > 1000) big = true; s.append(std::min(n, max), (char)(r.p(40) ? 0x80 : kinds[r.upto(sizeof kinds)])); }
  std::vector<ints> rs = oruns(s), cm; std::string t = s; bool chk, enf; tr::doing("bounds of a huge range");
  if (r.p(50)) { chk = utf8_bounds<const char*>::check(&t[0], &t[0] + t.size()); cm = oruns(t); enf = utf8_bounds<char*>::enforce(&t[0], &t[0] + t.size()); }
  else { chk = utf8_bounds<std::string::iterator>::check(t.begin(), t.end()); cm = oruns(t); enf = utf8_bounds<std::string::iterator>::enforce(t.begin(), t.end()); }
  ev("giant").aa("rs", rs).b("chk", chk).aa("cm", cm).b("enf", enf).aa("em", oruns(t)).done();
}
int main(int argc, char** argv) {
  args a(argc, argv); tr::start(a.s("-o").c_str(), a.n("-cpu", 120));
  long sh = a.n("-shard", 0), of = a.n("-of", 1), n = a.n("-n", 100), cnt = 0; rng r(a.n("-seed", 1) * 1000 + sh);
  std::string m = a.s("-mode");
  auto mine = [&]() { return cnt++ % of == sh; };
  if (m == "octets") {             // every string of octets up to length 1 (2), class representatives up to a length
    one("", 0, 0, 0); 
    for (int x = 0; x < 256; x++) if (mine()) { std::string s(1, (char)x); one(s, 0, 1, 0); one(s, 0, 0, 1); one("A" + s + "B", 1, 2, 0); }
    int step = a.n("-pairstep", 1);
    for (int x = 0; x < 256; x++) for (int y = 0; y < 256; y += step) if (mine()) { std::string s; s += (char)x; s += (char)((y + x) % 256); around(s, cnt / of % 3, cnt / of); }
  } else if (m == "classes") {     // all strings of one length over representatives
    static const unsigned char rep[] = { 0x41, 0x80, 0xC3, 0xE2, 0xF0, 0xF8, 0xFC, 0xFE, 0xFF }; int k = sizeof rep, len = a.n("-len", 4);
    long tot = 1; for (int i = 0; i < len; i++) tot *= k;
    for (long x = 0; x < tot; x++) if (mine()) { std::string s; long y = x; for (int i = 0; i < len; i++) { s += (char)rep[y % k]; y /= k; } around(s, cnt / of % 3, cnt / of); }
  } else if (m == "tails") {       // a lead octet k octets before the end, anything short around it
    static const unsigned char lead[] = { 0xC2, 0xDF, 0xE0, 0xEF, 0xF0, 0xF7, 0xF8, 0xFB, 0xFC, 0xFD, 0xFE, 0xFF };
    for (int l : lead) for (int k = 1; k <= 10; k++) for (int front = 0; front < 6; front++) for (int fill = 0; fill < 4; fill++) for (int how = 0; how < 3; how++) if (mine()) {
      std::string s; static const char* f[] = { "", "a", "\x80", "\x80\x80", "abcdefghijkl", "\xE2\x82\xAC\xFE" }; s = f[front]; s += (char)l;
      for (int i = 1; i < k; i++) s += fill == 0 ? '\x80' : fill == 1 ? 'b' : fill == 2 ? (i % 2 ? '\xBF' : 'c') : (i == k - 2 ? '\xE2' : '\x90');
      around(s, how, cnt / of); }
  } else if (m == "slices") {      // slices of well-formed text
    while (n--) { ints s; int k = r.in(1, 12); while (k--) s.push_back(r.p(50) ? r.pick(edge_cps) : any_cp(r)); std::string t = enc(s);
      size_t lo = r.upto(t.size() + 1), hi = lo + r.upto(t.size() - lo + 1); one(t, lo, hi, r.upto(3)); }
  } else if (m == "random") {      // any octets inside any memory
    while (n--) { std::string t; int k = r.in(0, 24); while (k--) { int c = r.upto(5); t += (char)(c == 0 ? r.in(0x80, 0xBF) : c == 1 ? r.in(0xC0, 0xFF) : c == 2 ? r.in(0xF0, 0xFF) : c == 3 ? r.in(0, 0x7F) : r.in(0, 255)); }
      size_t lo = r.p(50) ? 0 : r.upto(t.size() + 1), hi = r.p(50) ? t.size() : lo + r.upto(t.size() - lo + 1); if (hi < lo) hi = lo; one(t, lo, hi, r.upto(3)); }
  } else if (m == "giant") { while (n--) giant(r, a.n("-max", 300000));
  } else return 95;
  tr::finish(); return 0;
}
