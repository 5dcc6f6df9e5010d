// Records what codepoint iterators do.  Events: see spec/trace/CursorTrace.tla, SweepTrace.tla, WriterTrace.tla
#include "common.hpp"
#include <experimental/string_view>
#include <u5e/utf8_iterator.hpp>
#include <u5e/utf8_string.hpp>
#include <u5e/utf8_string_view.hpp>
#include <u5e/utf32ne_string.hpp>
#include <u5e/utf32ne_string_view.hpp>
using namespace u5e;
using tr::ev;
#ifdef VERIF_NATIVE
#include "loose.hpp"
#endif
typedef std::experimental::string_view sv;

// raw position, if the iterator shows it
template <class I, class B> static auto raw_(const I& i, const B& base, int) -> decltype((long)(i.raw_iterator_ - base)) { return i.raw_iterator_ - base; }
template <class I, class B> static long raw_(const I&, const B&, long) { return -1; }
template <class I, class B> static long raw(const I& i, const B& base) { return raw_(i, base, 0); }

static std::string oct(const std::string& t) { std::string r; char b[8]; for (unsigned char c : t) { snprintf(b, sizeof b, "%02x ", c); r += b; } return r; }

// the text lives in memory of its own: sentinel octets on both sides, none a continuation octet
struct holder {
  std::string all; size_t at, n;
  holder(const std::string& t, rng& r) {
    static const char* before[] = { "", "z", "\xE2\x82\xAC", "\xF0\x9F\x92\xA9" };
    static const char* after[] = { "", "!", "\xCC\x81", "\xC3\xA9z", "\xF0\x9F\x8F\xBB" };
    std::string b = before[r.upto(4)], a = after[r.upto(5)];
    all = b + t + a; all.reserve(all.size() + 1); at = b.size(); n = t.size();
  }
  std::string text() const { return all.substr(at, n); }
};

//------------------------------------------------------------------ sessions (C02, C03)
template <class It, class B>
static void session(rng& r, const std::string& t, B b, B e, const char* st, int ops, std::function<std::string()> now) {
  long len = e - b;
  tr::doing(std::string("session ") + st + " " + oct(t));
  { ev v("new"); v.octets("t", t).str("st", st); v.done(); }
  std::vector<It> c(3, It(b));
  auto pos = [&](int i) { return raw(c[i], b); };
  // the driver's own idea of where the cursors are, only to respect the contract
  std::vector<long> p(3, 0);
  auto start = [&](long q) { while (q < len && q > 0 && cont(t[q])) q--; return q; };
  auto next = [&](long q) { q = start(q) + 1; while (q < len && cont(t[q])) q++; return q; };
  auto prev = [&](long q) { return start(start(q) - 1); };
  while (ops--) {
    int i = r.upto(3), j = r.upto(3);
    switch (r.upto(12)) {
    case 0: { long q = r.upto(len + 1); c[i] = It(b + q); p[i] = q; ev("seek").i("i", i).i("p", q).done(); break; }
    case 1: case 2: if (p[i] < len) { It x = ++c[i]; p[i] = next(p[i]); ev("inc").i("i", i).i("raw", pos(i)).i("ret", raw(x, b)).done(); } break;
    case 3: if (p[i] < len) { It x = c[i]++; p[i] = next(p[i]); ev("pinc").i("i", i).i("raw", pos(i)).i("ret", raw(x, b)).done(); } break;
    case 4: case 5: if (start(p[i]) > 0) { It x = --c[i]; p[i] = prev(p[i]); ev("dec").i("i", i).i("raw", pos(i)).i("ret", raw(x, b)).done(); } break;
    case 6: if (start(p[i]) > 0) { It x = c[i]--; p[i] = prev(p[i]); ev("pdec").i("i", i).i("raw", pos(i)).i("ret", raw(x, b)).done(); } break;
    case 7: if (i != j) { if (r.p(50)) c[i] = c[j]; else { It y(c[j]); c[i] = y; } p[i] = p[j]; ev("copy").i("i", i).i("j", j).i("raw", pos(i)).done(); } break;
    case 8: case 9: if (p[i] < len) { codepoint v = *c[i]; ev("read").i("i", i).i("v", v.value).i("raw", pos(i)).done(); } break;
    case 10: if (start(p[i]) > 0) { std::reverse_iterator<It> x(c[i]); codepoint v = *x; ev("rread").i("i", i).i("v", v.value).i("raw", pos(i)).done(); } break;
    case 11: { bool q = c[i] == c[j], n = c[i] != c[j]; ev("eq").i("i", i).i("j", j).b("eq", q).b("ne", n).done(); break; }
    }
  }
  // the whole text in both directions, prefix and postfix
  ints f, g, h, k; ints d;
  { It x(b), z(e); int guard = 0; while (x != z && guard++ < 100000) { f.push_back((*x).value); ++x; } }
  { It x(b), z(e); int guard = 0; while (!(x == z) && guard++ < 100000) { It y = x++; g.push_back((*y).value); } }
  if (len) { It x(e), z(b); int guard = 0; while (x != z && guard++ < 100000) { --x; h.push_back((*x).value); } }
  if (len) { std::reverse_iterator<It> x{It(e)}, z{It(b)}; int guard = 0; while (x != z && guard++ < 100000) { codepoint v = *x; k.push_back(v.value); if (guard & 1) ++x; else x++; } }
  int dist = std::distance(It(b), It(e));
  ev("walk").a("pre", f).a("post", g).a("back", h).a("rev", k).i("dist", dist).octets("t", now()).done();
}

static ints mixed_sizes(rng& r, int maxlen) {
  ints s; int n = r.in(0, maxlen);
  while (n--) switch (r.upto(5)) { case 0: s.push_back(r.in(0, 0x7F)); break; case 1: s.push_back(r.in(0x80, 0x7FF)); break;
    case 2: s.push_back(r.in(0x800, 0xFFFF)); break; case 3: s.push_back(r.in(0x10000, 0x10FFFF)); break; default: s.push_back(r.pick(edge_cps)); }
  return s;
}
static void sessions(rng& r, long n, int maxlen, int ops) {
  while (n--) {
    std::string t = enc(mixed_sizes(r, r.p(10) ? maxlen * 4 : maxlen));
    holder h(t, r);
    auto now = [&]() { return h.text(); };
#ifdef VERIF_NATIVE
    loose<unit8> m(h.all); auto lb = m.begin() + h.at, le = lb + h.n; typedef loose_it<unit8, false> LI; typedef loose_it<unit8, true> LC; auto lnow = [&]() { return std::string(lb, le); };
    switch (r.upto(3)) {
    case 0: session<utf8_const_iterator<LC>, LC>(r, t, lb, le, "apart const_iterator", ops, lnow); break;
    case 1: session<utf8_const_iterator<LI>, LI>(r, t, lb, le, "apart mutable const_iterator", ops, lnow); break;
    default: session<utf8_iterator<LI>, LI>(r, t, lb, le, "apart iterator", ops, lnow); break; }
    (void)now; continue;
#endif
    char* b = &h.all[0] + h.at; char* e = b + h.n;
    switch (r.upto(6)) {
    case 0: session<utf8_const_iterator<const char*>, const char*>(r, t, b, e, "const char*", ops, now); break;
    case 1: session<utf8_const_iterator<char*>, char*>(r, t, b, e, "char* const_iterator", ops, now); break;
    case 2: session<utf8_iterator<char*>, char*>(r, t, b, e, "char* iterator", ops, now); break;
    case 3: { sv v(b, h.n); utf8_string_view u(v);
        session<utf8_string_view::const_iterator, sv::const_iterator>(r, t, u.native_cbegin(), u.native_cend(), "utf8_string_view", ops, now); break; }
    case 4: { utf8_string u(t); session<utf8_string::const_iterator, std::string::const_iterator>(r, t, u.native_cbegin(), u.native_cend(), "utf8_string", ops, [&]() { return u.native_string; }); break; }
    case 5: { utf8_string u(t); session<utf8_string::iterator, std::string::iterator>(r, t, u.native_begin(), u.native_end(), "utf8_string iterator", ops, [&]() { return u.native_string; }); break; }
    }
  }
}

//------------------------------------------------------------------ every position of a text (C03, C01)
template <class It, class B>
static void everywhere(const std::string& t, B b, B e, const char* st) {
  long len = e - b;
  tr::doing(std::string("everywhere ") + st + " " + oct(t));
  ints rd, nx, pv, rr; std::vector<ints> eq;
  for (long p = 0; p <= len; p++) {
    ints row;
    for (long q = 0; q <= len; q++) { It x(b + p), y(b + q); bool a = x == y, n = x != y; row.push_back((a ? 1 : 0) + (n ? 2 : 0)); }
    eq.push_back(row);
    long s = p; while (s < len && s > 0 && cont(t[s])) s--;
    if (p < len) { It x(b + p); rd.push_back((*x).value); It y(b + p); ++y; It z(y);
      nx.push_back(z == It(e) ? -1 : (int)(*z).value); }
    if (s > 0) { It x(b + p); --x; pv.push_back((*x).value); std::reverse_iterator<It> w{It(b + p)}; codepoint v = *w; rr.push_back(v.value); }
    else { pv.push_back(-1); rr.push_back(-1); }
  }
  ev("every").octets("t", t).str("st", st).a("rd", rd).a("nx", nx).a("pv", pv).a("rr", rr).aa("eq", eq).done();
}
static void every(rng& r, long n, int maxlen) {
  static const ints four = { 0x61, 0xE9, 0x20AC, 0x10348 };
  auto one = [&](const std::string& t, int how) {
    holder h(t, r); char* b = &h.all[0] + h.at; char* e = b + h.n;
#ifdef VERIF_NATIVE
    loose<unit8> m(h.all); auto lb = m.begin() + h.at, le = lb + h.n; typedef loose_it<unit8, false> LI; typedef loose_it<unit8, true> LC;
    if (how % 2) everywhere<utf8_iterator<LI>, LI>(t, lb, le, "apart iterator"); else everywhere<utf8_const_iterator<LC>, LC>(t, lb, le, "apart const_iterator"); return;
#endif
    switch (how) {
    case 0: everywhere<utf8_const_iterator<const char*>, const char*>(t, b, e, "const char*"); break;
    case 1: everywhere<utf8_iterator<char*>, char*>(t, b, e, "char* iterator"); break;
    case 2: { utf8_string u(t); everywhere<utf8_string::const_iterator, std::string::const_iterator>(t, u.native_cbegin(), u.native_cend(), "utf8_string"); break; }
    default: { sv v(b, h.n); utf8_string_view u(v); everywhere<utf8_string_view::const_iterator, sv::const_iterator>(t, u.native_cbegin(), u.native_cend(), "utf8_string_view"); break; }
    }
  };
  while (n--) {
    ints s = r.p(30) ? ints() : mixed_sizes(r, maxlen);
    if (s.empty()) { int k = r.in(0, maxlen); while (k--) s.push_back(r.pick(four)); }
    one(enc(s), r.upto(4));
  }
}

//------------------------------------------------------------------ every codepoint (C01-C03)
// Observation of one codepoint c between two others; positions relative to
// the codepoint, values relative to c, so that neighbours give equal
// observations and are written as one run.
struct obs {
  std::string pfx; int last; ints rd, nx, pv, rr, eq, walk, back;
  bool same(const obs& o) const { return pfx == o.pfx && rd == o.rd && nx == o.nx && pv == o.pv && rr == o.rr && eq == o.eq && walk == o.walk && back == o.back; }
};
template <class It, class B>
static obs observe(int c, const std::string& a, const std::string& t, B b, B e) {
  obs o; std::string x = enc(c); o.pfx = x.substr(0, x.size() - 1); o.last = (unsigned char)x.back();
  long s = a.size(), n = x.size();
  for (long k = 0; k < n; k++) {
    It i(b + s + k); o.rd.push_back((*i).value - c);
    It y(b + s + k); ++y; o.nx.push_back((*y).value);
    It z(b + s + k); --z; o.pv.push_back((*z).value);
    It w(b + s + n); --w; It v(b + s + k); o.eq.push_back((v == w) + 2 * (w == v) + 4 * (v != w) + 8 * (v == y) + 16 * (v == z) + 32 * (y == v) + 64 * (z == v));
  }
  { std::reverse_iterator<It> w{It(b + s + n)}; codepoint v = *w; o.rr.push_back(v.value - c); }
  { It i(b), z(e); int g = 0; while (i != z && g++ < 20) { int v = (*i).value; o.walk.push_back(g == 2 ? v - c : v); i++; } }
  { It i(e), z(b); int g = 0; while (i != z && g++ < 20) { --i; int v = (*i).value; o.back.push_back(g == 2 ? v - c : v); } }
  return o;
}
static void sweep(long from, long to, int variant) {
  static const char* befores[] = { "A", "\xE2\x82\xAC", "\xF0\x90\x8D\x88" };
  static const char* afters[] = { "B", "\xC3\xA9", "\xF0\x90\x8D\x88" };
  std::string a = befores[variant % 3], z = afters[(variant / 3) % 3];
  obs run; long r0 = -1, rn = 0;
  auto out = [&]() {
    if (r0 < 0) return;
    ev("sweep").i("from", r0).i("n", rn).octets("a", a).octets("z", z).octets("p", run.pfx).i("lo", run.last)
      .a("rd", run.rd).a("nx", run.nx).a("pv", run.pv).a("rr", run.rr).a("eq", run.eq).a("walk", run.walk).a("back", run.back).done();
  };
  for (long c = from; c <= to; c++) {
    std::string t = a + enc(c) + z;
    char cur[64]; snprintf(cur, sizeof cur, "iterating U+%04lX variant %d", c, variant); tr::doing(cur);
    obs o; std::string mem = t + "!";
    if (variant % 2) { char* p = &mem[0]; o = observe<utf8_iterator<char*>, char*>(c, a, t, p, p + t.size()); }
    else { const char* p = mem.data(); o = observe<utf8_const_iterator<const char*>, const char*>(c, a, t, p, p + t.size()); }
    if (r0 >= 0 && o.same(run) && o.last == run.last + rn) rn++;
    else { out(); run = o; r0 = c; rn = 1; }
  }
  out();
}

//------------------------------------------------------------------ long texts (C01): unit repeated
static void longwalk(rng& r, long n) {
  while (n--) {
    ints u; int k = r.in(1, 3); while (k--) u.push_back(r.p(50) ? r.pick(edge_cps) : any_cp(r));
    long times = n ? r.in(20000, 70000) : r.in(66000, 90000);
    std::string unit = enc(u), t; for (long i = 0; i < times; i++) t += unit;
    utf8_string_view v{sv(t)};
    tr::doing("long walk over a repeated " + oct(unit));
    // the result, folded back into (unit, times, rest)
    ints first; long full = 0; ints rest; ints cur;
    auto i = v.codepoint_cbegin(), e = v.codepoint_cend(); long guard = 0, limit = times * (long)u.size() + 10;
    bool broken = false;
    while (i != e && guard++ < limit) {
      codepoint c = *i; ++i; if (broken) { if (rest.size() < 8) rest.push_back(c.value); continue; }
      cur.push_back(c.value);
      if (cur.size() == u.size()) { if (full == 0) first = cur; if (cur == first) { full++; cur.clear(); } else { broken = true; rest = cur; cur.clear(); } }
    }
    for (int c : cur) rest.push_back(c);
    long back = 0; { auto x = v.codepoint_cend(), b = v.codepoint_cbegin(); long g = 0; while (x != b && g++ < limit) { --x; back++; } }
    int dist = std::distance(v.codepoint_cbegin(), v.codepoint_cend());
    ev("long").octets("unit", unit).a("first", first).i("times", times).i("full", full).a("rest", rest).i("back", back).i("dist", dist).done();
  }
}

//------------------------------------------------------------------ writing (C05)
// what another iterator points to, where the interface allows it (C33 says it must)
static char* first_of(std::string& m, std::vector<char>&, char*) { return &m[0]; }
static std::string::iterator first_of(std::string& m, std::vector<char>&, std::string::iterator) { return m.begin(); }
static std::vector<char>::iterator first_of(std::string&, std::vector<char>& v, std::vector<char>::iterator) { return v.begin(); }
#ifdef VERIF_NATIVE
static loose_it<unit8, false> first_of(std::string& m, std::vector<char>&, loose_it<unit8, false>) { static loose<unit8> keep; keep = m; return keep.begin(); }
#endif
template <class It> static auto from_other(It& it, It& other, int, int) -> decltype((void)(*it = *other)) { *it = *other; }
template <class It> static void from_other(It& it, It&, int c, long) { *it = codepoint(c); }
template <class It, class B>
static void wsession(rng& r, std::string& buf, B b, const char* st, long at, const ints& cps, std::function<std::string()> now) {
  tr::doing(std::string("writing ") + st + " at " + std::to_string(at) + " into " + oct(buf));
  ev("wnew").octets("t", buf).i("p", at).str("st", st).done();
  It it(b + at);
  long room = (long)buf.size() - at;
  for (int c : cps) {
    long n = enc(c).size(); if (n > room) break; room -= n;
    switch (r.upto(4)) { case 0: *it = codepoint(c); break; case 1: { codepoint v(c); *it = v; break; } case 2: { std::string m = enc(c) + "!"; std::vector<char> v(m.begin(), m.end()); It other(first_of(m, v, b)); from_other(it, other, c, 0); break; } default: { auto x = *it; x = codepoint(c); break; } }
    ev("write").i("c", c).i("raw", raw(it, b)).octets("t", now()).done();
    if (r.p(60)) { codepoint v = *it; ev("wread").i("v", v.value).done(); }
    if (r.p(20)) { It copy(it); codepoint v = *copy; ev("wread").i("v", v.value).done(); }
    if (r.p(50)) ++it; else it++;
    ev("winc").i("raw", raw(it, b)).octets("t", now()).done();
  }
}
static void wsessions(rng& r, long n) {
  while (n--) {
    std::string buf; long at = 0; ints cps;
    int kind = r.upto(3);
    if (kind == 0) { buf = std::string(r.in(4, 40), (char)r.pick(ints{ 0, '?', 0x20, 0x7F })); at = r.upto(buf.size()); }
    else { ints s = mixed_sizes(r, 12); if (s.empty()) s.push_back('x'); buf = enc(s); std::vector<long> st;
      for (size_t p = 0; p < buf.size(); p++) if (!cont(buf[p])) st.push_back(p); at = st[r.upto(st.size())]; }
    int k = r.in(1, 10); while (k--) cps.push_back(r.p(50) ? r.pick(edge_cps) : any_cp(r));
#ifdef VERIF_NATIVE
    { loose<unit8> m(buf + "!"); size_t len = buf.size(); typedef loose_it<unit8, false> LI; auto rubbish = m.m; wsession<utf8_iterator<LI>, LI>(r, buf, m.begin(), "apart", at, cps, [&]() { std::string x = m, y = x.substr(0, len); bool ok = x[len] == '!'; for (size_t i = 0; i < m.m.size(); i++) if (i % loose_step && m.m[i] != rubbish[i]) ok = false; return y + (ok ? "" : "X"); }); continue; }
#endif
    switch (r.upto(3)) {
    case 0: { std::string m = buf + "!"; char* b = &m[0]; size_t len = buf.size(); wsession<utf8_iterator<char*>, char*>(r, buf, b, "char*", at, cps, [&]() { return m.substr(0, len) + (m[len] == '!' ? "" : "X"); }); break; }
    case 1: { utf8_string u(buf); wsession<utf8_string::iterator, std::string::iterator>(r, buf, u.native_begin(), "utf8_string", at, cps, [&]() { return u.native_string; }); break; }
    default: { std::vector<char> m(buf.begin(), buf.end()); m.push_back('!'); size_t len = buf.size();
        wsession<utf8_iterator<std::vector<char>::iterator>, std::vector<char>::iterator>(r, buf, m.begin(), "vector<char>", at, cps, [&]() { return std::string(m.begin(), m.begin() + len) + (m[len] == '!' ? "" : "X"); }); break; }
    }
  }
}
// every codepoint written into sentinel octets
static void wsweep(long from, long to, int fill) {
  struct wobs { std::string got; int rb, adv; size_t k; } run; long r0 = -1, rn = 0;
  auto out = [&]() { if (r0 < 0) return; ev("wsweep").i("from", r0).i("n", rn).i("fill", fill).octets("out", run.got).i("k", run.k).i("rb", run.rb).i("adv", run.adv).done(); };
  // b is a with octet k larger by d
  auto step = [&](const wobs& a, const wobs& b, long d) {
    if (a.k != b.k || a.rb != b.rb || a.adv != b.adv) return false;
    for (size_t i = 0; i < a.got.size(); i++) if ((unsigned char)a.got[i] + (i == a.k ? d : 0) != (unsigned char)b.got[i]) return false;
    return true;
  };
  for (long c = from; c <= to; c++) {
    char cur[64]; snprintf(cur, sizeof cur, "writing U+%04lX over %d", c, fill); tr::doing(cur);
    std::string m(10, (char)fill); m[9] = '!';
    utf8_iterator<char*> it(&m[2]); *it = codepoint((int)c); codepoint rb = *it; ++it;
    codepoint mark('+'); *it = mark;    // shows where ++ led to
    size_t pos = m.find('+', 3);
    int adv = pos == std::string::npos ? -1 : (int)pos - 2;
    if (adv > 0) m[2 + adv] = (char)fill;
    wobs o{ m, rb.value - (int)c, adv, 1 + enc((int)c).size() };
    if (r0 >= 0 && step(run, o, rn)) rn++;
    else { out(); run = o; r0 = c; rn = 1; }
  }
  out();
}
// every codepoint converted from UTF-32 (C04)
static void esweep(long from, long to, int variant) {
  std::string run, pre = variant ? "\xE2\x82\xAC" : "x"; long r0 = -1, rn = 0; bool ok = true;
  auto out = [&]() { if (r0 < 0) return; ev("esweep").i("from", r0).i("n", rn).octets("pre", pre).octets("out", run).b("same32", ok).done(); };
  for (long c = from; c <= to; c++) {
    char cur[64]; snprintf(cur, sizeof cur, "appending U+%04lX", c); tr::doing(cur);
    std::basic_string<int> s(1, (int)c); utf8_string u{pre};
    if (variant) { utf32ne_string_view v{std::experimental::basic_string_view<int>(s.data(), 1)}; u.append_from_utf32ne<std::experimental::basic_string_view<int>>(v.codepoint_cbegin(), v.codepoint_cend()); }
    else { utf32ne_string v{s}; u.append_from_utf32ne<std::basic_string<int>>(v.codepoint_cbegin(), v.codepoint_cend()); }
    utf32ne_string w{std::basic_string<int>(1, 7)}, x{s}; w.append_from_utf32ne<std::basic_string<int>>(x.codepoint_cbegin(), x.codepoint_cend());
    bool same = w.native_string.size() == 2 && w.native_string[0] == 7 && w.native_string[1] == c;
    const std::string& o = u.native_string;
    if (r0 >= 0 && same == ok && o.size() == run.size() && o.size() && o.substr(0, o.size() - 1) == run.substr(0, run.size() - 1) && (unsigned char)o.back() == (unsigned char)run.back() + rn) rn++;
    else { out(); run = o; ok = same; r0 = c; rn = 1; }
  }
  out();
}

int main(int argc, char** argv) {
  args a(argc, argv);
  tr::start(a.s("-o").c_str(), a.n("-cpu", 120));
  rng r(a.n("-seed", 1) * 1000 + a.n("-shard", 0));
  long sh = a.n("-shard", 0), of = a.n("-of", 1), n = a.n("-n", 100);
  long lo = 0x110000 / of * sh, hi = sh == of - 1 ? 0x10FFFF : 0x110000 / of * (sh + 1) - 1;
  std::string m = a.s("-mode");
  if (m == "session") sessions(r, n, a.n("-max", 14), a.n("-ops", 40));
  else if (m == "every") every(r, n, a.n("-max", 4));
  else if (m == "sweep") sweep(lo, hi, a.n("-variant", 0));
  else if (m == "long") longwalk(r, n);
  else if (m == "wsession") wsessions(r, n);
  else if (m == "wsweep") wsweep(lo, hi, a.n("-fill", 0));
  else if (m == "esweep") esweep(lo, hi, a.n("-variant", 0));
  else return 95;
  tr::finish();
  return 0;
}
