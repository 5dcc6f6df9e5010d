// Records sessions with codepoint objects.  Events: spec/trace/CodepointTrace.tla
#include "common.hpp"
#include <u5e/codepoint.hpp>
using u5e::codepoint; using tr::ev;

static ev& w(ev& e, const char* k, const ints& v) { e.k(k); e.s += "["; for (size_t i = 0; i < v.size(); i++) { if (i) e.s += ","; e.s += std::to_string(v[i]); } e.s += "]"; return e; }
static ev& wb(ev& e, const char* k, const std::vector<bool>& v) { e.k(k); e.s += "["; for (size_t i = 0; i < v.size(); i++) { if (i) e.s += ","; e.s += v[i] ? "true" : "false"; } e.s += "]"; return e; }
static int number(rng& r) {
  if (r.p(30)) return any_cp(r);
  if (r.p(40)) { int b = r.in(0, 31); long v = (1l << b) + r.in(-2, 2); if (r.p(40)) v = -v; return v > 0x7FFFFFFFl ? 0x7FFFFFFF : (int)v; }
  return (int)(unsigned)r.next();
}
static int through(codepoint c) { return c; }                      // an argument of the type
static int as_int(int i) { return i; }
template <class A, class B> static std::vector<bool> compared(const A& a, const B& b) { return { a == b, a != b, a < b, a > b }; }
struct session {
  std::vector<codepoint> o = std::vector<codepoint>(4);
  void put(ev& e) {
    ints m, c, a; for (int i = 0; i < 4; i++) { m.push_back(o[i].value); int x = o[i]; c.push_back(x); const codepoint k(o[i]); a.push_back(as_int(k) == through(x) ? through(k) : 77); }
    w(e, "member", m); w(e, "conv", c); w(e, "arg", a); e.done();
  }
  void step(rng& r) {
    int i = r.upto(4), j = r.upto(4), v = r.p(50) ? number(r) : r.p(50) ? o[r.upto(4)].value : o[r.upto(4)].value ^ (1 << r.upto(31)); tr::doing("codepoint of " + std::to_string(v));
    switch (r.upto(9)) {
    case 0: { o[i] = v; ev e("cint"); e.i("o", i + 1); put(w(e, "v", { v })); break; }
    case 1: { o[i] = codepoint(v); ev e("cint"); e.i("o", i + 1); put(w(e, "v", { v })); break; }
    case 2: { codepoint c = v; o[i].~codepoint(); new (&o[i]) codepoint(c); ev e("cint"); e.i("o", i + 1); put(w(e, "v", { v })); break; }
    case 3: { o[i] = codepoint(); ev e("cdef"); e.i("o", i + 1); put(e); break; }
    case 4: { o[i] = o[j]; ev e("ccopy"); e.i("o", i + 1).i("p", j + 1); put(e); break; }
    case 5: { o[i] = o[j] = v; ev e("cchain"); e.i("o", i + 1).i("p", j + 1); put(w(e, "v", { v })); break; }
    case 6: { std::swap(o[i], o[j]); ev e("cswap"); e.i("o", i + 1).i("p", j + 1); put(e); break; }
    default: { const codepoint& a = o[i], b = o[j]; bool f = std::find(o.begin(), o.end(), v) != o.end(); if (f != (std::find(o.begin(), o.end(), codepoint(v)) != o.end())) f = !f;
      ev e("ccmp"); e.i("o", i + 1).i("p", j + 1); w(e, "v", { v }); wb(e, "cc", compared(a, b)); wb(e, "ci", compared(a, v)); wb(e, "ic", compared(v, a)); e.b("found", f); put(e); } }
  }
};
int main(int argc, char** argv) {
  args a(argc, argv); tr::start(a.s("-o").c_str(), a.n("-cpu", 120));
  long n = a.n("-n", 100); rng r(a.n("-seed", 1) * 1000 + a.n("-shard", 0));
  while (n--) { session s; { ev e("cnew"); s.put(e); } for (int k = 0; k < 40; k++) s.step(r); }
  tr::finish(); return 0;
}
