// Shared by all recorders and replayers: trace output, crash reporting,
// random choices, a small JSON reader, text generation.
#ifndef VERIF_COMMON
#define VERIF_COMMON
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <atomic>
#include <memory>
#include <algorithm>
#include <iterator>
#include <exception>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/time.h>
#include <sys/resource.h>

typedef std::vector<int> ints;

//---------------------------------------------------------------- trace out
namespace tr {
static int fd = 1;
static char* buf = nullptr;
static size_t len = 0, cap = 1 << 20;
static char current[4096] = "";           // what the code under test is doing
static long lines = 0;
static size_t total = 0, limit = (size_t)400 << 20;
static void rawwrite(const char* p, size_t n) {
  while (n) { ssize_t k = write(fd, p, n); if (k <= 0) _exit(97); p += k; n -= k; }
}
static void flush() { rawwrite(buf, len); len = 0; }
static void put(const char* p, size_t n) {
  if (!buf) buf = (char*)malloc(cap);
  if (len + n > cap) flush();
  if (n > cap) rawwrite(p, n); else { memcpy(buf + len, p, n); len += n; }
}
static void put(const std::string& s) { put(s.data(), s.size()); }
// one event
struct ev {
  std::string s;
  explicit ev(const char* op) { s = "{\"op\":\""; s += op; s += "\""; }
  ev& k(const char* key) { s += ",\""; s += key; s += "\":"; return *this; }
  ev& i(const char* key, long v) { k(key); s += std::to_string(small(v)); return *this; }
  ev& b(const char* key, bool v) { k(key); s += v ? "true" : "false"; return *this; }
  ev& str(const char* key, const std::string& v) { k(key); s += "\"" + v + "\""; return *this; }
  template <class C> ev& a(const char* key, const C& v) { k(key); s += arr(v); return *this; }
  template <class C> static std::string arr(const C& v) {
    std::string r = "["; bool first = true;
    for (auto x : v) { if (!first) r += ","; first = false; r += std::to_string(small((long)x)); }
    return r + "]";
  }
  ev& octets(const char* key, const std::string& v) {
    k(key); s += "["; for (size_t j = 0; j < v.size(); j++) { if (j) s += ","; s += std::to_string((unsigned char)v[j]); }
    s += "]"; return *this;
  }
  template <class C> ev& aa(const char* key, const C& v) {
    k(key); s += "["; bool first = true;
    for (auto& x : v) { if (!first) s += ","; first = false; s += arr(x); }
    s += "]"; return *this;
  }
  void done() {
    s += "}\n"; put(s); lines++; total += s.size();
    if (total > limit) { put(std::string("{\"op\":\"truncated\"}\n")); flush(); _exit(0); }   // far more than any unchanged run writes
  }
  // TLC has 32-bit integers: anything beyond is as wrong at the edge
  static long small(long v) { return v > 1 << 30 ? 1 << 30 : v < -(1 << 30) ? -(1 << 30) : v; }
};
// what is being executed, for a crash report
static std::atomic<long> progress(0);
static void doing(const std::string& s) {
  progress++;
  size_t n = std::min(s.size(), sizeof(current) - 1);
  memcpy(current, s.data(), n); current[n] = 0;
}
static void last_event(const char* what) {
  static char line[8192];
  // quotes would end the JSON string
  for (char* p = current; *p; p++) if (*p == '"' || *p == '\\' || *p == '\n') *p = '\'';
  int n = snprintf(line, sizeof line, "{\"op\":\"crash\",\"what\":\"%s\",\"doing\":\"%s\"}\n", what, current);
  if (buf && len) rawwrite(buf, len);
  len = 0;
  rawwrite(line, n);
}
static long ticks = 0, max_ticks = 1, idle = 0, seen = -1;
static void (*on_timeout)() = nullptr;
#ifdef VERIF_MEMCHECK
static const long tick = 120;             // seconds of CPU time
#else
static const long tick = 10;
#endif
static void on_tick(int) {                // nothing done for two ticks, or far too much altogether
  if (progress == seen) idle++; else idle = 0;
  seen = progress;
  if (idle < 2 && ++ticks < max_ticks) return;
  if (on_timeout) on_timeout();
  last_event("timeout"); _exit(0);
}
static void on_signal(int sig) {
  const char* n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGBUS ? "SIGBUS"
    : sig == SIGFPE ? "SIGFPE" : sig == SIGPROF ? "timeout" : sig == SIGILL ? "SIGILL" : "signal";
  last_event(n);
  _exit(0);
}
static void on_terminate() { last_event("exception"); _exit(0); }
static void start(const char* path, long cpu_seconds) {
  if (path && *path) { fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd < 0) { perror(path); _exit(96); } }
  static char stack[1 << 16];
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = stack; ss.ss_size = sizeof stack; sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
  for (int s : { SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL }) sigaction(s, &sa, nullptr);
  std::set_terminate(on_terminate);
  max_ticks = cpu_seconds / tick; sa.sa_handler = on_tick; sa.sa_flags |= SA_RESTART; sigaction(SIGPROF, &sa, nullptr);
  struct itimerval tv; memset(&tv, 0, sizeof tv); tv.it_value.tv_sec = tv.it_interval.tv_sec = tick; setitimer(ITIMER_PROF, &tv, nullptr);
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__) && !defined(VERIF_MEMCHECK)
  struct rlimit rl; rl.rlim_cur = rl.rlim_max = 5ull << 29; setrlimit(RLIMIT_AS, &rl);
#endif
}
static void finish() { ev e("end"); e.done(); flush(); }
}

//---------------------------------------------------------------- random
struct rng {
  uint64_t s;
  explicit rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
  uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  int upto(int n) { return n <= 0 ? 0 : (int)(next() % (uint64_t)n); }         // 0..n-1
  int in(int a, int b) { return a + upto(b - a + 1); }                           // a..b
  bool p(int percent) { return upto(100) < percent; }
  template <class C> auto pick(const C& c) -> decltype(c[0]) { return c[upto((int)c.size())]; }
};

//---------------------------------------------------------------- own UTF-8 (independent of the library)
static std::string enc(int c) {
  std::string r;
  if (c < 0x80) r += (char)c;
  else if (c < 0x800) { r += (char)(0xC0 | c >> 6); r += (char)(0x80 | (c & 63)); }
  else if (c < 0x10000) { r += (char)(0xE0 | c >> 12); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); }
  else { r += (char)(0xF0 | c >> 18); r += (char)(0x80 | (c >> 12 & 63)); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); }
  return r;
}
static std::string enc(const ints& s) { std::string r; for (int c : s) r += enc(c); return r; }
static bool cont(char c) { return ((unsigned char)c >> 6) == 2; }

//---------------------------------------------------------------- text generation
// codepoints at which something changes: sizes, classes, tables
static const ints edge_cps = { 0, 1, 9, 0xA, 0xD, 0x20, 0x3F, 0x41, 0x61, 0x7E, 0x7F, 0x80, 0x81, 0xA0, 0xAD, 0xBF, 0xC0, 0xFF,
  0x100, 0x17F, 0x3FF, 0x400, 0x7BF, 0x7C0, 0x7FE, 0x7FF, 0x800, 0x801, 0x83F, 0x840, 0xFFF, 0x1000, 0x1FFF, 0x2000, 0x3FFF, 0x4000, 0x7FFF, 0x8000,
  0xD7A3, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x10001, 0x1003F, 0x10040, 0x103FF, 0x1FFFF,
  0x20000, 0x2FFFF, 0x3FFFF, 0x40000, 0x7FFFF, 0x80000, 0xFFFFF, 0x100000, 0x10FFFE, 0x10FFFF };
// one or more codepoints of every grapheme cluster break class, in the numbering of Graphemes.tla
static const std::vector<ints> gcb_reps = {
  { 0x61, 0x20, 0xE9, 0x4E00, 0x10FFFF, 0x3131 }, { 0xD }, { 0xA }, { 0x0, 0x7F, 0xAD, 0x200B, 0x2028, 0xFEFF, 0xE0001, 0xD800 },
  { 0x300, 0x301, 0x323, 0x345, 0x5B0, 0x94D, 0x200C, 0x3099, 0xFE0F, 0x1D165, 0xE0100 }, { 0x600, 0x6DD, 0x8E2, 0xD4E, 0x110BD },
  { 0x903, 0x93E, 0xE33, 0x1D166, 0xABEC }, { 0x1100, 0x1112, 0x115F, 0xA960 }, { 0x1161, 0x1175, 0x11A7, 0xD7B0 }, { 0x11A8, 0x11C2, 0x11FF, 0xD7CB },
  { 0xAC00, 0xAC1C, 0xD788 }, { 0xAC01, 0xAC1B, 0xD7A3 }, { 0x1F1E6, 0x1F1FF }, { 0x261D, 0x1F385, 0x1F926 }, { 0x1F3FB, 0x1F3FF }, { 0x200D },
  { 0x2764, 0x1F48B, 0x1F5E8 }, { 0x1F466, 0x1F469 } };
// combining marks of many classes
static const ints mark_cps = { 0x300, 0x301, 0x302, 0x303, 0x304, 0x306, 0x307, 0x308, 0x30A, 0x30C, 0x30F, 0x311, 0x313, 0x314, 0x31B, 0x323, 0x324, 0x325,
  0x327, 0x328, 0x32D, 0x32E, 0x330, 0x331, 0x334, 0x338, 0x340, 0x341, 0x342, 0x343, 0x344, 0x345, 0x34F, 0x35C, 0x35D, 0x360, 0x5B0, 0x5B4, 0x5BC, 0x5C1, 0x64B,
  0x653, 0x654, 0x655, 0x670, 0x711, 0x93C, 0x94D, 0x9BC, 0x9BE, 0x9D7, 0xB3E, 0xB56, 0xB57, 0xBBE, 0xCC2, 0xCD5, 0xD3E, 0xDCA, 0xDCF, 0xDDF, 0xE38, 0xE48, 0xEB8, 0xF18, 0xF39, 0xF71, 0xF72, 0xF74, 0xF7A, 0xF80,
  0x102E, 0x1B35, 0x302A, 0x302E, 0x3099, 0x309A, 0x110BA, 0x1D165, 0x1D16D, 0x1D16E, 0x1E8D0, 0x1E944, 0x200D };
// bases and composites that take part in normalization
static const ints base_cps = { 0x41, 0x44, 0x61, 0x65, 0x69, 0x6F, 0x73, 0x75, 0xC5, 0xD4, 0xE2, 0xE7, 0xF5, 0xFC, 0x1A1, 0x1B0, 0x1EA1, 0x1E0B, 0x1E63, 0x1E69, 0x1ED9, 0x212B, 0x2126, 0x212A,
  0x391, 0x3B1, 0x3B9, 0x3C5, 0x3C9, 0x1F00, 0x1F80, 0x1FC6, 0x958, 0x928, 0x929, 0x9C7, 0x9CB, 0xB47, 0xB92, 0xBC6, 0xCC6, 0xD46, 0xDD9, 0xDDC, 0xF40, 0xF43, 0xF73, 0xF75, 0xF76, 0xF77, 0x1025, 0x1B05, 0x304B, 0x304C, 0x306F, 0x3070, 0x30AB, 0x30F0,
  0x1100, 0x1112, 0x1161, 0x1175, 0x11A7, 0x11A8, 0x11C2, 0xAC00, 0xAC01, 0xAC1C, 0xB098, 0xD788, 0xD7A3, 0x3131, 0x314F, 0x3133, 0xFFA1, 0x320E, 0x3260, 0xFB01, 0xFB1D, 0xFB2A, 0xFDFA, 0xF900, 0xFA10, 0x2F800, 0x2FA1D, 0x11099, 0x11131, 0x1D15E, 0x1D160, 0x1D1BB,
  0xA0, 0xA8, 0xAF, 0xBC, 0x132, 0x1C4, 0x2460, 0x3300, 0x33C2, 0xFF21, 0xFF76, 0xFF9E, 0x1D400, 0x1F100 };

static int any_cp(rng& r) {
  switch (r.upto(9)) {
  case 0: return r.in(0, 0x7F);
  case 1: return r.in(0x80, 0x7FF);
  case 2: return r.in(0x800, 0xFFFF);
  case 3: return r.in(0x10000, 0x10FFFF);
  case 4: return r.pick(edge_cps);
  case 5: return r.pick(mark_cps);
  case 6: return r.pick(base_cps);
  case 7: return r.in(0xAC00, 0xD7A3);
  default: return r.pick(r.pick(gcb_reps));
  }
}
static ints any_text(rng& r, int maxlen) { ints s; int n = r.in(0, maxlen); while (n--) s.push_back(any_cp(r)); return s; }
// like a user's text: bases followed by marks
static ints mark_text(rng& r, int maxlen) {
  ints s; int n = r.in(1, maxlen);
  while ((int)s.size() < n) {
    if (r.p(85)) s.push_back(r.p(70) ? r.pick(base_cps) : any_cp(r));
    int k = r.upto(4); while (k-- && (int)s.size() < n) s.push_back(r.pick(mark_cps));
  }
  return s;
}
static ints class_text(rng& r, int maxlen) { ints s; int n = r.in(0, maxlen); while (n--) s.push_back(r.pick(r.pick(gcb_reps))); return s; }

//---------------------------------------------------------------- command line
struct args {
  std::map<std::string, std::string> m;
  args(int argc, char** argv) { for (int i = 1; i + 1 < argc; i += 2) m[argv[i]] = argv[i + 1]; }
  std::string s(const char* k, const char* d = "") const { auto i = m.find(k); return i == m.end() ? d : i->second; }
  long n(const char* k, long d) const { auto i = m.find(k); return i == m.end() ? d : atol(i->second.c_str()); }
};

//---------------------------------------------------------------- JSON reader (replayers)
struct json {
  enum kind { num, str, boolean, list, object, null } t = null;
  long n = 0; std::string s; std::vector<json> v; std::map<std::string, json> o;
  const json& operator[](const char* k) const { static json none; auto i = o.find(k); return i == o.end() ? none : i->second; }
  const json& operator[](int i) const { static json none; return i < (int)v.size() ? v[i] : none; }
  ints list_of_int() const { ints r; for (auto& x : v) r.push_back((int)x.n); return r; }
  std::string bytes() const { std::string r; for (auto& x : v) r += (char)x.n; return r; }
  static json parse(const char*& p) {
    json j; while (*p == ' ') p++;
    if (*p == '{') { j.t = object; p++; while (*p && *p != '}') { json k = parse(p); while (*p == ' ' || *p == ':') p++; j.o[k.s] = parse(p); while (*p == ' ' || *p == ',') p++; } if (*p) p++; }
    else if (*p == '[') { j.t = list; p++; while (*p && *p != ']') { j.v.push_back(parse(p)); while (*p == ' ' || *p == ',') p++; } if (*p) p++; }
    else if (*p == '"') { j.t = str; p++; while (*p && *p != '"') j.s += *p++; if (*p) p++; }
    else if (*p == 't') { j.t = boolean; j.n = 1; p += 4; }
    else if (*p == 'f') { j.t = boolean; p += 5; }
    else if (*p == 'n') { p += 4; }
    else { j.t = num; char* q; j.n = strtol(p, &q, 10); if (q == p) p++; else p = q; }
    return j;
  }
};
#endif
