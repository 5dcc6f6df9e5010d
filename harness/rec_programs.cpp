// The example programs, run as processes with random arguments; what they print is parsed back.
#include "common.hpp"
#include "ucd_sets.hpp"
#include <poll.h>
#include <spawn.h>
#include <sys/wait.h>
extern char** environ;
using tr::ev;
typedef std::vector<ints> groups; typedef std::vector<groups> lines_t;
struct result { int status; std::string out; };
static std::string dir;
static int died = 0;
static bool have(const std::string& name) { return access((dir + "/" + name).c_str(), X_OK) == 0; }
// status: exit status, or minus the signal; a program that does not end within 30 s is ended
static result run(const std::string& name, const std::vector<std::string>& args) {
  std::string path = dir + "/" + name; std::vector<char*> av{ &path[0] }; std::vector<std::string> copy(args);
  for (auto& x : copy) av.push_back(&x[0]);
  av.push_back(nullptr);
  int p[2]; if (pipe(p)) _exit(97);
  posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa); posix_spawn_file_actions_adddup2(&fa, p[1], 1); posix_spawn_file_actions_addclose(&fa, p[0]); posix_spawn_file_actions_addclose(&fa, p[1]);
  posix_spawn_file_actions_addopen(&fa, 2, "/dev/null", O_WRONLY, 0);
  pid_t pid; if (posix_spawn(&pid, path.c_str(), &fa, nullptr, av.data(), environ)) _exit(98);
  posix_spawn_file_actions_destroy(&fa); close(p[1]);
  result r{ 0, "" }; char b[65536]; time_t t0 = time(nullptr); bool late = false;
  for (;;) { struct pollfd f{ p[0], POLLIN, 0 }; int k = poll(&f, 1, 1000); if (k < 0 && errno != EINTR) break;
    if (k > 0) { ssize_t n = read(p[0], b, sizeof b); if (n == 0) break; if (n > 0) r.out.append(b, n); }
    if (time(nullptr) - t0 > 30 || r.out.size() > (16u << 20)) { late = true; kill(pid, SIGKILL); break; } }
  close(p[0]); int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (late || !WIFEXITED(st)) died++;
  r.status = late ? -1000 : WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st); return r;
}
// U+hex tokens, grouped by brackets if there are any; what is neither is the group { -1 }
static lines_t parse(const std::string& out, bool bracketed) {
  lines_t r; size_t i = 0;
  while (i < out.size()) { size_t e = out.find('\n', i); if (e == std::string::npos) e = out.size();
    groups g; if (!bracketed) g.push_back(ints()); bool open = !bracketed; size_t k = i;
    while (k < e) { char c = out[k];
      if (c == ' ' || c == '\t' || c == '\r') k++;
      else if (bracketed && c == '[' && !open) { g.push_back(ints()); open = true; k++; }
      else if (bracketed && c == ']' && open) { open = false; k++; }
      else if (open && c == 'U' && k + 2 < e && out[k + 1] == '+' && isxdigit((unsigned char)out[k + 2])) { char* end; g.back().push_back((int)strtoull(&out[k + 2], &end, 16)); k = end - out.data(); }
      else { g.push_back(ints{ -1 }); break; } }
    if (bracketed && open) g.push_back(ints{ -1 });
    r.push_back(g); i = e + 1; }
  return r;
}
static std::string nest(const lines_t& l) { std::string s = "["; for (size_t i = 0; i < l.size(); i++) { if (i) s += ","; s += "["; for (size_t j = 0; j < l[i].size(); j++) { if (j) s += ","; s += tr::ev::arr(l[i][j]); } s += "]"; } return s + "]"; }
static ints text(rng& r, int max) {
  ints s = r.p(30) ? any_text(r, max) : r.p(40) ? class_text(r, max) : r.p(50) ? mark_text(r, max) : ints();
  if (s.empty() && r.p(95)) { int n = r.in(1, max); while (n--) s.push_back(r.p(30) ? r.pick(ucd_marks) : r.p(30) ? r.pick(ucd_canon) : r.p(50) ? r.pick(ucd_compat) : r.p(50) ? 0x1100 + r.upto(0x100) : any_cp(r)); }
  for (int& c : s) if (c == 0) c = 'a';                    // an argument has no U+0000
  return s;
}
static const std::vector<std::pair<const char*, const char*>> progs = {
  { "codepoints", "simple_iteration" }, { "graphemes", "grapheme_iteration" }, { "d", "normalization_form_d" }, { "c", "normalization_form_c" }, { "kd", "normalization_form_kd" }, { "kc", "normalization_form_kc" } };
static void chain(rng& r, int max) {
  std::vector<ints> ts; int k = r.p(10) ? 0 : r.in(1, 4); while (k--) ts.push_back(text(r, r.p(10) ? max * 8 : max));
  ev("given").aa("texts", ts).done(); int stages = r.in(1, 4);
  while (stages--) { auto& p = progs[r.upto(progs.size())]; if (!have(p.second)) continue;
    std::vector<std::string> a; for (auto& t : ts) a.push_back(enc(t));
    tr::doing(std::string("running ") + p.second); result x = run(p.second, a); lines_t l = parse(x.out, p.first == std::string("graphemes"));
    ev e("run"); e.str("prog", p.first).aa("texts", ts).i("status", x.status); e.k("lines"); e.s += nest(l); e.done();
    if (x.status || l.size() != ts.size()) return;
    for (size_t i = 0; i < ts.size(); i++) { ts[i].clear(); for (auto& g : l[i]) for (int c : g) { if (c <= 0 || c > 0x10FFFF) return; ts[i].push_back(c); } } }
}
static ints decode(const std::string& s) {      // independent of the library; -1 for anything else
  ints r; size_t i = 0; while (i < s.size()) { unsigned char c = s[i]; int n = c < 0x80 ? 1 : c < 0xC2 ? 0 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : c < 0xF5 ? 4 : 0; if (!n || i + n > s.size()) { r.push_back(-1); i++; continue; }
    int v = n == 1 ? c : c & (0xFF >> (n + 1)); for (int k = 1; k < n; k++) { if (!cont(s[i + k])) { v = -1; break; } v = v << 6 | (s[i + k] & 63); } r.push_back(v); i += n; }
  return r;
}
static void alone(rng& r) {
  static const ints mixed = { 0xC4, 0xFB03, 'n' }, ola = { 'O', 'l', 'a', 0x301, '!' };
  for (auto& p : progs) { std::string n = std::string(p.second) + "_utf32"; if (!have(n)) continue; tr::doing("running " + n); result x = run(n, {}); ev e("fixed"); e.str("prog", p.first).a("s", mixed).i("status", x.status); e.k("lines"); e.s += nest(parse(x.out, false)); e.done(); }
  for (int g = 0; g < 2; g++) { std::string n = g ? "truncate_on_grapheme" : "truncate_on_codepoint"; if (!have(n)) continue; result x = run(n, {}); std::string o = x.out; while (!o.empty() && o.back() == '\n') o.pop_back(); ints d = decode(o); if (x.status) d.push_back(-1); ev("cut").b("graphemes", g).a("s", ola).i("limit", 4).a("out", d).done(); }
  if (have("smallest_code")) for (int k = 0; k < 60 && died < 3; k++) { ints s = text(r, 4); if (s.empty()) continue; result x = run("smallest_code", { enc(s) }); ev("first").a("s", s).i("status", x.status).done(); }
}
int main(int argc, char** argv) {
  args a(argc, argv); tr::start(a.s("-o").c_str(), a.n("-cpu", 120)); dir = a.s("-dir");
  struct rlimit rl; rl.rlim_cur = rl.rlim_max = 4ull << 30; setrlimit(RLIMIT_AS, &rl);
  long n = a.n("-n", 100); rng r(a.n("-seed", 1) * 1000 + a.n("-shard", 0)); int max = a.n("-max", 8);
  if (a.n("-shard", 0) == 0) alone(r);
  while (n-- && died < 3) chain(r, max);
  tr::finish(); return 0;
}
