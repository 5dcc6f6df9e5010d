"""Programs made of several source files, each of which includes some of the public headers in
some order (some of them twice) and uses what each of them declares.  Whether a file compiles,
whether the files can be linked to one program, and what each use gives for a text are events;
spec/trace/UnitsTrace.tla says what they should be.

A use gets the text as codepoints s[0..n) and as octets b[0..m), and writes integers to o."""
import itertools, os, random

T32 = 'u5e::utf32ne_string t(std::basic_string<int>(s, n)); '
V32 = 'u5e::utf32ne_string_view t(std::experimental::basic_string_view<int>(s, n)); '
T8 = 'u5e::utf8_string t(std::string(b, m)); '
V8 = 'u5e::utf8_string_view t(std::experimental::basic_string_view<char>(b, m)); '
WALK = 'for (auto i = t.codepoint_cbegin(); i != t.codepoint_cend(); ++i) *o++ = (*i).value;'
WALK32 = 'for (auto i = t.codepoint_cbegin(); i != t.codepoint_cend(); ++i) *o++ = *i;'
ROW = 'for (int i = 0; i < n; i++) { if (s[i] >= 0xAC00 && s[i] <= 0xD7A3) continue; ' \
      'int const* r = u5e::props::%s::resolve(s[i]); if (!r) *o++ = s[i]; else while (*r) *o++ = *r++; }'


def grapheme(text, name, value):
    return text + 'u5e::%s g(t.codepoint_cbegin(), t.codepoint_cend()); ' % name + \
        'for (auto i = g.codepoint_begin(); i != g.codepoint_end(); ++i) *o++ = %s;' % value


def sizes(text, name):
    return text + 'u5e::%s i(t.codepoint_cbegin(), t.codepoint_cend()); ' % name + \
        'for (; i != t.codepoint_cend(); ++i) { int k = 0; auto g = *i; for (auto j = g.codepoint_begin(); j != g.codepoint_end(); ++j) k++; *o++ = k; }'


def form(f):
    return T32 + 'u5e::basic_grapheme<u5e::utf32ne_string> g(t.codepoint_cbegin(), t.codepoint_cend()); u5e::utf32ne_string r; ' \
        'int k = u5e::normalization_form_%s<u5e::utf32ne_string>(g, r); ' % f + \
        'for (auto i = r.codepoint_cbegin(); i != r.codepoint_cend(); ++i) *o++ = *i; *o++ = k;'


DEC = 'u5e::utf32ne_string r; for (int i = 0; i < n; i++) u5e::%s<u5e::utf32ne_string>(u5e::codepoint(s[i]), r); ' \
      'for (auto i = r.codepoint_cbegin(); i != r.codepoint_cend(); ++i) *o++ = *i;'
GCB = ['OTHER', 'CR', 'LF', 'CONTROL', 'EXTEND', 'PREPEND', 'SPACINGMARK', 'L', 'V', 'T', 'LV', 'LVT', 'REGIONAL_INDICATOR', 'E_BASE', 'E_MODIFIER', 'ZWJ',
       'GLUE_AFTER_ZWJ', 'E_BASE_GAZ']
# header: (kind of answer, further headers a user of it includes, declarations, use)
USES = {
    'basic_encodedstring.hpp': ('copy', [], '', 'u5e::basic_encodedstring<u5e::utf32ne, std::basic_string<int>> t(std::basic_string<int>(s, n)); ' + WALK32),
    'basic_grapheme.hpp': ('copy', [], 'struct bg_text { typedef const int* const_iterator; };',
                           'u5e::basic_grapheme<bg_text> g(s, s + n); for (const int* i = g.codepoint_begin(); i != g.codepoint_end(); ++i) *o++ = *i;'),
    'basic_grapheme_iterator.hpp': ('sizes', [], 'struct bgi_text { typedef const int* const_iterator; };',
                                    'u5e::basic_grapheme_iterator<bgi_text> i(s, s + n); for (; i != s + n; ++i) { auto g = *i; *o++ = g.codepoint_end() - g.codepoint_begin(); }'),
    'canonical_combining_order.hpp': ('order', [], '', 'int* e = o; for (int i = 0; i < n; i++) *e++ = s[i]; u5e::canonical_ordering(o, e); o = e;'),
    'canonical_composition.hpp': ('compose', ['utf32ne_string.hpp'], '',
                                  T32 + 'int k = 0; auto e = u5e::canonical_composition(t, &k); for (auto i = t.codepoint_begin(); i != e; ++i) *o++ = *i; *o++ = k;'),
    'canonical_decomposition.hpp': ('decompose', ['utf32ne_string.hpp'], '', DEC % 'canonical_decomposition'),
    'codepoint.hpp': ('copy', [], '', 'for (int i = 0; i < n; i++) { u5e::codepoint c = s[i]; if (c == s[i]) *o++ = c.value; }'),
    'codepoint_decomposition.hpp': ('user', ['utf32ne_string.hpp'], 'static int const* cd_map(int c) { static const int two[] = { 98, 99, 0 }; return c == 97 ? two : 0; }',
                                    'u5e::utf32ne_string r; for (int i = 0; i < n; i++) u5e::codepoint_decomposition(u5e::codepoint(s[i]), r, cd_map); '
                                    'for (auto i = r.codepoint_cbegin(); i != r.codepoint_cend(); ++i) *o++ = *i;'),
    'codepoint_traits.hpp': ('copy', [], '', 'for (int i = 0; i < n; i++) { u5e::codepoint_traits::int_type c = s[i]; *o++ = c; }'),
    'compatibility_and_canonical_decomposition.hpp': ('kdecompose', ['utf32ne_string.hpp'], '', DEC % 'compatibility_and_canonical_decomposition'),
    'encoding_assertion.hpp': ('nothing', [], '', 'u5e::encoding_assertion<std::string, char> a; (void)a;'),
    'filter.hpp': ('filter', [], 'static int filter_one(int c, int*& o) { *o++ = c; return 2; }', 'int k = u5e::filter(s, s + n, o, filter_one); *o++ = k;'),
    'iterator_assertion.hpp': ('nothing', [], '', 'u5e::iterator_assertion<const char*, char> a; (void)a;'),
    'normalization_form_c.hpp': ('c', [], '', form('c')), 'normalization_form_d.hpp': ('d', [], '', form('d')),
    'normalization_form_kc.hpp': ('kc', [], '', form('kc')), 'normalization_form_kd.hpp': ('kd', [], '', form('kd')),
    'utf32ne.hpp': ('copy', [], '', 'std::basic_string<int> r; u5e::utf32ne::append_from_utf32ne(s, s + n, r); for (auto i = r.begin(); i != r.end(); ++i) *o++ = *i;'),
    'utf32ne_string.hpp': ('copy', [], '', T32 + WALK32), 'utf32ne_string_view.hpp': ('copy', [], '', V32 + WALK32),
    'utf8_string.hpp': ('copy', [], '', T8 + WALK), 'utf8_string_view.hpp': ('copy', [], '', V8 + WALK),
    'utf32ne_string_grapheme.hpp': ('copy', [], '', grapheme(T32, 'utf32ne_string_grapheme', '*i')),
    'utf32ne_string_view_grapheme.hpp': ('copy', [], '', grapheme(V32, 'utf32ne_string_view_grapheme', '*i')),
    'utf8_string_grapheme.hpp': ('copy', [], '', grapheme(T8, 'utf8_string_grapheme', '(*i).value')),
    'utf8_string_view_grapheme.hpp': ('copy', [], '', grapheme(V8, 'utf8_string_view_grapheme', '(*i).value')),
    'utf32ne_string_grapheme_iterator.hpp': ('sizes', [], '', sizes(T32, 'utf32ne_string_grapheme_iterator')),
    'utf32ne_string_view_grapheme_iterator.hpp': ('sizes', [], '', sizes(V32, 'utf32ne_string_view_grapheme_iterator')),
    'utf8_string_grapheme_iterator.hpp': ('sizes', [], '', sizes(T8, 'utf8_string_grapheme_iterator')),
    'utf8_string_view_grapheme_iterator.hpp': ('sizes', [], '', sizes(V8, 'utf8_string_view_grapheme_iterator')),
    'utf8.hpp': ('encode', [], '', 'std::string r; u5e::utf8::append_from_utf32ne(s, s + n, r); for (auto i = r.begin(); i != r.end(); ++i) *o++ = (unsigned char)*i;'),
    'utf8_bounds.hpp': ('bounds', [], '', 'for (int k = m; k >= 0 && k > m - 4; k--) *o++ = u5e::utf8_bounds<const char*>::check(b, b + k);'),
    'utf8_iterator.hpp': ('copy', [], '', 'u5e::utf8_const_iterator<const char*> i(b), e(b + m); while (i != e) *o++ = (*i++).value;'),
    'utf8_util.hpp': ('starts', [], '', 'for (int i = 0; i < m; i++) *o++ = !u5e::utf8_util::is_codepoint_continuation(b[i]);'),
    'version.hpp': ('version', [], '', 'using namespace u5e::version; const int a[] = { compile_time::major, compile_time::minor, compile_time::patch }; '
                                       'const int c[] = { run_time::major, run_time::minor, run_time::patch }; for (int i = 0; i < 3; i++) *o++ = a[i] == c[i];'),
    'props/canonical_combining_class.hpp': ('ccc', [], '', 'for (int i = 0; i < n; i++) *o++ = u5e::props::canonical_combining_class::resolve(s[i]);'),
    'props/canonical_composition_mapping.hpp': ('pairs', [], '', 'for (int i = 0; i + 1 < n; i++) { int c = -1; if (!u5e::props::canonical_composition_mapping::resolve(s[i], s[i + 1], &c)) c = -1; *o++ = c; }'),
    'props/canonical_decomposition_mapping.hpp': ('rows', [], '', ROW % 'canonical_decomposition_mapping'),
    'props/compatibility_and_canonical_decomposition_mapping.hpp': ('krows', [], '', ROW % 'compatibility_and_canonical_decomposition_mapping'),
    'props/grapheme_cluster_break.hpp': ('gcb', [], '', 'typedef u5e::props::grapheme_cluster_break p; for (int i = 0; i < n; i++) switch (p::resolve(u5e::codepoint(s[i]))) { ' +
                                         ' '.join('case p::%s: *o++ = %d; break;' % (x, i) for i, x in enumerate(GCB)) + ' }'),
}
# names a user may give to things of his own, as the headers put nothing outside their namespace
MINE = 'string vector pair array begin end next distance advance sort find max min swap copy iterator filter codepoint utf8 utf32ne utf8_string props version ' \
       'data_t data elem ranges countof hangul octet size value'.split()


def headers(repo):
    inc = repo + '/include/u5e'
    return sorted(os.path.relpath(os.path.join(r, x), inc) for r, _, ns in os.walk(inc) for x in ns if x.endswith('.hpp'))


def source(order, k):
    """one source file: includes as given, then uses of everything included"""
    out = ['#include <u5e/%s>' % h for h in order]
    out += ['#include <string>', '#include <experimental/string_view>', 'namespace {']
    out += ['struct %s { int mine; };' % x for x in MINE]
    once = [h for i, h in enumerate(order) if h not in order[:i] and h in USES]
    uses = []
    for i, h in enumerate(once):
        kind, more, decl, body = USES[h]
        if not set(more) <= set(order):
            continue
        out.append(decl)
        out.append('int* use_%d(const int* s, int n, const char* b, int m, int* o) { (void)s; (void)n; (void)b; (void)m; %s return o; }' % (i, body))
        uses.append((i, h))
    out.append('}')
    # looked up from outside of the unnamed namespace, where a using directive would be seen as well
    out += ['static int my_%s() { %s x = { 1 }; return x.mine; }' % (x, x) for x in MINE]
    out.append('static int mine_%d() { return %s; }' % (k, ' + '.join('my_%s()' % x for x in MINE)))
    out.append('extern "C" int unit_%d_mine() { return mine_%d(); }' % (k, k))
    out.append('extern "C" int* unit_%d(int u, const int* s, int n, const char* b, int m, int* o) { switch (u) {' % k)
    out += ['case %d: return use_%d(s, n, b, m, o);' % (j, i) for j, (i, h) in enumerate(uses)]
    out.append('default: return o; } }')
    return '\n'.join(out) + '\n', [h for _, h in uses]


def driver(units):
    """units: [(number, uses)]; reads texts as 'n c1 .. cn m o1 .. om', prints 'unit use k v1 .. vk'"""
    r = ['#include <cstdio>', '#include <vector>', 'extern "C" {']
    for k, _ in units:
        r.append('int unit_%d_mine(); int* unit_%d(int, const int*, int, const char*, int, int*);' % (k, k))
    r.append('}\nstruct entry { int k, uses; int (*mine)(); int* (*f)(int, const int*, int, const char*, int, int*); } table[] = {')
    r += ['{ %d, %d, unit_%d_mine, unit_%d },' % (k, len(u), k, k) for k, u in units]
    r.append('''};
int main() {
  int n, m, t = 0;
  static int out[1 << 16];
  while (std::scanf("%d", &n) == 1) {
    std::vector<int> s(n + 1); std::vector<char> b;
    for (int i = 0; i < n; i++) if (std::scanf("%d", &s[i]) != 1) return 3;
    if (std::scanf("%d", &m) != 1) return 3;
    for (int i = 0; i < m; i++) { int x; if (std::scanf("%d", &x) != 1) return 3; b.push_back((char)x); }
    b.push_back(0);
    for (entry& e : table) {
      if (!e.mine()) return 4;
      for (int u = 0; u < e.uses; u++) {
        int* o = e.f(u, s.data(), n, b.data(), m, out);
        std::printf("%d %d %d %d", t, e.k, u, (int)(o - out));
        for (int* p = out; p != o; ++p) std::printf(" %d", *p);
        std::printf("\\n");
        std::fflush(stdout);
      }
    }
    t++;
  }
  return 0;
}''')
    return '\n'.join(r) + '\n'


def orders(repo, seed, extra):
    """the lists of headers the source files include"""
    r = random.Random(seed)
    hs = headers(repo)
    alone = [[h] + [x for x in USES[h][1]] if h in USES else [h] for h in hs]
    both = [hs, hs[::-1]]
    for _ in range(3 + extra // 20):
        p = hs[:]
        r.shuffle(p)
        both.append(p)
    some = []
    for _ in range(20 + extra):
        p = r.sample(hs, r.randint(2, 4))
        for h in p[:]:
            for x in USES.get(h, (0, []))[1]:
                p.insert(r.randint(0, len(p)), x)
        if r.random() < .5:
            p.insert(r.randint(0, len(p)), r.choice(p))
        some.append(p)
    return alone + both + some


POOL = [97, 65, 32, 10, 13, 0x7F, 0xE9, 0xC5, 0x212B, 0x301, 0x30A, 0x323, 0x327, 0x345, 0x1E69, 0x73, 0x1100, 0x1161, 0x11A8, 0xAC00, 0xAC01, 0xFB01, 0xFDFA,
        0x200D, 0x1F468, 0x1F1E6, 0x1F3FB, 0x20AC, 0x10FFFF, 0x600, 0x903, 0xF900, 0x2F800, 0x1D15E, 0x1D165, 0x3042, 0x3099]


def texts(seed, n):
    r = random.Random(seed + 77)
    out = [[], [97]]
    while len(out) < n:
        out.append([r.choice(POOL) for _ in range(r.randint(1, 9))])
    return out
