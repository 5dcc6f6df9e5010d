"""Small programs over the public interface, each with the types it combines.
Whether the compiler accepts it is one event; spec/trace/TypesTrace.tla says whether it should."""

HEAD = '''#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <deque>
#include <experimental/string_view>
#include <u5e/utf8_iterator.hpp>
#include <u5e/utf8_bounds.hpp>
#include <u5e/utf8_string.hpp>
#include <u5e/utf8_string_view.hpp>
#include <u5e/utf32ne_string.hpp>
#include <u5e/utf32ne_string_view.hpp>
#include <u5e/basic_grapheme_iterator.hpp>
#include <u5e/filter.hpp>
#include <u5e/normalization_form_d.hpp>
#include <u5e/normalization_form_c.hpp>
#include <u5e/normalization_form_kd.hpp>
#include <u5e/normalization_form_kc.hpp>
using namespace u5e;
typedef std::experimental::string_view v8; typedef std::experimental::basic_string_view<int> v32;
enum tiny : char { tiny_value }; struct octet { char c; }; struct alignas(2) pair_of { char c[2]; };
'''
# unit name: size, alignment, integral
UNITS = {'char': (1, 1, True), 'signed char': (1, 1, True), 'unsigned char': (1, 1, True), 'short': (2, 2, True), 'unsigned short': (2, 2, True),
         'char16_t': (2, 2, True), 'char32_t': (4, 4, True), 'wchar_t': (4, 4, True), 'int': (4, 4, True), 'long': (8, 8, True),
         'float': (4, 4, False), 'double': (8, 8, False), 'tiny': (1, 1, False), 'octet': (1, 1, False), 'pair_of': (2, 2, False), 'char*': (8, 8, False)}
TEXTS = {'utf8_string': ('utf8', True, 'std::string'), 'utf8_string_view': ('utf8', False, 'v8'),
         'utf32ne_string': ('utf32ne', True, 'std::basic_string<int>'), 'utf32ne_string_view': ('utf32ne', False, 'v32')}


def table():
    out = []

    def prog(body, what, **kw):
        out.append((dict(op='program', what=what, **kw), HEAD + 'int main() { ' + body + ' return 0; }\n'))
    for u, (s, al, i) in UNITS.items():
        kw = dict(unit=u, size=s, align=al, integral=i)
        prog('%s const* p = nullptr; utf8_const_iterator<%s const*> x(p); (void)x;' % (u, u), 'wrap', it='const_pointer', **kw)
        prog('%s* p = nullptr; utf8_iterator<%s*> x(p); (void)x;' % (u, u), 'wrap', it='pointer', **kw)
        prog('std::vector<%s> v; utf8_const_iterator<std::vector<%s>::const_iterator> x(v.cbegin()); (void)x;' % (u, u), 'wrap', it='vector', **kw)
        prog('std::deque<%s> v; utf8_iterator<std::deque<%s>::iterator> x(v.begin()); (void)x;' % (u, u), 'wrap', it='deque', **kw)
        prog('std::vector<%s> v; basic_encodedstring<utf8, std::vector<%s>> s(v); auto x = s.codepoint_cbegin(); (void)x;' % (u, u), 'wrap', it='text', **kw)
        prog('%s* p = nullptr; utf8_bounds<%s*> b; (void)b; (void)p;' % (u, u), 'wrap', it='bounds', **kw)
    for a, (ea, oa, na) in TEXTS.items():
        for b, (eb, ob, nb) in TEXTS.items():
            kw = dict(a=a, aenc=ea, aown=oa, b=b, benc=eb, bown=ob)
            prog('%s a; %s b; a.append<%s>(b.codepoint_cbegin(), b.codepoint_cend());' % (a, b, nb), 'append', **kw)
            prog('%s a; %s b; auto p = b.grapheme_begin(), q = b.grapheme_end(); a.append(p, q);' % (a, b), 'append', **kw)
            prog('%s a; %s b; a.append_from_utf32ne<%s>(b.codepoint_cbegin(), b.codepoint_cend());' % (a, b, nb), 'convert', **kw)
            if oa:
                for f in 'd', 'c', 'kd', 'kc':
                    if f in ('c', 'kd') or ea != eb:
                        prog('%s a; %s b; u5e::filter(b.grapheme_begin(), b.grapheme_end(), a, normalization_form_%s<%s, %s>);' % (a, b, f, b, a), 'normalize', **kw)
            if ea != eb or a == b:
                prog('%s a; %s b; a.append(b.codepoint_cbegin(), b.codepoint_cend());' % (a, b), 'append', **kw)
                if ea != eb:
                    prog('%s a; %s b; a.append(b.codepoint_begin(), b.codepoint_end());' % (a, b), 'append', **kw)
                    prog('%s a; %s b; a.append<%s>(b.codepoint_begin(), b.codepoint_end());' % (a, b, nb), 'append', **kw)
                prog('%s a; %s b; bool x = a.codepoint_cbegin() == b.codepoint_cbegin(); (void)x;' % (a, b), 'mix', **kw)
                prog('%s a; %s b; bool x = a.codepoint_cend() != b.codepoint_cend(); (void)x;' % (a, b), 'mix', **kw)
                prog('%s a; %s b; a = b;' % (a, b), 'mix', **kw)
                prog('%s b; %s a(b); (void)a;' % (b, a), 'mix', **kw)
                prog('%s b; %s a(b.native_string); (void)a;' % (b, a), 'mix', **kw)
                prog('%s a; %s b; basic_grapheme_iterator<%s> i(b.codepoint_cbegin(), b.codepoint_cend()); (void)i;' % (a, b, a), 'mix', **kw)
                prog('%s a; %s b; bool x = a.grapheme_begin() == b.grapheme_begin(); (void)x;' % (a, b), 'mix', **kw)
                prog('%s a; %s b; bool x = a.grapheme_begin() == b.codepoint_cbegin(); (void)x;' % (a, b), 'mix', **kw)
                prog('%s a; %s b; utf32ne_string o; u5e::filter(a.grapheme_begin(), a.grapheme_end(), o, normalization_form_d<%s, utf32ne_string>);' % (a, b, b), 'mix', **kw)
                prog('%s a; %s b; u5e::filter(a.codepoint_cbegin(), b.codepoint_cend(), a, [](codepoint, %s&) { return 0; });' % (a, b, a), 'mix', **kw)
            if ob:
                for bt in 'c', '':
                    prog('%s a; %s b; *a.codepoint_begin() = *b.codepoint_%sbegin();' % (a, b, bt), 'write', const=False, aenc=ea, aown=oa, a=a, b=b)
                    prog('%s a; %s b; std::copy(b.codepoint_%sbegin(), b.codepoint_%send(), a.codepoint_begin());' % (a, b, bt, bt), 'write', const=False, aenc=ea, aown=oa, a=a, b=b)
        kw = dict(a=a, aenc=ea, aown=oa, b='array', benc='none', bown=True)
        for t in 'char', 'int', 'codepoint', 'short':
            prog('%s a; std::vector<%s> v; a.append(v.cbegin(), v.cend());' % (a, t), 'append', **kw)
            prog('%s a; %s v[2]; a.append(v, v + 2);' % (a, t), 'append', **kw)
        kw = dict(a=a, aenc=ea, aown=oa)
        prog('%s a; *a.codepoint_cbegin() = codepoint(65);' % a, 'write', const=True, **kw)
        prog('%s a; *a.codepoint_begin() = codepoint(65);' % a, 'write', const=False, **kw)
        prog('%s a; auto g = *a.grapheme_begin(); *g.codepoint_begin() = codepoint(65);' % a, 'write', const=True, **kw)
        prog('%s a; codepoint c = *a.codepoint_cbegin(); int i = *a.codepoint_begin(); (void)c; (void)i;' % a, 'read', **kw)
        prog('%s a; %s b(a), c; c = b; %s n; %s d(n); (void)d;' % (a, a, na, a), 'read', **kw)
        prog('%s a; for (auto i = a.codepoint_cbegin(); i != a.codepoint_cend(); ++i) { codepoint c = *i; (void)c; } for (auto i = a.grapheme_begin(); i != a.grapheme_end(); i++) { auto g = *i; (void)g; }' % a, 'read', **kw)
    return out
