#include <cstdlib>
#include <cstring>
#include <string>
#include <experimental/string_view>
#include <u5e/utf8_string.hpp>
#include <u5e/utf8_string_view.hpp>
#include <u5e/utf32ne_string.hpp>
#include <u5e/utf32ne_string_view.hpp>
using namespace u5e;
typedef std::basic_string<int> n32; typedef std::experimental::string_view v8; typedef std::experimental::basic_string_view<int> v32;
template <class T, class V> void f() { T a, b; V v; auto p = b.grapheme_begin(), q = b.grapheme_end(); T& x = a.append(p, q); auto r = v.grapheme_begin(), s = v.grapheme_end(); T& y = a.append(r, s).append(p, q); (void)x; (void)y; } int main() { f<utf8_string, utf8_string_view>(); f<utf32ne_string, utf32ne_string_view>(); return 0; }
