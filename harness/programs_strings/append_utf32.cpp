#include <cstdlib>
#include <cstring>
#include <string>
#include <experimental/string_view>
#include <u5e/utf8_string.hpp>
#include <u5e/utf8_string_view.hpp>
#include <u5e/utf32ne_string.hpp>
#include <u5e/utf32ne_string_view.hpp>
using namespace u5e;
typedef std::basic_string<int> n32; typedef std::experimental::string_view v8; typedef std::experimental::basic_string_view<int> v32;
template <class T> void f() { T a; utf32ne_string s; utf32ne_string_view v; T& x = a.template append_from_utf32ne<n32>(s.codepoint_cbegin(), s.codepoint_cend()).template append_from_utf32ne<v32>(v.codepoint_cbegin(), v.codepoint_cend()); (void)x; } int main() { f<utf8_string>(); f<utf32ne_string>(); return 0; }
