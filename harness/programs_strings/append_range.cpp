#include <cstdlib>
#include <cstring>
#include <string>
#include <experimental/string_view>
#include <u5e/utf8_string.hpp>
#include <u5e/utf8_string_view.hpp>
#include <u5e/utf32ne_string.hpp>
#include <u5e/utf32ne_string_view.hpp>
using namespace u5e;
typedef std::basic_string<int> n32; typedef std::experimental::string_view v8; typedef std::experimental::basic_string_view<int> v32;
template <class T> void f() { T a, b; T& x = a.append(b.codepoint_cbegin(), b.codepoint_cend()).append(a.codepoint_cbegin(), a.codepoint_cend()); (void)x; } int main() { f<utf8_string>(); f<utf32ne_string>(); return 0; }
