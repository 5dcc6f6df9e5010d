#include <cstdlib>
#include <cstring>
#include <string>
#include <experimental/string_view>
#include <u5e/utf8_string.hpp>
#include <u5e/utf8_string_view.hpp>
#include <u5e/utf32ne_string.hpp>
#include <u5e/utf32ne_string_view.hpp>
using namespace u5e;
typedef std::basic_string<int> n32; typedef std::experimental::string_view v8; typedef std::experimental::basic_string_view<int> v32;
int main() { utf8_string a; utf8_string_view v; utf8_string& x = a.append<v8>(v.codepoint_cbegin(), v.codepoint_cend()).append(a.codepoint_cbegin(), a.codepoint_cend()); utf32ne_string b; utf32ne_string_view w; utf32ne_string& y = b.append<v32>(w.codepoint_cbegin(), w.codepoint_cend()); (void)x; (void)y; return 0; }
