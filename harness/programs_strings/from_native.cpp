#include <cstdlib>
#include <cstring>
#include <string>
#include <experimental/string_view>
#include <u5e/utf8_string.hpp>
#include <u5e/utf8_string_view.hpp>
#include <u5e/utf32ne_string.hpp>
#include <u5e/utf32ne_string_view.hpp>
using namespace u5e;
typedef std::basic_string<int> n32; typedef std::experimental::string_view v8; typedef std::experimental::basic_string_view<int> v32;
int main() { utf8_string a(std::string("x")); utf8_string_view b(v8("x")); utf32ne_string c(n32(1, 65)); utf32ne_string d = n32(1, 65); int m[1] = { 65 }; utf32ne_string_view e(v32(m, 1)); utf8_string f{std::string("y")}; (void)a; (void)b; (void)c; (void)d; (void)e; (void)f; return 0; }
