#include <cstdlib>
#include <cstring>
#include <string>
#include <experimental/string_view>
#include <u5e/utf8_string.hpp>
#include <u5e/utf8_string_view.hpp>
#include <u5e/utf32ne_string.hpp>
#include <u5e/utf32ne_string_view.hpp>
using namespace u5e;
typedef std::basic_string<int> n32; typedef std::experimental::string_view v8; typedef std::experimental::basic_string_view<int> v32;
int main() { utf8_string a; utf8_string_view b; utf32ne_string c; utf32ne_string_view d; return (int)a.native_string.size() + (int)b.native_string.size() + (int)c.native_string.size() + (int)d.native_string.size(); }
