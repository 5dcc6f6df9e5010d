// The four ways to hold a text (UTF-8/UTF-32, owning/view).  Views lie inside
// larger memory with something else before and after.
#ifndef VERIF_TEXTS
#define VERIF_TEXTS
#include "common.hpp"
#include <experimental/string_view>
#include <u5e/utf8_string.hpp>
#include <u5e/utf8_string_view.hpp>
#include <u5e/utf32ne_string.hpp>
#include <u5e/utf32ne_string_view.hpp>
typedef std::experimental::string_view sv8;
typedef std::experimental::basic_string_view<int> sv32;
typedef std::basic_string<int> str32;

template <class I, class B> static auto raw_(const I& i, const B& base, int) -> decltype((long)(i.raw_iterator_ - base)) { return i.raw_iterator_ - base; }
template <class I, class B> static auto raw_(const I& i, const B& base, long) -> decltype((long)(i - base)) { return i - base; }
template <class I, class B> static long raw_(const I&, const B&, ...) { return -1; }
template <class I, class B> static long raw(const I& i, const B& base) { return raw_(i, base, 0); }

// the natives: the usual ones, or ones whose units do not lie next to each other
#ifdef VERIF_NATIVE
#include "loose.hpp"
typedef loose<unit8> own8; typedef loose<unit32> own32; typedef loose_view<unit8> part8; typedef loose_view<unit32> part32;
typedef loose<unit8> memory8; typedef loose<unit32> memory32;
#else
typedef std::string own8; typedef str32 own32; typedef sv8 part8; typedef sv32 part32; typedef std::string memory8; typedef std::vector<int> memory32;
#endif
static inline sv8 part_of(const std::string& m, size_t at, size_t n) { return sv8(m.data() + at, n); }
static inline sv8 part_of(const std::vector<char>& m, size_t at, size_t n) { return sv8(m.data() + at, n); }
static inline sv32 part_of(const std::vector<int>& m, size_t at, size_t n) { return sv32(m.data() + at, n); }
#ifdef VERIF_NATIVE
template <class T> static loose_view<T> part_of(const loose<T>& m, size_t at, size_t n) { return loose_view<T>(m, at, n); }
#endif
typedef u5e::basic_encodedstring<u5e::utf8, own8> owned8; typedef u5e::basic_encodedstring<u5e::utf32ne, own32> owned32;
typedef u5e::basic_encodedstring<u5e::utf8, part8> parted8; typedef u5e::basic_encodedstring<u5e::utf32ne, part32> parted32;

static std::string show(const ints& s) { std::string r; char b[16]; for (int c : s) { snprintf(b, sizeof b, "U+%04X ", c); r += b; } return r; }

struct S8 { static const char* name() { return "S8"; } static const bool utf8 = true; typedef owned8 type; typedef own8 native;
  type t; S8(const ints& s, rng&) : t(native(enc(s))) {} };
struct S32 { static const char* name() { return "S32"; } static const bool utf8 = false; typedef owned32 type; typedef own32 native;
  type t; S32(const ints& s, rng&) : t(native(str32(s.begin(), s.end()))) {} };
// what follows a UTF-8 view may look like a continuation of its last codepoint
static bool cont_after = false;
struct V8 { static const char* name() { return "V8"; } static const bool utf8 = true; typedef parted8 type; typedef part8 native;
  memory8 mem; size_t at, n; type t;
  V8(const ints& s, rng& r) { static const char* b[] = { "", "z", "\xE1\x84\x80", "\xF0\x9F\x87\xA6" }; static const char* a[] = { "", "!", "\xCC\x81", "\xE2\x80\x8D", "\xF0\x9F\x87\xA6", "\xE1\x85\xA1", "\x80", "\xA9\x80\x80\x80\x80\x80" };
    std::string x = b[r.upto(4)], y = a[r.upto(cont_after ? 8 : 6)], e = enc(s); mem = x + e + y; at = x.size(); n = e.size(); t.native_string = part_of(mem, at, n); }
  V8(const V8&) = delete; };
struct V32 { static const char* name() { return "V32"; } static const bool utf8 = false; typedef parted32 type; typedef part32 native;
  memory32 mem; type t;
  V32(const ints& s, rng& r) { static const ints b[] = { {}, { 'z' }, { 0x1100 }, { 0x1F1E6 } }, a[] = { {}, { '!' }, { 0x301 }, { 0x200D }, { 0x1F1E6 }, { 0x1161 } };
    ints m = b[r.upto(4)]; size_t at = m.size(); m.insert(m.end(), s.begin(), s.end()); const ints& y = a[r.upto(6)]; m.insert(m.end(), y.begin(), y.end()); mem.assign(m.begin(), m.end()); mem.shrink_to_fit();
    t.native_string = part_of(mem, at, s.size()); }
  V32(const V32&) = delete; };
#endif
