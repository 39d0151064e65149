#include "vp.hpp"
#include <string_view>
#include <string>
#include <vector>
#include <type_traits>
#include <itlib/strutil.hpp>
#include <itlib/span.hpp>
extern "C" void vp_affixes(const char* label, const char* affix, size_t m, size_t lo, size_t hi);
extern "C" int memcmp(const void*, const void*, size_t) noexcept;
#define UC(c, msg) vp_check((c), "content", msg)
#ifndef M
#define M 1
#endif
#define STR(s, n, lb) size_t n = vp_size(#n); char* buf_##s = (char*)vp_buffer(n, #s); vp_label(buf_##s, n, lb); std::string_view s(buf_##s, n);
// an affix of M chars, of which str has k at its start (end), not more
#define AFFIX(a) char* buf_##a = (char*)vp_buffer(M, #a); vp_label(buf_##a, M, "affix"); std::string_view a(buf_##a, M);
static_assert(noexcept(itlib::starts_with("", "")) && noexcept(itlib::ends_with("", "")) && noexcept(itlib::remove_prefix_all("", "")) && noexcept(itlib::remove_suffix_all("", "")) && noexcept(itlib::make_string_view("", "")), "string functions don't throw");
constexpr char lit[] = "abc";
static_assert(itlib::make_string_view(lit + 1, lit + 3).size() == 2 && itlib::make_string_view(lit + 1, lit + 3).data() == lit + 1 && itlib::make_string_view(lit, lit).empty(), "make_string_view is constexpr");
// an iterator which may only be dereferenced inside its range
struct Cit { using value_type = char; using difference_type = ptrdiff_t; using pointer = const char*; using reference = const char&; using iterator_category = std::random_access_iterator_tag; const char *p, *end;
    const char& operator*() const { vp_check(p != end, "memory", "an iterator at the end isn't dereferenced"); return *p; } friend ptrdiff_t operator-(Cit a, Cit b) { return a.p - b.p; } friend bool operator==(Cit a, Cit b) { return a.p == b.p; } friend bool operator!=(Cit a, Cit b) { return a.p != b.p; } };
extern "C" {
void d_starts() { STR(s, n, "str") STR(p, m, "pre") bool r = itlib::starts_with(s, p); bool want = n >= m && (m == 0 || memcmp(buf_s, buf_p, m) == 0); UC(r == want, "starts_with tells whether the string starts with the prefix"); }
void d_ends() { STR(s, n, "str") STR(p, m, "suf") bool r = itlib::ends_with(s, p); bool want = n >= m && (m == 0 || memcmp(buf_s + (n - m), buf_p, m) == 0); UC(r == want, "ends_with tells whether the string ends with the suffix"); }
void d_starts_self() { STR(s, n, "str") size_t m = vp_size("m"); vp_assume(m <= n); UC(itlib::starts_with(s, s.substr(0, m)), "a string starts with its own prefixes"); UC(itlib::ends_with(s, s.substr(n - m)), "a string ends with its own suffixes"); }
void d_empty_affix() { STR(s, n, "str") std::string_view e; UC(itlib::starts_with(s, e) && itlib::ends_with(s, e), "every string starts and ends with the empty one"); auto a = itlib::remove_prefix_all(s, e); auto b = itlib::remove_suffix_all(s, e); UC(a.data() == s.data() && a.size() == n && b.data() == s.data() && b.size() == n, "removing empty affixes removes nothing"); }
void d_prefix_all() { STR(s, n, "str") AFFIX(p) size_t k = vp_size("k"); vp_assume(k * M <= n); vp_affixes("str", "affix", M, 0, k * M); auto r = itlib::remove_prefix_all(s, p); UC(r.data() == s.data() + k * M && r.size() == n - k * M, "remove_prefix_all removes all occurrences of the prefix at the start, and nothing else"); }
void d_suffix_all() { STR(s, n, "str") AFFIX(p) size_t k = vp_size("k"); vp_assume(k * M <= n); vp_affixes("str", "affix", M, n - k * M, n); auto r = itlib::remove_suffix_all(s, p); UC(r.data() == s.data() && r.size() == n - k * M, "remove_suffix_all removes all occurrences of the suffix at the end, and nothing else"); }
void d_prefix_none() { STR(s, n, "str") STR(p, m, "pre") vp_assume(m > 0); bool st = itlib::starts_with(s, p); vp_assume(!st); auto r = itlib::remove_prefix_all(s, p); UC(r.data() == s.data() && r.size() == n, "remove_prefix_all leaves strings without the prefix"); }
void d_suffix_none() { STR(s, n, "str") STR(p, m, "suf") vp_assume(m > 0); bool st = itlib::ends_with(s, p); vp_assume(!st); auto r = itlib::remove_suffix_all(s, p); UC(r.data() == s.data() && r.size() == n, "remove_suffix_all leaves strings without the suffix"); }
void d_view() { STR(s, n, "str") size_t i = vp_size("i"), j = vp_size("j"); vp_assume(i <= j && j <= n); const char* b = buf_s; auto v = itlib::make_string_view(b + i, b + j); UC(v.data() == b + i && v.size() == j - i, "make_string_view views the range given"); char* c = buf_s; auto w = itlib::make_string_view(c + i, c + j); UC(w.size() == j - i && (i == j || w.data() == c + i), "make_string_view views the range given"); }
void d_view_it() { STR(s, n, "str") size_t i = vp_size("i"), j = vp_size("j"); vp_assume(i <= j && j <= n); itlib::span<char> sp(buf_s, n); auto v = itlib::make_string_view(sp.begin() + i, sp.begin() + j); UC(v.size() == j - i && (i == j || v.data() == buf_s + i), "make_string_view views the range given"); std::string_view x = s; auto w = itlib::make_string_view(x.begin() + i, x.begin() + j); UC(w.size() == j - i && (i == j || w.data() == buf_s + i), "make_string_view views the range given"); }
void d_view_once() { STR(s, n, "str") size_t i = vp_size("i"), j = vp_size("j"); vp_assume(i <= j && j <= n); Cit b{buf_s + i, buf_s + j}, e{buf_s + j, buf_s + j}; auto w = itlib::make_string_view(b, e); UC(w.size() == j - i && (i == j || w.data() == buf_s + i), "make_string_view views the range given"); }
void d_view_vec() { size_t n = vp_size("n"); std::vector<char> v(n); size_t i = vp_size("i"), j = vp_size("j"); vp_assume(i <= j && j <= n); auto w = itlib::make_string_view(v.begin() + i, v.begin() + j); UC(w.size() == j - i && (i == j || w.data() == v.data() + i), "make_string_view views the range given"); auto u = itlib::make_string_view(v.cend(), v.cend()); UC(u.empty(), "make_string_view of an empty range is empty"); }
}
