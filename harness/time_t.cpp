#include "vp.hpp"
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <ctime>
#include <chrono>
#include <string>
#include <type_traits>
// Contracts for the functions of the C library. struct tm counts as 14 ints (and one of padding before the zone pointer).
#define TM(x) reinterpret_cast<const int*>(&(x))
#define TMN (sizeof(std::tm) / sizeof(int))
extern "C" {
tm* gmtime_r(const time_t* t, tm* r) noexcept { vp_ghost_inc("calls"); vp_ghost_set("gm", *t); vp_label(reinterpret_cast<int*>(r), TMN, "gmtm"); return r; }
tm* localtime_r(const time_t* t, tm* r) noexcept { vp_ghost_inc("calls"); vp_ghost_set("loc", *t); vp_label(reinterpret_cast<int*>(r), TMN, "loctm"); return r; }
tm* gmtime(const time_t*) noexcept { vp_fail("content", "gmtime isn't thread safe"); vp_stop(); return nullptr; }
tm* localtime(const time_t*) noexcept { vp_fail("content", "localtime isn't thread safe"); vp_stop(); return nullptr; }
time_t timegm(tm* t) noexcept { vp_ghost_inc("calls"); vp_seq(TM(*t), TMN, "arg", 0, "timegm gets the time given"); vp_label(reinterpret_cast<int*>(t), TMN, "norm"); time_t r = vp_long("timegm"); vp_ghost_set("res", r); return r; }
time_t mktime(tm* t) noexcept { vp_ghost_inc("calls2"); vp_seq(TM(*t), TMN, "arg", 0, "mktime gets the time given"); vp_label(reinterpret_cast<int*>(t), TMN, "norm"); time_t r = vp_long("mktime"); vp_ghost_set("res2", r); return r; }
// the text of the format %c has any length; all else in a format stands for itself
size_t strftime(char* s, size_t max, const char* fmt, const tm* t) noexcept {
    vp_seq(TM(*t), TMN, "arg", 0, "strftime gets the time given");
    if (max > 20000) { vp_fail("content", "strftime ends: a text which fits is not asked for again"); vp_stop(); }
    size_t L = 0, n = 0, at = 0; char out[8]; bool conv = false;
    for (size_t i = 0; fmt[i]; ++i) {
        if (fmt[i] == '%' && fmt[i + 1] == 'c' && !conv) { conv = true; at = n; L = (size_t)vp_ghost_get("L"); ++i; }
        else { if (fmt[i] == '%' || n == 8) { vp_fail("content", "strftime gets the format given"); vp_stop(); } out[n++] = fmt[i]; }
    }
    if (conv != (vp_ghost_get("conv") == 1)) { vp_fail("content", "strftime gets the format given"); vp_stop(); }
    if (L + n + 1 > max) return 0;
    for (size_t i = 0; i < at; ++i) s[i] = out[i];
    if (L) vp_label(s + at, L, "text");
    for (size_t i = at; i < n; ++i) s[L + i] = out[i];
    s[L + n] = 0;
    return L + n;
}
time_t time(time_t* o) noexcept { vp_ghost_inc("calls"); time_t r = vp_long("now"); vp_ghost_set("res", r); if (o) *o = r; return r; }
}
#include <itlib/time_t.hpp>
using T = itlib::time_t; using TS = T::timestamp_type;
#define TC(c, msg) vp_check((c), "content", msg)
#define RANGE(v) vp_assume((v) < (1L << 40) && (v) > -(1L << 40));
static_assert(std::is_same<decltype(std::declval<T>() - std::declval<T>()), std::chrono::duration<TS>>::value, "the difference of times is in seconds");
static_assert(!std::is_convertible<std::time_t, T>::value && !std::is_convertible<T, std::time_t>::value && std::is_constructible<T, std::time_t>::value && std::is_constructible<std::time_t, T>::value, "conversions from and to std::time_t are explicit");
static_assert(sizeof(TS) == 8 && std::is_signed<TS>::value && std::is_trivially_copyable<T>::value, "times are 64 bit values");
extern "C" {
void d_make() { long v = vp_long("v"); T t((std::time_t)v); TC(t.seconds_since_epoch() == v && std::time_t(t) == v && T::from_seconds(v).seconds_since_epoch() == v, "a time is the number of seconds it was made from"); T z; TC(z.seconds_since_epoch() == 0, "the default time is the epoch"); T c(t); z = t; TC(c.seconds_since_epoch() == v && z.seconds_since_epoch() == v, "copies are equal"); }
void d_now() { vp_ghost_set("calls", 0); T t = T::now(); TC(vp_ghost_get("calls") == 1 && t.seconds_since_epoch() == vp_ghost_get("res"), "now() is the current time"); }
void d_cmp() { long a = vp_long("a"), b = vp_long("b"); T x = T::from_seconds(a), y = T::from_seconds(b); TC((x == y) == (a == b), "=="); TC((x != y) == (a != b), "!="); TC((x < y) == (a < b), "<"); TC((x <= y) == (a <= b), "<="); TC((x > y) == (a > b), ">"); TC((x >= y) == (a >= b), ">="); }
void d_sec() { long a = vp_long("a"), d = vp_long("d"); RANGE(a) RANGE(d) T x = T::from_seconds(a); std::chrono::seconds s(d); TC((x + s).seconds_since_epoch() == a + d, "time + duration"); TC((x - s).seconds_since_epoch() == a - d, "time - duration"); TC(x.seconds_since_epoch() == a, "arithmetic doesn't change its operands"); T& r = (x += s); TC(&r == &x && x.seconds_since_epoch() == a + d, "time += duration"); T& q = (x -= s); TC(&q == &x && x.seconds_since_epoch() == a, "time -= duration"); x -= s; TC(x.seconds_since_epoch() == a - d, "time -= duration"); }
void d_min() { long a = vp_long("a"), d = vp_long("d"); RANGE(a) RANGE(d) T x = T::from_seconds(a); std::chrono::minutes s(d); TC((x + s).seconds_since_epoch() == a + 60 * d, "time + duration of another unit"); TC((x - s).seconds_since_epoch() == a - 60 * d, "time - duration of another unit"); x += s; TC(x.seconds_since_epoch() == a + 60 * d, "time += duration of another unit"); x -= s; x -= s; TC(x.seconds_since_epoch() == a - 60 * d, "time -= duration of another unit"); }
void d_ms() { long a = vp_long("a"), d = vp_long("d"); RANGE(a) RANGE(d) T x = T::from_seconds(a); std::chrono::milliseconds s(d); long q = d / 1000; TC((x + s).seconds_since_epoch() == a + q, "durations are truncated to seconds"); TC((x - s).seconds_since_epoch() == a - q, "durations are truncated to seconds"); x += s; TC(x.seconds_since_epoch() == a + q, "durations are truncated to seconds"); x -= s; x -= s; TC(x.seconds_since_epoch() == a - q, "durations are truncated to seconds"); }
void d_diff() { long a = vp_long("a"), b = vp_long("b"); RANGE(a) RANGE(b) TC((T::from_seconds(a) - T::from_seconds(b)).count() == a - b, "time - time"); }
void d_gm() { long v = vp_long("v"); const T t = T::from_seconds(v); vp_ghost_set("calls", 0); std::tm r = t.gmtime(); TC(vp_ghost_get("calls") == 1 && vp_ghost_get("gm") == v, "gmtime() converts the time"); vp_seq(TM(r), TMN, "gmtm", 0, "gmtime() gives the conversion"); }
void d_local() { long v = vp_long("v"); const T t = T::from_seconds(v); vp_ghost_set("calls", 0); std::tm r = t.localtime(); TC(vp_ghost_get("calls") == 1 && vp_ghost_get("loc") == v, "localtime() converts the time"); vp_seq(TM(r), TMN, "loctm", 0, "localtime() gives the conversion"); }
void d_from_gm() { std::tm t; vp_label(reinterpret_cast<int*>(&t), TMN, "arg"); vp_ghost_set("calls", 0); vp_ghost_set("calls2", 0); T x = T::from_gmtime(t); TC(vp_ghost_get("calls") == 1 && vp_ghost_get("calls2") == 0 && x.seconds_since_epoch() == vp_ghost_get("res"), "from_gmtime converts from UTC"); vp_seq(TM(t), TMN, "norm", 0, "from_gmtime normalizes its argument"); }
void d_from_local() { std::tm t; vp_label(reinterpret_cast<int*>(&t), TMN, "arg"); vp_ghost_set("calls", 0); vp_ghost_set("calls2", 0); T x = T::from_localtime(t); TC(vp_ghost_get("calls2") == 1 && vp_ghost_get("calls") == 0 && x.seconds_since_epoch() == vp_ghost_get("res2"), "from_localtime converts from local time"); vp_seq(TM(t), TMN, "norm", 0, "from_localtime normalizes its argument"); }
void d_strftime() { std::tm t; vp_label(reinterpret_cast<int*>(&t), TMN, "arg"); size_t L = vp_size("L"); vp_assume(L < 1000); vp_ghost_set("L", (long)L); vp_ghost_set("conv", 1); const std::string s = itlib::strftime("%c", t); TC(s.size() == L, "strftime gives the text, all of it"); vp_seq(s.data(), L, "text", 0, "strftime gives the text"); TC(s.c_str()[L] == 0, "strftime gives the text"); }
void d_strftime_fixed() { std::tm t; vp_label(reinterpret_cast<int*>(&t), TMN, "arg"); size_t L = vp_size("L"); vp_assume(L < 1000); vp_ghost_set("L", (long)L); vp_ghost_set("conv", 1); const std::string s = itlib::strftime("a%cbc", t); TC(s.size() == L + 3, "strftime gives the text, all of it"); vp_seq(s.data() + 1, L, "text", 0, "strftime gives the text"); TC(s.data()[0] == 'a' && s.data()[L + 1] == 'b' && s.data()[L + 2] == 'c', "strftime gives the text"); }
void d_strftime_empty() { std::tm t; vp_label(reinterpret_cast<int*>(&t), TMN, "arg"); vp_ghost_set("conv", 0); const std::string s = itlib::strftime("", t); TC(s.size() == 0, "strftime gives an empty text"); }
}
