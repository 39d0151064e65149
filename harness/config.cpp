// Error handling and bounds checks as configured: -DEH=0..3 (none, throw, assert, assert and throw), -DNOBC (no bounds checks), NDEBUG.
#ifndef EH
#define EH 1
#endif
#define ITLIB_SMALL_VECTOR_ERROR_HANDLING EH
#define ITLIB_STATIC_VECTOR_ERROR_HANDLING EH
#if EH == 2
#define ITLIB_FLAT_MAP_NO_THROW
#endif
#if defined NOBC
#define ITLIB_SMALL_VECTOR_NO_DEBUG_BOUNDS_CHECK
#define ITLIB_STATIC_VECTOR_NO_DEBUG_BOUNDS_CHECK
#define ITLIB_SPAN_NO_DEBUG_BOUNDS_CHECK
#define ITLIB_STRIDE_SPAN_NO_DEBUG_BOUNDS_CHECK
#define ITLIB_POLY_SPAN_NO_DEBUG_BOUNDS_CHECK
#define ITLIB_MEMORY_VIEW_NO_DEBUG_BOUNDS_CHECK
#endif
#include "vp.hpp"
#include <itlib/small_vector.hpp>
#include <itlib/static_vector.hpp>
#include <itlib/flat_map.hpp>
#include <itlib/span.hpp>
#include <itlib/stride_span.hpp>
#include <itlib/poly_span.hpp>
#include <itlib/memory_view.hpp>
#include <stdexcept>
#define CAP 1000
using E = VpE; using SV = itlib::small_vector<E, 4>; using TV = itlib::static_vector<E, CAP>; using FM = itlib::flat_map<int, int>;
#if defined NDEBUG
enum { debug = 0 };
#else
enum { debug = 1 };
#endif
enum { throws = EH == 1 || (EH == 3 && !debug), asserts = debug && EH >= 2, mthrows = EH != 2, masserts = debug && EH == 2 };
#if defined NOBC
enum { bc = 0 };
#else
enum { bc = debug };
#endif
// an operation outside of the range or capacity: exactly what is configured happens
#define OUT_(op, thr, ass) if (ass) { vp_terminate_ok(); op; vp_fail("config", "an error is not asserted, though the configuration says so"); } \
    else if (thr) { bool t = false; try { op; } catch (const std::out_of_range&) { t = true; } vp_check(t, "config", "an error does not throw std::out_of_range, though the configuration says so"); }
#define OUT(op) OUT_(op, throws, asserts)
#define AT(op) if (bc) { vp_terminate_ok(); (void)op; vp_fail("config", "an access out of bounds is not asserted, though the configuration says so"); }
#define OK(op) { bool t = false; try { op; } catch (...) { t = true; } vp_check(!t, "config", "a valid operation fails"); }
#define LEN(n) size_t n = vp_size(#n)
#define S_(v, n) SV v; LEN(n); v.resize(n);
#define T_(v, n) TV v; LEN(n); vp_assume(n <= CAP); v.resize(n);
static int& acc(int& e) { return e; }
extern "C" {
// ---- positions out of range
void d_sv_erase() { S_(v, n) LEN(k); vp_assume(k > 0); OUT(v.erase(v.end() + k)) }
void d_sv_erase_before() { S_(v, n) LEN(k); vp_assume(k > 0); OUT(v.erase(v.begin() - k)) }
void d_sv_erase_range() { S_(v, n) LEN(i); LEN(j); vp_assume(i <= n && j > n); OUT(v.erase(v.begin() + i, v.begin() + j)) }
void d_sv_erase_order() { S_(v, n) LEN(i); LEN(j); vp_assume(i <= n && j < i); OUT(v.erase(v.begin() + i, v.begin() + j)) }
void d_sv_insert() { S_(v, n) LEN(k); vp_assume(k > 0); E x; OUT(v.insert(v.end() + k, x)) }
void d_sv_insert_before() { S_(v, n) LEN(k); vp_assume(k > 0); E x; OUT(v.insert(v.begin() - k, x)) }
void d_sv_emplace() { S_(v, n) LEN(k); vp_assume(k > 0); OUT(v.emplace(v.end() + k)) }
void d_sv_insert_n() { S_(v, n) LEN(k); vp_assume(k > 0); LEN(c); E x; OUT(v.insert(v.end() + k, c, x)) }
void d_sv_ok() { S_(v, n) LEN(i); vp_assume(i <= n); E x; OK(v.insert(v.begin() + i, x)) }
void d_sv_ok2() { S_(v, n) LEN(i); vp_assume(i < n); OK(v.erase(v.begin() + i)) }
void d_sv_ok3() { S_(v, n) LEN(i); vp_assume(i <= n); OK(v.erase(v.begin() + i, v.end())) }
void d_sv_ok4() { S_(v, n) LEN(i); LEN(k); vp_assume(i <= n); E x; OK(v.insert(v.begin() + i, k, x)) }
// ---- capacity
void d_tv_push() { T_(v, n) vp_assume(n == CAP); E x; OUT(v.push_back(x)) }
void d_tv_push_move() { T_(v, n) vp_assume(n == CAP); OUT(v.push_back(E())) }
void d_tv_emplace_back() { T_(v, n) vp_assume(n == CAP); OUT(v.emplace_back()) }
void d_tv_insert() { T_(v, n) vp_assume(n == CAP); LEN(i); vp_assume(i <= n); E x; OUT(v.insert(v.begin() + i, x)) }
void d_tv_insert_n() { T_(v, n) LEN(i); vp_assume(i <= n); size_t c = vp_anysize("c"); vp_assume(c > CAP - n); E x; OUT(v.insert(v.begin() + i, c, x)) }
void d_tv_emplace() { T_(v, n) vp_assume(n == CAP); LEN(i); vp_assume(i <= n); OUT(v.emplace(v.begin() + i)) }
void d_tv_resize() { T_(v, n) size_t c = vp_anysize("c"); vp_assume(c > CAP); OUT(v.resize(c)) }
void d_tv_resize_val() { T_(v, n) size_t c = vp_anysize("c"); vp_assume(c > CAP); E x; OUT(v.resize(c, x)) }
void d_tv_assign() { T_(v, n) size_t c = vp_anysize("c"); vp_assume(c > CAP); E x; OUT(v.assign(c, x)) }
void d_tv_ctor() { size_t c = vp_anysize("c"); vp_assume(c > CAP); OUT(TV v(c)) }
void d_tv_convert() { itlib::static_vector<E, CAP + 7> o; LEN(n); vp_assume(n > CAP && n <= CAP + 7); o.resize(n); OUT(TV v(o)) }
void d_tv_ok() { T_(v, n) vp_assume(n < CAP); E x; OK(v.push_back(x)) }
void d_tv_ok2() { T_(v, n) vp_assume(n < CAP); LEN(i); vp_assume(i <= n); E x; OK(v.insert(v.begin() + i, x)) }
void d_tv_ok3() { T_(v, n) LEN(i); vp_assume(i < n); OK(v.erase(v.begin() + i)) }
void d_tv_ok4() { T_(v, n) LEN(i); vp_assume(i <= n); OK(v.erase(v.begin() + i, v.end())) }
void d_tv_ok5() { T_(v, n) LEN(m); vp_assume(m <= CAP); OK(v.resize(m)) }
void d_tv_ok6() { T_(v, n) LEN(k); vp_assume(k <= CAP - n); E x; OK(v.insert(v.end(), k, x)) }
// ---- absent keys
void d_map_at() { FM m; int k = vp_int("k"); OUT_(m.at(k), mthrows, masserts) }
void d_map_at_const() { const FM m; int k = vp_int("k"); OUT_(m.at(k), mthrows, masserts) }
void d_map_ok() { FM m; int k = vp_int("k"); m[k] = 3; OK(vp_check(m.at(k) == 3, "config", "a valid operation fails")) const FM& c = m; OK(vp_check(c.at(k) == 3, "config", "a valid operation fails")) }
// ---- bounds
#define BOUND(name, make, i) \
    void d_##name##_sub() { make size_t i = vp_anysize("i"); vp_assume(i >= n); AT(v[i]) } \
    void d_##name##_at() { make size_t i = vp_anysize("i"); vp_assume(i >= n); AT(v.at(i)) } \
    void d_##name##_in() { make size_t i = vp_anysize("i"); vp_assume(i < n); OK((void)v[i]) OK((void)v.at(i)) }
BOUND(svb, S_(v, n), i)
BOUND(svbc, S_(w, n) const SV& v = w;, i)
BOUND(tvb, T_(v, n), i)
BOUND(tvbc, T_(w, n) const TV& v = w;, i)
BOUND(span, LEN(n); int* b = (int*)vp_buffer(n * 4, "b"); vp_label(b, n, "b"); itlib::span<int> v(b, n);, i)
BOUND(cspan, LEN(n); int* b = (int*)vp_buffer(n * 4, "b"); vp_label(b, n, "b"); const itlib::span<const int> v(b, n);, i)
BOUND(stride, LEN(n); int* b = (int*)vp_buffer(n * 8, "b"); vp_label(b, 2 * n, "b"); const itlib::stride_span<int> v((uint8_t*)b, 8, n);, i)
BOUND(view, LEN(n); int* b = (int*)vp_buffer(n * 4, "b"); vp_label(b, n, "b"); itlib::memory_view<int> v(b, n);, i)
BOUND(cview, LEN(n); int* b = (int*)vp_buffer(n * 4, "b"); vp_label(b, n, "b"); const itlib::const_memory_view<int> v(b, n);, i)
BOUND(poly, LEN(n); int* b = (int*)vp_buffer(n * 4, "b"); vp_label(b, n, "b"); const itlib::poly_span<int&> v(b, n, acc);, i)
}
