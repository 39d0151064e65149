#include "vp.hpp"
#include <cstdint>
#include <cstddef>
#include <itlib/span.hpp>
#include <itlib/stride_span.hpp>
#include <itlib/poly_span.hpp>
#include <itlib/memory_view.hpp>
using namespace itlib;
#ifndef ET
#define ET VpPod
#endif
using E = ET;
using C = const E;
#define SP(c, msg) vp_check((c), "span", msg)
// a block of n elements in the middle of a larger array, so that leaving the span is not hidden
#define ARR(b, n) size_t n = vp_size(#n); E* b = static_cast<E*>(vp_buffer((n + 8) * sizeof(E), #b)) + 4
#define OFF(x) size_t x = vp_anysize(#x)
#define IDX(i, n) size_t i = vp_size(#i); vp_assume(i < n)
template <class S, class P> static void is(const S& s, P b, size_t n, const char* msg) { SP(s.size() == n && s.empty() == (n == 0), msg); SP(s.data() == b && s.begin() == b && s.cbegin() == b, msg); SP(s.end() == b + n && s.cend() == b + n, msg); }
struct Cont { E* p; size_t n; E* data() { return p; } C* data() const { return p; } size_t size() const { return n; } using value_type = E; };
#define CLAMP(off, count, n) size_t lo = off < n ? off : n; size_t len = count < n - lo ? count : n - lo
extern "C" {
// ---- span
void d_sp_default() { span<E> s; SP(!s && s.data() == nullptr && s.size() == 0 && s.empty() && s.begin() == s.end(), "a default span is null and empty"); }
void d_sp_ctor() { ARR(b, n); span<E> s(b, n); is(s, b, n, "span of pointer and size"); SP(static_cast<bool>(s), "a span of something is true"); span<E> t(b, b + n); is(t, b, n, "span of two pointers"); span<C> u(b, n); is(u, b, n, "const span of pointer and size"); span<C> w(b, b + n); is(w, b, n, "const span of two pointers"); span<C> z((C*)b, n); is(z, b, n, "const span of const pointer"); }
void d_sp_container() { ARR(b, n); Cont c = {b, n}; const Cont& k = c; span<E> s(c); is(s, b, n, "span of a container"); span<C> u(c); is(u, b, n, "const span of a container"); span<C> w(k); is(w, b, n, "const span of a const container"); auto m = make_span(c); is(m, b, n, "make_span of a container"); auto q = make_span(k); is(q, b, n, "make_span of a const container"); auto r = make_span(b, n); is(r, b, n, "make_span of pointer and size"); auto v = make_span(b, b + n); is(v, b, n, "make_span of two pointers"); static_assert(std::is_same<decltype(q), span<C>>::value && std::is_same<decltype(m), span<E>>::value, ""); static_assert(!std::is_constructible<span<E>, const Cont&>::value, "no mutable span of a const container"); }
void d_sp_array() { E a[5]; span<E> s(a); is(s, a + 0, 5, "span of an array"); auto t = make_span(a); is(t, a + 0, 5, "make_span of an array"); }
void d_sp_copy() { ARR(b, n); span<E> s(b, n); span<E> t(s); is(t, b, n, "copies of a span"); span<C> u(s); is(u, b, n, "const copies of a span"); span<E> v; v = s; is(v, b, n, "assignment of a span"); span<C> w; w = s; is(w, b, n, "assignment of a span to a const one"); w = u; is(w, b, n, "assignment of a const span"); span<E> x(std::move(t)); is(x, b, n, "moves of a span"); static_assert(!std::is_constructible<span<E>, const span<C>&>::value && !std::is_assignable<span<E>&, const span<C>&>::value, "constness is not lost"); }
void d_sp_access() { ARR(b, n); IDX(i, n); const span<E> s(b, n); SP(&s[i] == b + i && &s.at(i) == b + i && &s.front() == b && &s.back() == b + n - 1, "element access"); SP(&*s.rbegin() == b + n - 1 && &*(s.rend() - 1) == b && s.rend() - s.rbegin() == (ptrdiff_t)n, "reverse iteration"); SP(&*s.crbegin() == b + n - 1 && &*(s.crend() - 1) == b, "reverse iteration"); }
void d_sp_subspan() { ARR(b, n); OFF(off); OFF(count); span<E> s(b, n); CLAMP(off, count, n); auto t = s.subspan(off, count); SP(t.size() == len, "subspan clamps the size"); SP(t.data() == b + lo && t.end() == b + lo + len, "subspan stays within the span"); is(s, b, n, "subspan leaves the span"); }
void d_sp_subspan1() { ARR(b, n); OFF(off); span<C> s(b, n); size_t lo = off < n ? off : n; auto t = s.subspan(off); SP(t.data() == b + lo && t.end() == b + n, "subspan to the end"); }
void d_sp_first_last() { ARR(b, n); OFF(k); span<E> s(b, n); auto f = s.first(k); size_t m = k < n ? k : n; is(f, b, m, "first clamps"); vp_assume(k <= n); auto l = s.last(k); is(l, b + (n - k), k, "last gives the last elements"); }
void d_sp_last_over() { ARR(b, n); OFF(k); vp_assume(k > n); span<E> s(b, n); auto l = s.last(k); SP(l.data() >= b && l.end() <= b + n && l.data() <= l.end(), "last stays within the span"); }
void d_sp_remove() { ARR(b, n); size_t k = vp_size("k"); size_t j = vp_size("j"); vp_assume(k + j <= n); span<E> s(b, n); s.remove_prefix(k); is(s, b + k, n - k, "remove_prefix drops the first elements"); s.remove_suffix(j); is(s, b + k, n - k - j, "remove_suffix drops the last elements"); }
void d_sp_bytes() { ARR(b, n); span<E> s(b, n); auto r = s.as_bytes(); is(r, (const uint8_t*)b, n * sizeof(E), "as_bytes spans the same memory"); auto w = s.as_writable_bytes(); is(w, (uint8_t*)b, n * sizeof(E), "as_writable_bytes spans the same memory"); SP(s.size_bytes() == n * sizeof(E), "size_bytes"); static_assert(std::is_same<decltype(w), span<uint8_t>>::value && std::is_same<decltype(r), span<const uint8_t>>::value && std::is_same<decltype(span<C>().as_writable_bytes()), span<const uint8_t>>::value, ""); }
#if __cplusplus >= 201700
void d_sp_deduce() { ARR(b, n); Cont c = {b, n}; const Cont& k = c; span s(b, n); is(s, b, n, "deduced span"); span t(b, b + n); is(t, b, n, "deduced span"); span u(c); is(u, b, n, "deduced span"); span v(k); is(v, b, n, "deduced span"); static_assert(std::is_same<decltype(v), span<C>>::value && std::is_same<decltype(u), span<E>>::value && std::is_same<decltype(s), span<E>>::value, ""); }
#endif
}
// ---- stride_span: strides chosen so that elements are not adjacent
#ifndef STRIDE
#define STRIDE (sizeof(E) + 8)
#endif
#define SARR(b, n) size_t n = vp_size(#n); const size_t st = STRIDE; uint8_t* b = static_cast<uint8_t*>(vp_buffer((n + 8) * STRIDE, #b)) + 4 * STRIDE
template <class S> static void isS(S& s, uint8_t* b, size_t st, size_t n, const char* msg) { const S& c = s; SP(s.size() == n && s.empty() == (n == 0) && s.stride() == st, msg); SP(s.data() == b && c.data() == b, msg); SP((const uint8_t*)s.begin().ptr() == b && (const uint8_t*)c.begin().ptr() == b && (const uint8_t*)s.cbegin().ptr() == b, msg); SP((const uint8_t*)s.end().ptr() == b + n * st && (const uint8_t*)c.end().ptr() == b + n * st && (const uint8_t*)s.cend().ptr() == b + n * st, msg); }
#define AT(b, i) reinterpret_cast<E*>((b) + (i) * STRIDE)
extern "C" {
void d_ss_default() { stride_span<E> s; SP(!s && s.data() == nullptr && s.size() == 0 && s.empty() && s.begin() == s.end() && s.stride() == sizeof(E), "a default stride_span is null and empty"); }
void d_ss_ctor() { SARR(b, n); stride_span<E> s(b, st, n); isS(s, b, st, n, "stride_span of pointer, stride and size"); SP(static_cast<bool>(s), "a span of something is true"); stride_span<C> c(b, st, n); isS(c, b, st, n, "const stride_span"); stride_span<E> t(s); isS(t, b, st, n, "copies of a stride_span"); stride_span<C> u(s); isS(u, b, st, n, "const copies of a stride_span"); stride_span<E> v; v = s; isS(v, b, st, n, "assignment of a stride_span"); stride_span<C> w; w = s; isS(w, b, st, n, "assignment of a stride_span to a const one"); static_assert(!std::is_constructible<stride_span<E>, const stride_span<C>&>::value, "constness is not lost"); }
void d_ss_access() { SARR(b, n); IDX(i, n); stride_span<E> s(b, st, n); const stride_span<E> c(b, st, n); SP(&s[i] == AT(b, i) && &s.at(i) == AT(b, i) && &c[i] == AT(b, i) && &c.at(i) == AT(b, i), "elements are a stride apart"); SP(&s.front() == AT(b, 0) && &s.back() == AT(b, n - 1) && &c.front() == AT(b, 0) && &c.back() == AT(b, n - 1), "first and last element"); }
void d_ss_iter() { SARR(b, n); IDX(i, n); IDX(j, n); stride_span<E> s(b, st, n); auto a = s.begin() + (ptrdiff_t)i; auto z = s.begin(); z += (ptrdiff_t)j; SP(&*a == AT(b, i) && a.ptr() == AT(b, i) && a.operator->() == AT(b, i) && &*z == AT(b, j), "advancing iterators"); SP((a < z) == (i < j) && (a > z) == (i > j) && (a <= z) == (i <= j) && (a >= z) == (i >= j) && (a == z) == (i == j) && (a != z) == (i != j), "order of iterators"); SP(&*(a - (ptrdiff_t)i) == AT(b, 0), "moving iterators back"); z -= (ptrdiff_t)j; SP(z == s.begin(), "moving iterators back"); ++z; SP(z.ptr() == AT(b, 1), "increment"); --z; SP(z == s.begin(), "decrement"); SP(s.end() - s.begin() == (ptrdiff_t)n && s.begin() - s.end() == -(ptrdiff_t)n, "distances of iterators"); SP(a - s.begin() == (ptrdiff_t)i && s.begin() - a == -(ptrdiff_t)i, "distances of iterators"); SP(&*s.rbegin() == AT(b, n - 1) && &*(s.rend() - 1) == AT(b, 0), "reverse iteration"); const stride_span<E>& c = s; SP(&*c.rbegin() == AT(b, n - 1) && &*(c.rend() - 1) == AT(b, 0), "reverse iteration"); }
void d_ss_subspan() { SARR(b, n); OFF(off); OFF(count); stride_span<E> s(b, st, n); CLAMP(off, count, n); auto t = s.subspan(off, count); isS(t, b + lo * st, st, len, "subspan clamps to the span"); isS(s, b, st, n, "subspan leaves the span"); }
void d_ss_first_last() { SARR(b, n); OFF(k); stride_span<E> s(b, st, n); auto f = s.first(k); size_t m = k < n ? k : n; isS(f, b, st, m, "first clamps"); vp_assume(k <= n); auto l = s.last(k); isS(l, b + (n - k) * st, st, k, "last gives the last elements"); }
void d_ss_last_over() { SARR(b, n); OFF(k); vp_assume(k > n); stride_span<E> s(b, st, n); auto l = s.last(k); SP(l.data() >= b && l.data() + l.size() * st <= b + n * st && l.size() <= n, "last stays within the span"); }
void d_ss_remove() { SARR(b, n); size_t k = vp_size("k"); size_t j = vp_size("j"); vp_assume(k + j <= n); stride_span<E> s(b, st, n); s.remove_prefix(k); isS(s, b + k * st, st, n - k, "remove_prefix drops the first elements"); s.remove_suffix(j); isS(s, b + k * st, st, n - k - j, "remove_suffix drops the last elements"); }
}
struct SA { char c; E m; short d[3]; E k; }; struct SB0 { int q; }; struct SB1 { E e; }; struct SD : SB0, SB1 { char t; };
extern "C" {
void d_ss_from_buf() { SARR(b, n); OFF(o); vp_assume(o < 4 * STRIDE); auto s = make_stride_span_from_buf<E>(b, o, st, n); static_assert(std::is_same<decltype(s), stride_span<E>>::value, ""); isS(s, b + o, st, n, "stride_span from a buffer of bytes, from an offset"); auto t = make_stride_span_from_buf(AT(b, 0), st, n); static_assert(std::is_same<decltype(t), stride_span<E>>::value, ""); isS(t, b, st, n, "stride_span from a typed buffer"); auto u = make_stride_span_from_buf((C*)AT(b, 0), st, n); static_assert(std::is_same<decltype(u), stride_span<C>>::value, ""); isS(u, b, st, n, "stride_span from a const buffer"); }
void d_ss_from_array() { ARR(b, n); size_t o = vp_size("o"); vp_assume(o <= n);
    { auto s = make_stride_span_from_array(b, n); isS(s, (uint8_t*)b, sizeof(E), n, "stride_span of a whole array"); }
    { auto s = make_stride_span_from_array(b, n, o); isS(s, (uint8_t*)(b + o), sizeof(E), n - o, "stride_span of an array from an element on"); }
    { auto s = make_stride_span_from_array((C*)b, n, o, 1); isS(s, (uint8_t*)(b + o), sizeof(E), n - o, "stride_span of an array from an element on"); }
    { auto s = make_stride_span_from_array(b, n, o, 2); isS(s, (uint8_t*)(b + o), 2 * sizeof(E), (n - o) / 2 + (n - o) % 2, "stride_span of every second element of an array"); }
    { auto s = make_stride_span_from_array(b, n, o, 3); isS(s, (uint8_t*)(b + o), 3 * sizeof(E), (n - o) / 3 + ((n - o) % 3 ? 1 : 0), "stride_span of every third element of an array"); } }
void d_ss_member() { size_t n = vp_size("n"); SA* a = static_cast<SA*>(vp_buffer((n + 8) * sizeof(SA), "a")) + 4; auto s = make_stride_span_member_view(a, n, &SA::m); isS(s, (uint8_t*)a + offsetof(SA, m), sizeof(SA), n, "stride_span of a member"); auto t = make_stride_span_member_view((const SA*)a, n, &SA::k); static_assert(std::is_same<decltype(t), stride_span<C>>::value && std::is_same<decltype(s), stride_span<E>>::value, ""); isS(t, (uint8_t*)a + offsetof(SA, k), sizeof(SA), n, "stride_span of a member of const elements"); size_t i = vp_size("i"); vp_assume(i < n); SP(&s[i] == &a[i].m && &t[i] == &a[i].k, "elements are the members"); }
void d_ss_base() { size_t n = vp_size("n"); SD* a = static_cast<SD*>(vp_buffer((n + 8) * sizeof(SD), "a")) + 4; auto s = make_stride_span_base_view<SB1>(a, n); static_assert(std::is_same<decltype(s), stride_span<SB1>>::value, ""); size_t i = vp_size("i"); vp_assume(i < n); SP(s.size() == n && s.stride() == sizeof(SD), "stride_span of a base"); SP(&s[i] == static_cast<SB1*>(a + i), "elements are the bases"); }
}
// ---- poly_span
static int& acc(E& e) { return *reinterpret_cast<int*>(&e); }
using PS = poly_span<int&>;
#define PI(b, i) reinterpret_cast<int*>((b) + (i))
static void isP(PS& s, E* b, size_t n, const char* msg) { const PS& c = s; SP(s.size() == n && s.empty() == (n == 0) && s.stride() == sizeof(E), msg); SP(s.data() == (uint8_t*)b && c.data() == (uint8_t*)b, msg); SP(s.end() - s.begin() == (ptrdiff_t)n && c.end() - c.begin() == (ptrdiff_t)n && s.cend() - s.cbegin() == (ptrdiff_t)n, msg); if (n) SP(&*s.begin() == PI(b, 0) && &*c.begin() == PI(b, 0) && &*s.cbegin() == PI(b, 0), msg); }
extern "C" {
void d_ps_default() { PS s; SP(!s && s.data() == nullptr && s.size() == 0 && s.empty() && s.begin() == s.end(), "a default poly_span is null and empty"); }
void d_ps_ctor() { ARR(b, n); PS s(b, n, acc); isP(s, b, n, "poly_span of pointer, size and function"); SP(static_cast<bool>(s), "a span of something is true"); PS t(s); isP(t, b, n, "copies of a poly_span"); PS u; u = s; isP(u, b, n, "assignment of a poly_span"); }
void d_ps_access() { ARR(b, n); IDX(i, n); PS s(b, n, acc); const PS& c = s; SP(&s[i] == PI(b, i) && &s.at(i) == PI(b, i) && &c[i] == PI(b, i) && &c.at(i) == PI(b, i), "elements through the function"); SP(&s.front() == PI(b, 0) && &s.back() == PI(b, n - 1) && &c.front() == PI(b, 0) && &c.back() == PI(b, n - 1), "first and last element"); }
void d_ps_iter() { ARR(b, n); IDX(i, n); IDX(j, n); PS s(b, n, acc); auto a = s.begin() + (ptrdiff_t)i; auto z = s.begin(); z += (ptrdiff_t)j; SP(&*a == PI(b, i) && &*z == PI(b, j), "advancing iterators"); SP((a < z) == (i < j) && (a > z) == (i > j) && (a <= z) == (i <= j) && (a >= z) == (i >= j) && (a == z) == (i == j) && (a != z) == (i != j), "order of iterators"); SP(&*(a - (ptrdiff_t)i) == PI(b, 0), "moving iterators back"); z -= (ptrdiff_t)j; SP(z == s.begin(), "moving iterators back"); ++z; SP(z - s.begin() == 1, "increment"); --z; SP(z == s.begin(), "decrement"); SP(s.begin() - s.end() == -(ptrdiff_t)n, "distances of iterators"); SP(a - s.begin() == (ptrdiff_t)i && s.begin() - a == -(ptrdiff_t)i, "distances of iterators"); SP(&*s.rbegin() == PI(b, n - 1) && &*(s.rend() - 1) == PI(b, 0), "reverse iteration"); const PS& c = s; SP(&*c.rbegin() == PI(b, n - 1) && &*(c.rend() - 1) == PI(b, 0), "reverse iteration"); }
void d_ps_subspan() { ARR(b, n); OFF(off); OFF(count); PS s(b, n, acc); CLAMP(off, count, n); auto t = s.subspan(off, count); isP(t, b + lo, len, "subspan clamps to the span"); isP(s, b, n, "subspan leaves the span"); }
void d_ps_first_last() { ARR(b, n); OFF(k); PS s(b, n, acc); auto f = s.first(k); size_t m = k < n ? k : n; isP(f, b, m, "first clamps"); vp_assume(k <= n); auto l = s.last(k); isP(l, b + (n - k), k, "last gives the last elements"); }
void d_ps_remove() { ARR(b, n); size_t k = vp_size("k"); size_t j = vp_size("j"); vp_assume(k + j <= n); PS s(b, n, acc); s.remove_prefix(k); isP(s, b + k, n - k, "remove_prefix drops the first elements"); s.remove_suffix(j); isP(s, b + k, n - k - j, "remove_suffix drops the last elements"); }
}
// ---- memory_view
using MV = memory_view<E>; using CV = const_memory_view<E>;
template <class S> static void isM(S& s, E* b, size_t n, const char* msg) { const S& c = s; SP(s.size() == n && s.empty() == (n == 0), msg); SP(s.data() == b && c.data() == b && s.get() == b && c.get() == b && s.begin() == b && c.begin() == b && s.cbegin() == b, msg); SP(s.end() == b + n && c.end() == b + n && s.cend() == b + n, msg); }
extern "C" {
void d_mv_default() { MV s; CV c; SP(!s && !c && s.size() == 0 && c.size() == 0 && s.data() == nullptr && c.data() == nullptr, "a default view is null and empty"); }
void d_mv_ctor() { ARR(b, n); MV s(b, n); isM(s, b, n, "view of pointer and size"); SP(static_cast<bool>(s), "a view of something is true"); CV c(b, n); isM(c, b, n, "const view of pointer and size"); CV d(s); isM(d, b, n, "const view of a view"); MV t(s); isM(t, b, n, "copies of a view"); CV e; e = c; isM(e, b, n, "assignment of a view"); t.reset(); SP(!t && t.size() == 0, "reset detaches"); t.reset(b, n); isM(t, b, n, "reset attaches"); size_t k = vp_size("k"); t.reset(k); SP(t.data() == b && t.size() == k, "reset of the size"); e.reset(); SP(!e && e.size() == 0, "reset detaches"); e.reset(b, n); isM(e, b, n, "reset attaches"); e.reset(k); SP(e.data() == b && e.size() == k, "reset of the size"); }
void d_mv_make() { ARR(b, n); auto s = make_memory_view(b, n); isM(s, b, n, "make_memory_view of a pointer"); auto c = make_memory_view((C*)b, n); isM(c, b, n, "make_memory_view of a const pointer"); Cont v = {b, n}; const Cont& k = v; size_t o = vp_size("o"); vp_assume(o <= n); auto p = make_memory_view(v, o); isM(p, b + o, n - o, "make_memory_view of a container"); auto q = make_memory_view(k, o); isM(q, b + o, n - o, "make_memory_view of a const container"); static_assert(std::is_same<decltype(s), MV>::value && std::is_same<decltype(c), CV>::value && std::is_same<decltype(p), MV>::value && std::is_same<decltype(q), CV>::value, ""); }
void d_mv_access() { ARR(b, n); IDX(i, n); MV s(b, n); const MV& k = s; CV c(b, n); SP(&s[i] == b + i && &s.at(i) == b + i && &k[i] == b + i && &k.at(i) == b + i && &c[i] == b + i && &c.at(i) == b + i, "element access"); SP(&s.front() == b && &s.back() == b + n - 1 && &k.front() == b && &k.back() == b + n - 1 && &c.front() == b && &c.back() == b + n - 1, "first and last element"); SP(&*s.rbegin() == b + n - 1 && &*(s.rend() - 1) == b && &*c.rbegin() == b + n - 1 && &*(c.rend() - 1) == b && &*k.rbegin() == b + n - 1 && &*(k.rend() - 1) == b, "reverse iteration"); }
void d_mv_slice() { ARR(b, n); OFF(off); OFF(count); MV s(b, n); CV c(b, n); CLAMP(off, count, n); auto t = s.slice(off, count); isM(t, b + lo, len, "slice clamps to the view"); auto u = c.slice(off, count); isM(u, b + lo, len, "slice clamps to the view"); }
void d_mv_remove() { ARR(b, n); size_t k = vp_size("k"); size_t j = vp_size("j"); vp_assume(k + j <= n); MV s(b, n); CV c(b, n); s.remove_prefix(k); c.remove_prefix(k); isM(s, b + k, n - k, "remove_prefix drops the first elements"); isM(c, b + k, n - k, "remove_prefix drops the first elements"); s.remove_suffix(j); c.remove_suffix(j); isM(s, b + k, n - k - j, "remove_suffix drops the last elements"); isM(c, b + k, n - k - j, "remove_suffix drops the last elements"); }
}
