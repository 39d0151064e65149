// Operations on const objects write nothing. WHICH selects the class; the harness of that class is included for its types.
// Between vp_freeze(p) and vp_thaw() nothing may write to the object or block p points into.
#define VP_REUSED
#if WHICH == 0
#include "small_vector.cpp"
#define OTHER PRE(o, m)
#elif WHICH == 1
#include "static_vector.cpp"
#elif WHICH == 2
#include "pod_vector.cpp"
#elif WHICH == 3
#include "flat_set.cpp"
#elif WHICH == 4
#include "flat_map.cpp"
#elif WHICH == 5
#include "dynamic_bitset.cpp"
#elif WHICH == 6
#include "any.cpp"
#elif WHICH == 7
#include "expected.cpp"
#elif WHICH == 8
#include "spans.cpp"
#elif WHICH == 9
#include "ufunction.cpp"
#endif
template <class T> static void use_(const T&) { }
#define FZ(v) vp_freeze(&v)
extern "C" {
#if WHICH <= 2
#if WHICH == 2
#define FROZEN PRE(v, n); FZ(v); vp_freeze(v.data()); const V& c = v;
#else
#define FROZEN PRE(v, n); FZ(v); vp_freeze(v.data()); const V& c = v;
#endif
#define THAW vp_thaw(); UNCHANGED(v, n)
void d_k_sizes() { FROZEN use_(c.size()); use_(c.empty()); use_(c.capacity()); use_(c.data()); use_(c.max_size());
#if WHICH != 1
    use_(c.get_allocator());
#endif
    THAW; }
void d_k_iter() { FROZEN use_(c.begin()); use_(c.end()); use_(c.cbegin()); use_(c.cend()); use_(c.rbegin()); use_(c.rend()); use_(c.crbegin()); use_(c.crend()); THAW; }
void d_k_access() { FROZEN size_t i = vp_size("i"); vp_assume(i < n); use_(c[i]); use_(c.at(i)); use_(c.front()); use_(c.back()); THAW; }
void d_k_copy() { FROZEN { V w(c); } THAW; }
void d_k_assign_from() { FROZEN { PRE(w, m); w = c; } THAW; }
void d_k_range_from() { FROZEN { PRE(w, m); w.assign(c.begin(), c.end()); } THAW; }
void d_k_eq() { FROZEN { PRE(w, m); FZ(w); vp_freeze(w.data()); const V& d = w; use_(c == d); use_(c != d); vp_thaw(); } THAW; }
#endif
#if WHICH == 3 || WHICH == 4
#define FROZEN(v, n) PRE(v, n); FZ(v); vp_freeze(v.container().data());
#define THAW vp_thaw(); IS(s, n, "s")
#if WHICH == 3
using T_ = S; using O_ = F;
#else
using T_ = M; using O_ = T;
#endif
void d_k_sizes() { FROZEN(s, n) const T_& c = s; use_(c.size()); use_(c.empty()); use_(c.container()); use_(c.begin()); use_(c.end()); use_(c.cbegin()); use_(c.cend()); use_(c.rbegin()); use_(c.rend()); THAW; }
void d_k_find() { FROZEN(s, n) const T_& c = s; KEY(k); vp_freeze(&k); use_(c.find(k)); THAW; }
void d_k_count() { FROZEN(s, n) const T_& c = s; KEY(k); vp_freeze(&k); use_(c.count(k)); THAW; }
void d_k_bounds() { FROZEN(s, n) const T_& c = s; KEY(k); vp_freeze(&k); use_(c.lower_bound(k)); use_(c.upper_bound(k)); THAW; }
void d_k_range() { FROZEN(s, n) const T_& c = s; KEY(k); vp_freeze(&k); use_(c.equal_range(k)); THAW; }
void d_k_other() { FROZEN(s, n) const T_& c = s; OKEY(k); vp_freeze(&k); use_(c.find(k)); use_(c.count(k)); use_(c.lower_bound(k)); use_(c.upper_bound(k)); THAW; }
#if WHICH == 4
void d_k_at() { FROZEN(s, n) const T_& c = s; KEY(k); vp_freeze(&k); try { use_(c.at(k)); } catch (...) {} THAW; }
#endif
void d_k_copy() { FROZEN(s, n) const T_& c = s; { T_ w(c); } THAW; }
void d_k_assign_from() { FROZEN(s, n) const T_& c = s; { PRE(w, m); w = c; } THAW; }
void d_k_eq() { FROZEN(s, n) const T_& c = s; { PRE(w, m); FZ(w); vp_freeze(w.container().data()); const T_& d = w; use_(c == d); use_(c != d); vp_thaw(); } THAW; }
#endif
#if WHICH == 5
#define FROZEN ANY(b, n, "bits.a"); FZ(b); vp_freeze(b.data()); const B& c = b;
#define THAW vp_thaw(); sizes(b, n)
void d_k_sizes() { FROZEN use_(c.size()); use_(c.empty()); use_(c.word_size()); use_(c.byte_size()); use_(c.buffer()); use_(c.data()); use_(c.begin()); use_(c.end()); THAW; }
void d_k_bits() { FROZEN size_t i = vp_size("i"); vp_assume(i < n); use_(c.test(i)); use_(c[i]); use_(*(c.begin() + ptrdiff_t(i))); THAW; }
#define SMALL vp_bits(); vp_unroll(); const size_t n = vp_pick("len", 0, 2) * N + 3; B b(n); any_bits(b, "bits.a"); FZ(b); vp_freeze(b.data()); const B& c = b;
void d_k_all() { SMALL use_(c.any()); use_(c.none()); THAW; }
void d_k_copy() { FROZEN { B w(c); } THAW; }
void d_k_assign_from() { FROZEN { size_t m = vp_size("m"); B w(m); w = c; } THAW; }
void d_k_append_from() { SMALL { B w(vp_pick("m", 0, 1) * 5); w.append(c); } THAW; }
#endif
#if WHICH == 6
#define FROZEN PRE(x, 2); FZ(x); vp_freeze(x.data()); const X& c = x;
#define THAW vp_thaw(); is(x, k_x, "x", "the value is left as it is")
void d_k_info() { FROZEN use_(c.has_value()); use_(static_cast<bool>(c)); use_(c.type()); use_(c.data()); use_(c.get_allocator()); THAW; }
void d_k_cast() { FROZEN use_(any_cast<VpE>(&c)); use_(any_cast<VpF>(&c)); THAW; }
void d_k_cast_value() { FROZEN try { use_(any_cast<const VpE&>(c)); } catch (...) {} try { VpF f(any_cast<VpF>(c)); use_(f); } catch (...) {} THAW; }
void d_k_copy() { FROZEN { X y(c); } THAW; }
void d_k_assign_from() { FROZEN { PRE(y, 2); y = c; } THAW; }
#endif
#if WHICH == 7
#define FROZEN PRE(x); FZ(x); const X& c = x;
#define THAW vp_thaw(); IS(x, hv_x, "x", "what it holds is left as it is")
void d_k_info() { FROZEN use_(c.has_value()); use_(c.has_error()); use_(static_cast<bool>(c)); THAW; }
void d_k_access() { FROZEN if (hv_x) { use_(*c); use_(c.value()); use_(c.operator->()); } else use_(c.error()); THAW; }
void d_k_value_or() { FROZEN { XT t; const XT& u = t; vp_freeze(&t); XT r = c.value_or(u); use_(r); vp_thaw(); } THAW; }
void d_k_ref() { PRER(x); FZ(x); const XR& c = x; use_(c.has_value()); use_(c.has_error()); if (hv_x) { use_(*c); use_(c.value()); use_(c.operator->()); } else use_(c.error()); vp_thaw(); ISR(x, hv_x, t_x, "x", "what it holds is left as it is"); }
void d_k_void() { PREV(x); FZ(x); const XV& c = x; use_(c.has_value()); use_(c.has_error()); if (!hv_x) use_(c.error()); vp_thaw(); HAS(x, hv_x); }
#endif
#if WHICH == 8
#define FROZEN(S) ARR(b, n); S s(b, n); FZ(s); vp_freeze(b); const S& c = s;
#define WITHIN IDX(i, n); IDX(j, n); vp_assume(i + j <= n);
#define ALL(S) \
    use_(c.size()); use_(c.empty()); use_(c.data()); use_(static_cast<bool>(c)); use_(c.begin()); use_(c.end()); use_(c[i]); use_(c.at(i)); use_(c.front()); use_(c.back())
void d_k_span() { FROZEN(span<E>) IDX(i, n); ALL(S); size_t j = vp_size("j"); vp_assume(j <= n); use_(c.subspan(i, j)); use_(c.first(j)); use_(c.last(j)); use_(c.as_bytes()); use_(c.as_writable_bytes()); use_(c.cbegin()); use_(c.rbegin()); { span<E> t(c); span<const E> u(c); t = c; use_(t); use_(u); } vp_thaw(); is(s, b, n, "a span is left as it is"); }
void d_k_poly() { ARR(b, n); PS s(b, n, acc); FZ(s); vp_freeze(b); const PS& c = s; IDX(i, n); ALL(PS); size_t j = vp_size("j"); vp_assume(j <= n); use_(c.subspan(i, j)); use_(c.first(j)); { PS t(c); t = c; use_(t); } vp_thaw(); isP(s, b, n, "a span is left as it is"); }
void d_k_stride() { SARR(b, n); stride_span<E> s(b, st, n); FZ(s); vp_freeze(b); const stride_span<E>& c = s; IDX(i, n); ALL(PS); size_t j = vp_size("j"); vp_assume(j <= n); use_(c.subspan(i, j)); use_(c.first(j)); { stride_span<E> t(c); t = c; use_(t); } vp_thaw(); isS(s, b, st, n, "a span is left as it is"); }
void d_k_view() { FROZEN(MV) IDX(i, n); use_(c.size()); use_(c.empty()); use_(c.data()); use_(c.get()); use_(static_cast<bool>(c)); use_(c[i]); use_(c.at(i)); size_t j = vp_size("j"); vp_assume(j <= n); use_(c.slice(i, j)); { MV t(c); CV u(c); t = c; use_(t); use_(u); } vp_thaw(); isM(s, b, n, "a view is left as it is"); }
#endif
#if WHICH == 9
void d_k_call() { U u; const bool h = vp_bool("h"); if (h) fill(u); FZ(u); const U& c = u; use_(static_cast<bool>(c)); use_(!c); vp_thaw(); if (h) works(u); else empty(u); }
#endif
}
