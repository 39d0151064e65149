#include "vp.hpp"
#include "stdall.hpp"
extern "C" void vp_first(const char* label, const char* key, size_t k);   // label[k] is the first element which equals key
// the algorithms of the standard library as their specification says
namespace std {
template <class I, class V> I vp_find(I f, I l, const V& v) { for (; f != l; ++f) if (*f == v) return f; return l; }
template <class I, class P> I vp_find_if(I f, I l, P p) { for (; f != l; ++f) if (p(*f)) return f; return l; }
template <class I, class P> I vp_find_if_not(I f, I l, P p) { for (; f != l; ++f) if (!p(*f)) return f; return l; }
template <class I, class P> bool vp_all_of(I f, I l, P p) { for (; f != l; ++f) if (!p(*f)) return false; return true; }
template <class I, class P> bool vp_any_of(I f, I l, P p) { for (; f != l; ++f) if (p(*f)) return true; return false; }
template <class I, class P> bool vp_none_of(I f, I l, P p) { for (; f != l; ++f) if (p(*f)) return false; return true; }
// keeps the elements which don't match, in order, at the start; the others are as if moved from
template <class I, class P> I vp_remove_if(I f, I l, P p) {
    size_t n = l - f, m = vp_size("kept"); vp_assume(m <= n && (m < n || (size_t)vp_ghost_get("k") == n));
    vp_check(n == (size_t)vp_ghost_get("n"), "content", "all elements are considered for removal");
    vp_ghost_inc("removes"); vp_ghost_set("kept", (long)m);
    if (n == 0) return f;
    vp_seq(&*f, n, "src", 0, "all elements are considered for removal");
    vp_check(p(f[vp_ghost_get("k")]), "content", "the elements which match are removed");
    if (vp_ghost_get("k") > 0) vp_check(!p(f[0]), "content", "only elements which match are removed");
    if (m) vp_label(&*f, m, "kept");
    if (m < n) vp_label(&*f + m, n - m, "moved");
    return f + m;
}
template <class I, class V> I vp_remove(I f, I l, const V& v) { return vp_remove_if(f, l, [&](const typename std::remove_reference<decltype(*f)>::type& x) { return x == v; }); }
}
#define find vp_find
#define find_if vp_find_if
#define find_if_not vp_find_if_not
#define all_of vp_all_of
#define any_of vp_any_of
#define none_of vp_none_of
#define remove vp_remove
#define remove_if vp_remove_if
#include <itlib/qalgorithm.hpp>
#undef find
#undef find_if
#undef find_if_not
#undef all_of
#undef any_of
#undef none_of
#undef remove
#undef remove_if
#include <itlib/small_vector.hpp>
#include <itlib/span.hpp>
#ifndef CONT
#define CONT std::vector<VpE>
#endif
using V = CONT; using S = itlib::span<VpE>; using CS = itlib::span<const VpE>;
static_assert(std::is_same<decltype(itlib::qfind(std::declval<V&>(), std::declval<VpE>())), V::iterator>::value && std::is_same<decltype(itlib::qfind(std::declval<const V&>(), std::declval<VpE>())), V::const_iterator>::value, "qfind gives an iterator of the container");
static_assert(std::is_same<decltype(itlib::pfind(std::declval<V&>(), std::declval<VpE>())), VpE*>::value && std::is_same<decltype(itlib::pfind(std::declval<const V&>(), std::declval<VpE>())), const VpE*>::value, "pfind gives a pointer to an element of the container");
static_assert(std::is_same<decltype(itlib::pfind(std::declval<const S&>(), std::declval<VpE>())), const VpE*>::value || std::is_same<decltype(itlib::pfind(std::declval<const S&>(), std::declval<VpE>())), VpE*>::value, "pfind takes spans");
#define QC(c, msg) vp_check((c), "content", msg)
// n elements, the first of which equal to the key is at k (n if there's none); the vector has spare capacity
#define MAKE V v(0); size_t n = vp_size("n"), k = vp_size("k"); vp_assume(k <= n); v.reserve(n + 1); for (size_t i = 0; i < n; ++i) v.emplace_back(); if (n) vp_label(v.data(), n, "src"); VpE key; vp_name(key, "key"); vp_first("src", "key", k); vp_ghost_set("k", (long)k); vp_ghost_set("n", (long)n); vp_ghost_set("removes", 0); const V& c = v; (void)c;
struct Eq { const VpE& k; bool operator()(const VpE& e) const { return e == k; } };
struct Ne { const VpE& k; bool operator()(const VpE& e) const { return !(e == k); } };
#define SAME vp_seq(v.data(), n, "src", 0, "searches leave the elements as they are"); vp_is(key, "key", "the value sought isn't changed");
// predicates given stay as they are
struct EqK { const VpE& k; VpE own; explicit EqK(const VpE& x) : k(x) { vp_name(own, "own"); } bool operator()(const VpE& e) const { vp_is(own, "own", "the predicate keeps its state"); return e == k; } };
#define PRED(op) EqK p(key); itlib::op(v, p); vp_is(p.own, "own", "a predicate given by reference keeps its state");
extern "C" {
void d_pred_qfind() { MAKE PRED(qfind_if) } void d_pred_pfind() { MAKE PRED(pfind_if) } void d_pred_any() { MAKE PRED(qany_of) } void d_pred_none() { MAKE PRED(qnone_of) } void d_pred_all() { MAKE PRED(qall_of) } void d_pred_erase() { MAKE PRED(erase_first_if) } void d_pred_erase_all() { MAKE vp_assume(k < n); PRED(erase_all_if) }
void d_pred_const() { MAKE const EqK p(key); QC(itlib::qfind_if(v, p) == v.begin() + k && itlib::pfind_if(c, p) == (k == n ? nullptr : v.data() + k) && itlib::qany_of(v, p) == (k != n) && itlib::qnone_of(v, p) == (k == n), "const predicates do"); vp_is(p.own, "own", "a predicate given by reference keeps its state"); }
void d_qfind() { MAKE auto i = itlib::qfind(v, key); QC(i == v.begin() + k, "qfind finds the first element which is equal"); auto j = itlib::qfind(c, key); QC(j == c.begin() + k, "qfind finds the first element which is equal"); SAME }
void d_qfind_if() { MAKE auto i = itlib::qfind_if(v, Eq{key}); QC(i == v.begin() + k, "qfind_if finds the first element which matches"); auto j = itlib::qfind_if(c, Eq{key}); QC(j == c.begin() + k, "qfind_if finds the first element which matches"); SAME }
void d_pfind() { MAKE auto i = itlib::pfind(v, key); QC(i == (k == n ? nullptr : v.data() + k), "pfind points to the first element which is equal, or is null"); auto j = itlib::pfind(c, key); QC(j == i, "pfind points to the first element which is equal, or is null"); SAME }
void d_pfind_if() { MAKE auto i = itlib::pfind_if(v, Eq{key}); QC(i == (k == n ? nullptr : v.data() + k), "pfind_if points to the first element which matches, or is null"); auto j = itlib::pfind_if(c, Eq{key}); QC(j == i, "pfind_if points to the first element which matches, or is null"); SAME }
void d_span() { MAKE S s(v.data(), n); CS t(v.data(), n); QC(itlib::qfind(s, key) == s.begin() + k && itlib::qfind(t, key) == t.begin() + k, "qfind finds the first element which is equal in a span"); VpE* p = k == n ? nullptr : v.data() + k; QC(itlib::pfind(s, key) == p && itlib::pfind(t, key) == p && itlib::pfind_if(s, Eq{key}) == p, "pfind points to the first element of a span which is equal, or is null"); SAME }
void d_erase_first() { MAKE bool r = itlib::erase_first(v, key); QC(r == (k != n), "erase_first tells if it erased"); QC(v.size() == (k == n ? n : n - 1), "erase_first erases one element"); vp_seq(v.data(), k, "src", 0, "erase_first keeps the other elements"); if (k < n) vp_seq(v.data() + k, n - 1 - k, "src", k + 1, "erase_first keeps the other elements"); vp_is(key, "key", "the value sought isn't changed"); }
void d_erase_first_if() { MAKE bool r = itlib::erase_first_if(v, Eq{key}); QC(r == (k != n), "erase_first_if tells if it erased"); QC(v.size() == (k == n ? n : n - 1), "erase_first_if erases one element"); vp_seq(v.data(), k, "src", 0, "erase_first_if keeps the other elements"); if (k < n) vp_seq(v.data() + k, n - 1 - k, "src", k + 1, "erase_first_if keeps the other elements"); }
void d_erase_all() { MAKE vp_assume(k < n); auto r = itlib::erase_all(v, key); size_t m = (size_t)vp_ghost_get("kept"); QC(r >= 1 && v.size() + r == n, "erase_all gives the number of erased elements"); if (vp_ghost_get("removes") != 1) vp_stop(); QC(v.size() == m && r == n - m, "erase_all gives the number of erased elements"); vp_seq(v.data(), m, "kept", 0, "erase_all keeps the other elements"); vp_is(key, "key", "the value sought isn't changed"); }
void d_erase_all_if() { MAKE vp_assume(k < n); auto r = itlib::erase_all_if(v, Eq{key}); size_t m = (size_t)vp_ghost_get("kept"); QC(r >= 1 && v.size() + r == n, "erase_all_if gives the number of erased elements"); if (vp_ghost_get("removes") != 1) vp_stop(); QC(v.size() == m && r == n - m, "erase_all_if gives the number of erased elements"); vp_seq(v.data(), m, "kept", 0, "erase_all_if keeps the other elements"); }
void d_qany() { MAKE QC(itlib::qany_of(c, Eq{key}) == (k != n) && itlib::qany_of(v, Eq{key}) == (k != n), "qany_of tells if any element matches"); SAME }
void d_qnone() { MAKE QC(itlib::qnone_of(c, Eq{key}) == (k == n) && itlib::qnone_of(v, Eq{key}) == (k == n), "qnone_of tells if no element matches"); SAME }
void d_qall() { MAKE QC(itlib::qall_of(c, Ne{key}) == (k == n) && itlib::qall_of(v, Ne{key}) == (k == n), "qall_of tells if all elements match"); SAME }
void d_identity() { VpE e; const VpE& r = itlib::identity{}(e); const VpE c; QC(&r == &e && &itlib::identity{}(c) == &c, "identity gives its argument"); }
#define BOOLS int a[3] = {vp_int("a"), vp_int("b"), vp_int("c")}; size_t n = vp_size("n"); vp_assume(n <= 3); itlib::span<int> s(a, n); bool any = (n > 0 && a[0]) || (n > 1 && a[1]) || (n > 2 && a[2]), all = (n < 1 || a[0]) && (n < 2 || a[1]) && (n < 3 || a[2]);
void d_qany_true() { BOOLS QC(itlib::qany_of(s) == any, "qany_of tells if any element is true"); }
void d_qnone_true() { BOOLS QC(itlib::qnone_of(s) == !any, "qnone_of tells if no element is true"); }
void d_qall_true() { BOOLS QC(itlib::qall_of(s) == all, "qall_of tells if all elements are true"); }
}
