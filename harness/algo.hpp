// Contracts for the searching and sorting algorithms of the standard library, used instead of their bodies.
#pragma once
#include "vp.hpp"
#include "stdall.hpp"
extern "C" {
void vp_sorted(const char* label, size_t n);      // label[0] < ... < label[n-1]
void vp_presorted(const char* label, size_t n);   // label[0] <= ... <= label[n-1]
size_t vp_place_(const char* label, const void* key, const char* et);
size_t vp_has_(const char* label, const void* key, const char* et);
void vp_custom_order();                           // the order is not operator<
}
// the order
bool vp_before(const VpE&, const VpE&); bool vp_before(const VpE&, const VpF&); bool vp_before(const VpF&, const VpE&);
namespace std {
// precondition (met by every sorted range and a comparison which is the order): the range is partitioned
template <class I, class K, class C> I vp_lower_bound(I f, I l, const K& k, C c) {
    size_t n = l - f, r = vp_size("lower"); vp_assume(r <= n);
    if (r > 0) vp_assume(c(f[r - 1], k));
    if (r < n) vp_assume(!c(f[r], k));
    return f + r;
}
template <class I, class K, class C> I vp_upper_bound(I f, I l, const K& k, C c) {
    size_t n = l - f, r = vp_size("upper"); vp_assume(r <= n);
    if (r > 0) vp_assume(!c(k, f[r - 1]));
    if (r < n) vp_assume(c(k, f[r]));
    return f + r;
}
template <class I, class K, class C> std::pair<I, I> vp_equal_range(I f, I l, const K& k, C c) { return {vp_lower_bound(f, l, k, c), vp_upper_bound(f, l, k, c)}; }
template <class I, class K> I vp_lower_bound(I f, I l, const K& k) { return vp_lower_bound(f, l, k, [](const auto& a, const auto& b) { return a < b; }); }
template <class I, class K> I vp_upper_bound(I f, I l, const K& k) { return vp_upper_bound(f, l, k, [](const auto& a, const auto& b) { return a < b; }); }
template <class I, class K, class C> bool vp_binary_search(I f, I l, const K& k, C c) { auto i = vp_lower_bound(f, l, k, c); return i != l && !c(k, *i); }
// the elements are in order afterwards; the comparison must be the order
template <class T> const T& vp_key(const T& t) { return t; }
template <class T, class U> const T& vp_key(const std::pair<T, U>& p) { return p.first; }
template <class I, class C> void vp_sort(I f, I l, C c) {
    size_t n = l - f;
    if (n < 2) return;
    vp_label(&*f, n, "sorted");
    vp_presorted("sorted", n); vp_presorted("sorted.0", n);
    size_t i = vp_size("i"); vp_assume(i + 1 < n);
    vp_check(c(f[i], f[i + 1]) == vp_before(vp_key(f[i]), vp_key(f[i + 1])) && !c(f[i], f[i]), "content", "elements are sorted by the order of the container");
}
template <class I> void vp_sort(I f, I l) { vp_sort(f, l, [](const auto& a, const auto& b) { return a < b; }); }
template <class I, class C> bool vp_is_sorted(I f, I l, C c) {
    if (l - f < 2) return true;
    if (!vp_int("presorted")) return false;
    vp_sort(f, l, c);        // in order already: the same facts
    return true;
}
template <class I> bool vp_is_sorted(I f, I l) { return vp_is_sorted(f, l, [](const auto& a, const auto& b) { return a < b; }); }
template <class I, class C> void vp_stable_sort(I f, I l, C c) { vp_sort(f, l, c); }
template <class I, class C> I vp_unique(I f, I l, C c) {
    size_t n = l - f;
    if (n < 2) return l;
    size_t i = vp_size("j"), m = vp_size("unique"); vp_assume(i + 1 < n && m >= 1 && m <= n);
    vp_check(c(f[i], f[i + 1]) == !vp_before(vp_key(f[i]), vp_key(f[i + 1])), "content", "equivalent elements are duplicates");
    vp_label(&*f, m, "unique");
    vp_sorted("unique", m); vp_sorted("unique.0", m);
    if (m < n) vp_label(&*f + m, n - m, "moved");
    return f + m;
}
template <class I> I vp_unique(I f, I l) { return vp_unique(f, l, [](const auto& a, const auto& b) { return a == b; }); }
}
#define lower_bound vp_lower_bound
#define upper_bound vp_upper_bound
#define equal_range vp_equal_range
#define binary_search vp_binary_search
#define sort vp_sort
#define is_sorted vp_is_sorted
#define stable_sort vp_stable_sort
#define unique vp_unique
