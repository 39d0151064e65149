// KIND: 0 small_vector, 1 static_vector, 2 pod_vector, 3 flat_set, 4 flat_map
#include "vp.hpp"
#include <vector>
extern "C" void vp_mismatch(const char* a, const char* b, size_t k);   // a[k] and b[k] are the first elements which differ
#if KIND == 0
#include <itlib/small_vector.hpp>
using E = VpE;
using A = VpAlloc<E>;
#ifndef SB
#define SB 4, 0
#endif
using V = itlib::small_vector<E, 4, 0, A>; using W = itlib::small_vector<E, SB, A>;
#define MK(T, v) T v(A(vp_int("id_" #v))); size_t n_##v = vp_size("n_" #v); { size_t c = vp_size("cap_" #v); vp_assume(n_##v <= c); v.reserve(c); v.resize(n_##v); vp_label(v.data(), n_##v, #v); }
#define DATA(v) v.data()
#elif KIND == 1
#include <itlib/static_vector.hpp>
using E = VpE;
#ifndef SB
#define SB 1000
#endif
using V = itlib::static_vector<E, 1000>; using W = itlib::static_vector<E, SB>;
#define MK(T, v) T v; size_t n_##v = vp_size("n_" #v); vp_assume(n_##v <= T().capacity()); v.resize(n_##v); vp_label(v.data(), n_##v, #v);
#define DATA(v) v.data()
#elif KIND == 2
#include <itlib/pod_vector.hpp>
using E = VpPod;
using V = itlib::pod_vector<E>; using W = V;
#define MK(T, v) T v; size_t n_##v = vp_size("n_" #v); { size_t c = vp_size("cap_" #v); vp_assume(n_##v <= c); v.reserve(c); v.resize(n_##v); vp_label(v.data(), n_##v, #v); }
#define DATA(v) v.data()
#elif KIND == 3
#include <itlib/flat_set.hpp>
#include <itlib/small_vector.hpp>
using E = VpE;
#ifdef CONT
using C = CONT;
#else
using C = std::vector<E>;
#endif
using V = itlib::flat_set<E, itlib::fsimpl::less, C>; using W = V;
#define MK(T, v) T v; size_t n_##v = vp_size("n_" #v); { E* p_ = vp_make<E>(n_##v, #v); C c_; c_.reserve(n_##v); c_.assign(p_, p_ + n_##v); v.modify_container() = std::move(c_); }
#define DATA(v) v.container().data()
#else
namespace std {
template <> struct pair<VpE, VpF> {
    using first_type = VpE; using second_type = VpF;
    union { struct { VpE first; VpF second; }; VpP all; };
    pair() { new (&all) VpP; }
    pair(const pair& o) { new (&all) VpP(o.all); }
    pair(pair&& o) noexcept { new (&all) VpP(std::move(o.all)); }
    ~pair() { all.~VpP(); }
    pair& operator=(const pair& o) { all = o.all; return *this; }
    pair& operator=(pair&& o) noexcept { all = std::move(o.all); return *this; }
    friend bool operator==(const pair& a, const pair& b) { return a.all == b.all; }
    friend bool operator!=(const pair& a, const pair& b) { return !(a.all == b.all); }
};
}
using E = std::pair<VpE, VpF>;
template <> struct vp_name_of<E> : vp_name_of<VpP> {};
#include <itlib/flat_map.hpp>
#include <itlib/small_vector.hpp>
#ifdef CONT
using C = CONT;
#else
using C = std::vector<E>;
#endif
using V = itlib::flat_map<VpE, VpF, itlib::fmimpl::less, C>; using W = V;
#define MK(T, v) T v; size_t n_##v = vp_size("n_" #v); { E* p_ = vp_make<E>(n_##v, #v); C c_; c_.reserve(n_##v); c_.assign(p_, p_ + n_##v); v.modify_container() = std::move(c_); }
#define DATA(v) v.container().data()
#endif
#define EQ(c, msg) vp_check((c), "equality", msg)
#define BOTH MK(V, a) MK(W, b) size_t k = vp_size("k"); vp_assume(k <= n_a && k <= n_b); vp_mismatch("a", "b", k); const bool same = k == n_a && k == n_b; const V& ca = a; const W& cb = b;
#define KEPT EQ(a.size() == n_a && b.size() == n_b, "a comparison changes nothing"); vp_seq(DATA(a), n_a, "a", 0, "a comparison changes nothing"); vp_seq(DATA(b), n_b, "b", 0, "a comparison changes nothing");
extern "C" {
void d_eq() { BOTH const bool r = ca == cb; EQ(r == same, "== tells whether the elements are the same, each equal to the other's"); KEPT }
void d_ne() { BOTH const bool r = ca != cb; EQ(r == !same, "!= tells whether any elements differ"); KEPT }
void d_eq_rev() { BOTH const bool r = cb == ca; EQ(r == same, "== tells whether the elements are the same, each equal to the other's"); KEPT }
void d_ne_rev() { BOTH const bool r = cb != ca; EQ(r == !same, "!= tells whether any elements differ"); KEPT }
void d_self() { MK(V, a) const V& ca = a; EQ(ca == ca && !(ca != ca), "a container equals itself"); vp_seq(DATA(a), n_a, "a", 0, "a comparison changes nothing"); }
void d_empty() { V a, b; EQ(a == b && !(a != b), "empty containers are equal"); }
void d_copy() { MK(V, a) V b(a); const V &ca = a, &cb = b; EQ(ca == cb && !(ca != cb), "a copy equals the original"); }
}
