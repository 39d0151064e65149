#include "algo.hpp"
bool operator<(const VpE&, const VpF&); bool operator<(const VpF&, const VpE&);
#include <itlib/flat_set.hpp>
#include <itlib/small_vector.hpp>
#ifndef CONT
#define CONT std::vector<VpE>
#endif
using E = VpE; using F = VpF;
using C = CONT;
#ifdef CMP
// a comparison with a state
struct Cmp { int id; Cmp(int i = 0) : id(i) {} template <class A, class B> bool operator()(const A& a, const B& b) const { vp_check(id == vp_ghost_get("cmp"), "content", "the comparison of the set is used"); return vp_before(a, b); } };
#define MK(s) vp_custom_order(); vp_ghost_set("cmp", vp_int("id_" #s)); S s(Cmp(vp_ghost_get("cmp")))
#define KEEPS(s, x) VP_CONTENT(s.key_comp().id == vp_ghost_get("cmp_" #x), "the comparison of the set")
#define SAVE(x) vp_ghost_set("cmp_" #x, vp_ghost_get("cmp"))
#define USE(x) vp_ghost_set("cmp", vp_ghost_get("cmp_" #x))
using S = itlib::flat_set<E, Cmp, C>;
#else
using S = itlib::flat_set<E, itlib::fsimpl::less, C>;
#define MK(s) S s
#define KEEPS(s, x)
#define SAVE(x)
#define USE(x)
#endif
#define LEN(x) size_t x = vp_size(#x)
#define SIZE(s, n) VP_CONTENT(s.size() == (n) && s.empty() == ((n) == 0) && size_t(s.end() - s.begin()) == (n), "the number of elements")
#define HAS(s, i, n, lab, j) vp_seq(s.container().data() + (i), n, lab, j, "the elements are in order, each once")
#define IS(s, n, lab) SIZE(s, n); HAS(s, 0, n, lab, 0)
// an arbitrary set of n elements
#define PRE(s, n) MK(s); SAVE(s); LEN(n); { E* p_ = vp_make<E>(n, #s); C c_; size_t cap_ = vp_size("cap_" #s); vp_assume(cap_ >= n); c_.reserve(cap_); c_.assign(p_, p_ + n); s.modify_container() = std::move(c_); } vp_sorted(#s, n)
#define KEY(k) E k; vp_name(k, #k)
#define OKEY(k) F k; vp_name(k, #k)
#define PLACE(s, k) size_t p = vp_place_(#s, &k, vp_name_of<std::decay<decltype(k)>::type>::get()), e = vp_has_(#s, &k, vp_name_of<std::decay<decltype(k)>::type>::get())
#define POS(s, it) size_t((it) - s.begin())
#define INSERTED(s, n, lab) if (e) { IS(s, n, #s); } else { SIZE(s, n + 1); HAS(s, 0, p, #s, 0); HAS(s, p, 1, lab, 0); HAS(s, p + 1, n - p, #s, p); }
#define RESULT(s, r) VP_CONTENT(r.second == !e, "insertion tells whether the element was new"); VP_CONTENT(POS(s, r.first) == p, "insertion gives the position of the element")
template <class T> static void look(T& s, size_t n, size_t p, size_t e, const E& k) {
    VP_CONTENT(POS(s, s.lower_bound(k)) == p, "lower_bound is the first element not less than the key");
    VP_CONTENT(POS(s, s.upper_bound(k)) == p + e, "upper_bound is the first element greater than the key");
    auto r = s.equal_range(k); VP_CONTENT(POS(s, r.first) == p && POS(s, r.second) == p + e, "equal_range is the range of equivalent elements");
    VP_CONTENT(POS(s, s.find(k)) == (e ? p : n), "find gives the equivalent element, or end");
    VP_CONTENT(s.count(k) == e, "count tells whether there is an equivalent element");
}
template <class T> static void looko(T& s, size_t n, size_t p, size_t e, const F& k) {
    VP_CONTENT(POS(s, s.lower_bound(k)) == p, "lower_bound is the first element not less than the key");
    VP_CONTENT(POS(s, s.upper_bound(k)) == p + e, "upper_bound is the first element greater than the key");
    auto r = s.equal_range(k); VP_CONTENT(POS(s, r.first) == p && POS(s, r.second) == p + e, "equal_range is the range of equivalent elements");
    VP_CONTENT(POS(s, s.find(k)) == (e ? p : n), "find gives the equivalent element, or end");
    VP_CONTENT(s.count(k) == e, "count tells whether there is an equivalent element");
}
extern "C" {
void d_default() { MK(s); SIZE(s, 0); }
void d_look() { PRE(s, n); KEY(k); PLACE(s, k); look(s, n, p, e, k); IS(s, n, "s"); vp_is(k, "k", "keys are not modified"); }
void d_look_const() { PRE(s, n); KEY(k); PLACE(s, k); const S& c = s; look(c, n, p, e, k); IS(s, n, "s"); }
void d_look_other() { PRE(s, n); OKEY(k); PLACE(s, k); looko(s, n, p, e, k); const S& c = s; looko(c, n, p, e, k); IS(s, n, "s"); }
void d_insert() { PRE(s, n); KEY(k); PLACE(s, k); auto r = s.insert(static_cast<const E&>(k)); RESULT(s, r); INSERTED(s, n, "k"); vp_is(k, "k", "an lvalue is copied"); KEEPS(s, s); }
void d_insert_lvalue() { PRE(s, n); KEY(k); PLACE(s, k); auto r = s.insert(k); RESULT(s, r); INSERTED(s, n, "k"); vp_is(k, "k", "an lvalue is copied"); }
void d_insert_move() { PRE(s, n); KEY(k); PLACE(s, k); auto r = s.insert(std::move(k)); RESULT(s, r); INSERTED(s, n, "k"); if (e) vp_is(k, "k", "a value not inserted is not moved from"); }
void d_emplace() { PRE(s, n); KEY(k); PLACE(s, k); auto r = s.emplace(k); RESULT(s, r); INSERTED(s, n, "k"); vp_is(k, "k", "an lvalue is copied"); }
void d_insert_own() { PRE(s, n); size_t i = vp_size("i0"); vp_assume(i < n); auto r = s.insert(s.container()[i]); VP_CONTENT(!r.second && POS(s, r.first) == i, "an element of the set is not inserted again"); IS(s, n, "s"); }
void d_erase_key() { PRE(s, n); KEY(k); PLACE(s, k); size_t r = s.erase(k); VP_CONTENT(r == e, "erase tells the number of elements erased"); SIZE(s, n - e); HAS(s, 0, p, "s", 0); HAS(s, p, n - e - p, "s", p + e); }
void d_erase_other() { PRE(s, n); OKEY(k); PLACE(s, k); size_t r = s.erase(k); VP_CONTENT(r == e, "erase tells the number of elements erased"); SIZE(s, n - e); HAS(s, 0, p, "s", 0); HAS(s, p, n - e - p, "s", p + e); }
void d_erase_pos() { PRE(s, n); size_t i = vp_size("i0"); vp_assume(i < n); auto r = s.erase(s.begin() + i); VP_CONTENT(POS(s, r) == i, "erase gives the position after the element"); SIZE(s, n - 1); HAS(s, 0, i, "s", 0); HAS(s, i, n - 1 - i, "s", i + 1); }
void d_erase_cpos() { PRE(s, n); size_t i = vp_size("i0"); vp_assume(i < n); auto r = s.erase(s.cbegin() + i); VP_CONTENT(POS(s, r) == i, "erase gives the position after the element"); SIZE(s, n - 1); HAS(s, 0, i, "s", 0); HAS(s, i, n - 1 - i, "s", i + 1); }
void d_clear() { PRE(s, n); s.clear(); SIZE(s, 0); KEEPS(s, s); }
void d_reserve() { PRE(s, n); LEN(c); s.reserve(c); VP_CONTENT(s.capacity() >= c, "the space is reserved"); IS(s, n, "s"); }
void d_copy() { PRE(s, n); S t(s); IS(t, n, "s"); IS(s, n, "s"); KEEPS(t, s); }
void d_move() { PRE(s, n); S t(std::move(s)); IS(t, n, "s"); KEEPS(t, s); SIZE(s, 0); }
void d_copy_assign() { PRE(s, n); PRE(t, m); t = s; IS(t, n, "s"); IS(s, n, "s"); KEEPS(t, s); USE(s); KEY(k); PLACE(s, k); VP_CONTENT(t.count(k) == e, "the copy is a set of the same elements"); }
void d_move_assign() { PRE(s, n); PRE(t, m); t = std::move(s); IS(t, n, "s"); KEEPS(t, s); }
#ifndef NOSWAP
void d_swap() { PRE(s, n); PRE(t, m); s.swap(t); IS(t, n, "s"); IS(s, m, "t"); KEEPS(t, s); KEEPS(s, t); }
#endif
static void made(S& s, size_t n, const char* lab) { if (n < 2) { IS(s, n, lab); } else { SIZE(s, s.size()); VP_CONTENT(s.size() >= 1 && s.size() <= n, "duplicates are dropped"); HAS(s, 0, s.size(), "unique", 0); } }
#ifdef CMP
#define CARG , Cmp(vp_ghost_get("cmp"))
#define CMPID vp_custom_order(); vp_ghost_set("cmp", vp_int("id")); SAVE(x)
#else
#define CARG
#define CMPID
#endif
void d_ctor_container() { LEN(n); E* p = vp_make<E>(n, "a"); C c; c.assign(p, p + n); CMPID; S s(std::move(c) CARG); made(s, n, "a"); KEEPS(s, x); }
void d_ctor_range() { LEN(n); E* p = vp_make<E>(n, "a"); CMPID; S s(p, p + n CARG); made(s, n, "a"); vp_seq(p, n, "a", 0, "the range is copied"); KEEPS(s, x); }
void d_ctor_ilist() { LEN(n); E* p = vp_make<E>(n, "a"); CMPID; S s(vp_ilist(p, n) CARG); made(s, n, "a"); vp_seq(p, n, "a", 0, "the list is copied"); KEEPS(s, x); }
#ifndef NOSWAP
void d_insert_throw() { PRE(s, n); KEY(k); PLACE(s, k); vp_throws("alloc,copy"); bool threw = false; try { s.insert(static_cast<const E&>(k)); } catch (...) { threw = true; } vp_throws(""); if (!threw) { INSERTED(s, n, "k"); } else { VP_CONTENT(!e, "nothing is inserted if there is an equivalent element"); IS(s, n, "s"); } }
#endif
void d_eq() { PRE(s, n); PRE(t, m); bool r = s == t; if (n != m) VP_CONTENT(!r, "sets of different sizes differ"); VP_CONTENT((s != t) == !r || n != 0, "inequality is the negation"); VP_CONTENT(s == s, "a set equals itself"); }
}
