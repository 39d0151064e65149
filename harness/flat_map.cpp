#include "algo.hpp"
bool operator<(const VpE&, const VpF&); bool operator<(const VpF&, const VpE&);
// std::pair<key, mapped> as an opaque element whose members are elements
namespace std {
template <> struct pair<VpE, VpF> {
    using first_type = VpE; using second_type = VpF;
    union { struct { VpE first; VpF second; }; VpP all; };
    pair() { new (&all) VpP; }
    pair(const VpE& k, const VpF& v) { new (&all) VpP(k, v); }
    pair(const VpE& k, VpF&& v) { new (&all) VpP(k, std::move(v)); }
    pair(VpE&& k, const VpF& v) { new (&all) VpP(std::move(k), v); }
    pair(VpE&& k, VpF&& v) { new (&all) VpP(std::move(k), std::move(v)); }
    pair(const pair& o) { new (&all) VpP(o.all); }
    pair(pair&& o) noexcept { new (&all) VpP(std::move(o.all)); }
    ~pair() { all.~VpP(); }
    pair& operator=(const pair& o) { all = o.all; return *this; }
    pair& operator=(pair&& o) noexcept { all = std::move(o.all); return *this; }
    friend bool operator==(const pair& a, const pair& b) { return a.all == b.all; }
};
}
using P = std::pair<VpE, VpF>;
template <> struct vp_name_of<P> : vp_name_of<VpP> {};
#include <itlib/flat_map.hpp>
#include <itlib/small_vector.hpp>
#ifndef CONT
#define CONT std::vector<P>
#endif
using C = CONT;
using K = VpE; using T = VpF;
#ifdef CMP
struct Cmp { int id; Cmp(int i = 0) : id(i) {} template <class A, class B> bool operator()(const A& a, const B& b) const { vp_check(id == vp_ghost_get("cmp"), "content", "the comparison of the map is used"); return vp_before(a, b); } };
#define MK(s) vp_custom_order(); vp_ghost_set("cmp", vp_int("id_" #s)); M s(Cmp(vp_ghost_get("cmp")))
#define SAVE(x) vp_ghost_set("cmp_" #x, vp_ghost_get("cmp"))
#define USE(x) vp_ghost_set("cmp", vp_ghost_get("cmp_" #x))
using M = itlib::flat_map<K, T, Cmp, C>;
#else
using M = itlib::flat_map<K, T, itlib::fmimpl::less, C>;
#define MK(s) M s
#define SAVE(x)
#define USE(x)
#endif
#define LEN(x) size_t x = vp_size(#x)
#define SIZE(s, n) VP_CONTENT(s.size() == (n) && s.empty() == ((n) == 0) && size_t(s.end() - s.begin()) == (n), "the number of elements")
#define HAS(s, i, n, lab, j) vp_seq(s.container().data() + (i), n, lab, j, "the elements are in order, each key once")
#define IS(s, n, lab) SIZE(s, n); HAS(s, 0, n, lab, 0)
#define PRE(s, n) MK(s); SAVE(s); LEN(n); { P* p_ = vp_make<P>(n, #s); C c_; size_t cap_ = vp_size("cap_" #s); vp_assume(cap_ >= n); c_.reserve(cap_); c_.assign(p_, p_ + n); s.modify_container() = std::move(c_); } vp_sorted(#s ".0", n)
#define KEY(k) K k; vp_name(k, #k)
#define OKEY(k) T k; vp_name(k, #k)
#define VAL(v) T v; vp_name(v, #v)
#define PLACE(s, k) size_t p = vp_place_(#s ".0", &k, vp_name_of<std::decay<decltype(k)>::type>::get()), e = vp_has_(#s ".0", &k, vp_name_of<std::decay<decltype(k)>::type>::get())
#define POS(s, it) size_t((it) - s.begin())
// element i is the pair (k, v)
#define PAIR(s, i, k, v) vp_check_pair(&s.container()[i], k, v)
extern "C" void vp_pair_is_(const void* p, const char* k, const char* v, const char* cat, const char* msg);
static void vp_check_pair(const P* p, const char* k, const char* v) { vp_pair_is_(p, k, v, "content", "the new element has the given key and value"); }
#define INSERTED(s, n, k, v) if (e) { IS(s, n, #s); } else { SIZE(s, n + 1); HAS(s, 0, p, #s, 0); PAIR(s, p, k, v); HAS(s, p + 1, n - p, #s, p); }
#define RESULT(s, r) VP_CONTENT(r.second == !e, "insertion tells whether the key was new"); VP_CONTENT(POS(s, r.first) == p, "insertion gives the position of the element")
#define ERASED(s, n) SIZE(s, n - e); HAS(s, 0, p, #s, 0); HAS(s, p, n - e - p, #s, p + e)
template <class S, class Q> static void look(S& s, size_t n, size_t p, size_t e, const Q& k) {
    VP_CONTENT(POS(s, s.lower_bound(k)) == p, "lower_bound is the first element not less than the key");
    VP_CONTENT(POS(s, s.upper_bound(k)) == p + e, "upper_bound is the first element greater than the key");
    auto r = s.equal_range(k); VP_CONTENT(POS(s, r.first) == p && POS(s, r.second) == p + e, "equal_range is the range of equivalent elements");
    VP_CONTENT(POS(s, s.find(k)) == (e ? p : n), "find gives the equivalent element, or end");
    VP_CONTENT(s.count(k) == e, "count tells whether there is an equivalent element");
}
template <class S> static void get(S& s, size_t p, size_t e, const K& k) {
    bool threw = false;
    try { auto& v = s.at(k); VP_CONTENT(e == 1 && &v == &s.container()[p].second, "at gives the value of the key"); }
    catch (std::out_of_range&) { threw = true; }
    VP_CONTENT(threw == !e, "at throws out_of_range if there is no such key");
}
extern "C" {
void d_default() { MK(s); SIZE(s, 0); }
void d_look() { PRE(s, n); KEY(k); PLACE(s, k); look(s, n, p, e, k); IS(s, n, "s"); vp_is(k, "k", "keys are not modified"); }
void d_look_const() { PRE(s, n); KEY(k); PLACE(s, k); const M& c = s; look(c, n, p, e, k); IS(s, n, "s"); }
void d_look_other() { PRE(s, n); OKEY(k); PLACE(s, k); look(s, n, p, e, k); const M& c = s; look(c, n, p, e, k); IS(s, n, "s"); }
void d_at() { PRE(s, n); KEY(k); PLACE(s, k); get(s, p, e, k); IS(s, n, "s"); }
void d_at_const() { PRE(s, n); KEY(k); PLACE(s, k); const M& c = s; get(c, p, e, k); IS(s, n, "s"); }
void d_insert() { PRE(s, n); KEY(k); VAL(v); PLACE(s, k); const P x(k, v); auto r = s.insert(x); RESULT(s, r); INSERTED(s, n, "k", "v"); vp_check_pair(&x, "k", "v"); }
void d_insert_lvalue() { PRE(s, n); KEY(k); VAL(v); PLACE(s, k); P x(k, v); auto r = s.insert(x); RESULT(s, r); INSERTED(s, n, "k", "v"); vp_check_pair(&x, "k", "v"); }
void d_insert_move() { PRE(s, n); KEY(k); VAL(v); PLACE(s, k); P x(k, v); auto r = s.insert(std::move(x)); RESULT(s, r); INSERTED(s, n, "k", "v"); if (e) vp_check_pair(&x, "k", "v"); }
void d_emplace() { PRE(s, n); KEY(k); VAL(v); PLACE(s, k); auto r = s.emplace(k, v); RESULT(s, r); INSERTED(s, n, "k", "v"); vp_is(k, "k", "an lvalue is copied"); vp_is(v, "v", "an lvalue is copied"); }
void d_emplace_move() { PRE(s, n); KEY(k); VAL(v); PLACE(s, k); auto r = s.emplace(std::move(k), std::move(v)); RESULT(s, r); INSERTED(s, n, "k", "v"); }
void d_index() { PRE(s, n); KEY(k); PLACE(s, k); T& v = s[k]; VP_CONTENT(&v == &s.container()[p].second, "operator[] gives the value of the key"); INSERTED(s, n, "k", "default"); vp_is(k, "k", "an lvalue is copied"); }
void d_index_const() { PRE(s, n); KEY(k); PLACE(s, k); T& v = s[static_cast<const K&>(k)]; VP_CONTENT(&v == &s.container()[p].second, "operator[] gives the value of the key"); INSERTED(s, n, "k", "default"); vp_is(k, "k", "an lvalue is copied"); }
void d_index_move() { PRE(s, n); KEY(k); PLACE(s, k); T& v = s[std::move(k)]; VP_CONTENT(&v == &s.container()[p].second, "operator[] gives the value of the key"); INSERTED(s, n, "k", "default"); if (e) vp_is(k, "k", "a key not inserted is not moved from"); }
void d_erase_key() { PRE(s, n); KEY(k); PLACE(s, k); size_t r = s.erase(k); VP_CONTENT(r == e, "erase tells the number of elements erased"); ERASED(s, n); }
void d_erase_other() { PRE(s, n); OKEY(k); PLACE(s, k); size_t r = s.erase(k); VP_CONTENT(r == e, "erase tells the number of elements erased"); ERASED(s, n); }
void d_erase_pos() { PRE(s, n); size_t i = vp_size("i0"); vp_assume(i < n); auto r = s.erase(s.begin() + i); VP_CONTENT(POS(s, r) == i, "erase gives the position after the element"); SIZE(s, n - 1); HAS(s, 0, i, "s", 0); HAS(s, i, n - 1 - i, "s", i + 1); }
void d_erase_cpos() { PRE(s, n); size_t i = vp_size("i0"); vp_assume(i < n); auto r = s.erase(s.cbegin() + i); VP_CONTENT(POS(s, r) == i, "erase gives the position after the element"); SIZE(s, n - 1); HAS(s, 0, i, "s", 0); HAS(s, i, n - 1 - i, "s", i + 1); }
void d_clear() { PRE(s, n); s.clear(); SIZE(s, 0); }
void d_reserve() { PRE(s, n); LEN(c); s.reserve(c); VP_CONTENT(s.capacity() >= c, "the space is reserved"); IS(s, n, "s"); }
void d_copy() { PRE(s, n); M t(s); IS(t, n, "s"); IS(s, n, "s"); KEY(k); PLACE(s, k); VP_CONTENT(t.count(k) == e, "the copy is a map of the same elements"); }
void d_move() { PRE(s, n); M t(std::move(s)); IS(t, n, "s"); SIZE(s, 0); KEY(k); PLACE(s, k); VP_CONTENT(t.count(k) == e, "the map moved has the elements"); }
void d_copy_assign() { PRE(s, n); PRE(t, m); t = s; IS(t, n, "s"); IS(s, n, "s"); USE(s); KEY(k); PLACE(s, k); VP_CONTENT(t.count(k) == e, "the copy is a map of the same elements"); }
void d_move_assign() { PRE(s, n); PRE(t, m); t = std::move(s); IS(t, n, "s"); USE(s); KEY(k); PLACE(s, k); VP_CONTENT(t.count(k) == e, "the map moved has the elements"); }
#ifndef NOSWAP
void d_swap() { PRE(s, n); PRE(t, m); s.swap(t); IS(t, n, "s"); IS(s, m, "t"); USE(s); KEY(k); PLACE(s, k); VP_CONTENT(t.count(k) == e, "swap exchanges the comparisons too"); }
#endif
static void made(M& s, size_t n, const char* lab) { if (n < 2) { IS(s, n, lab); } else { SIZE(s, s.size()); VP_CONTENT(s.size() >= 1 && s.size() <= n, "duplicates are dropped"); HAS(s, 0, s.size(), "unique", 0); } }
#ifdef CMP
#define CARG , Cmp(vp_ghost_get("cmp"))
#define CMPID vp_custom_order(); vp_ghost_set("cmp", vp_int("id")); SAVE(x)
#else
#define CARG
#define CMPID
#endif
void d_ctor_container() { LEN(n); P* p = vp_make<P>(n, "a"); C c; c.assign(p, p + n); CMPID; M s(std::move(c) CARG); made(s, n, "a"); }
void d_ctor_range() { LEN(n); P* p = vp_make<P>(n, "a"); CMPID; M s(p, p + n CARG); made(s, n, "a"); vp_seq(p, n, "a", 0, "the range is copied"); }
void d_ctor_ilist() { LEN(n); P* p = vp_make<P>(n, "a"); CMPID; M s(vp_ilist(p, n) CARG); made(s, n, "a"); vp_seq(p, n, "a", 0, "the list is copied"); }
#ifndef NOSWAP
void d_insert_throw() { PRE(s, n); KEY(k); VAL(v); PLACE(s, k); const P x(k, v); vp_throws("alloc,copy"); bool threw = false; try { s.insert(x); } catch (...) { threw = true; } vp_throws(""); if (!threw) { INSERTED(s, n, "k", "v"); } else { VP_CONTENT(!e, "nothing is inserted if there is such a key"); IS(s, n, "s"); } }
void d_index_throw() { PRE(s, n); KEY(k); PLACE(s, k); vp_throws("alloc,copy,default"); bool threw = false; try { s[k]; } catch (...) { threw = true; } vp_throws(""); if (!threw) { INSERTED(s, n, "k", "default"); } else { VP_CONTENT(!e, "nothing is inserted if there is such a key"); IS(s, n, "s"); } }
#endif
}
