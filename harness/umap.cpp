#include "vp.hpp"
#include <unordered_map>
#include <functional>
#include <stdexcept>
#include <type_traits>
#include <memory>
// std::unordered_map as its contract: the elements other than the one sought stay out of sight.
namespace std {
extern "C" bool vp_same_key(long a, long b);
template <class K, class T, class H = std::hash<K>, class E = std::equal_to<K>, class A = std::allocator<std::pair<const K, T>>>
class vp_umap {
public:
    using key_type = K; using mapped_type = T; using value_type = std::pair<const K, T>; using size_type = size_t; using hasher = H; using key_equal = E; using allocator_type = A;
    using reference = value_type&; using const_reference = const value_type&;
    struct const_iterator { const value_type* p; const value_type& operator*() const { return *p; } const value_type* operator->() const { return p; } bool operator==(const const_iterator& o) const { return p == o.p; } bool operator!=(const const_iterator& o) const { return p != o.p; } };
    struct iterator { value_type* p; value_type& operator*() const { return *p; } value_type* operator->() const { return p; } operator const_iterator() const { return {p}; } bool operator==(const iterator& o) const { return p == o.p; } bool operator!=(const iterator& o) const { return p != o.p; } };
    value_type* slot; int made; size_t others = vp_size("others");
    vp_umap() : slot(nullptr), made(0) {} explicit vp_umap(value_type* s) : slot(s), made(0) {} vp_umap(const vp_umap&) = delete;
    ~vp_umap() { if (made) { slot->~value_type(); ::operator delete(slot); } }
    iterator begin() { return {slot}; } iterator end() { return {nullptr}; } const_iterator begin() const { return {slot}; } const_iterator end() const { return {nullptr}; } const_iterator cbegin() const { return {slot}; } const_iterator cend() const { return {nullptr}; }
    bool empty() const { return !slot && !others; } size_t size() const { return others + (slot ? 1 : 0); }
    template <class Q> void sought(const Q& k) const { vp_ghost_set("key", k.id); }
    template <class Q> iterator find(const Q& k) { sought(k); return {slot}; } template <class Q> const_iterator find(const Q& k) const { sought(k); return {slot}; }
    template <class Q> bool contains(const Q& k) const { sought(k); return slot; } template <class Q> size_t count(const Q& k) const { sought(k); return slot ? 1 : 0; }
    template <class Q> std::pair<iterator, iterator> equal_range(const Q& k) { sought(k); return {{slot}, {nullptr}}; }
    template <class... X> std::pair<iterator, bool> emplace(X&&... x) { vp_ghost_inc("emplace"); void* m = ::operator new(sizeof(value_type)); value_type* v;
        try { v = new (m) value_type(std::forward<X>(x)...); } catch (...) { ::operator delete(m); throw; }
        if (slot) { v->~value_type(); ::operator delete(m); return {{slot}, false}; } slot = v; made = 1; return {{slot}, true}; }
    template <class... X> iterator emplace_hint(const_iterator h, X&&... x) { vp_ghost_inc("hinted"); vp_ghost_set("hint", (long)h.p); return emplace(std::forward<X>(x)...).first; }
    template <class... X> std::pair<iterator, bool> try_emplace(const K& k, X&&... x) { sought(k); if (slot) return {{slot}, false}; return emplace(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(std::forward<X>(x)...)); }
    template <class... X> std::pair<iterator, bool> try_emplace(K&& k, X&&... x) { sought(k); if (slot) return {{slot}, false}; return emplace(std::piecewise_construct, std::forward_as_tuple(std::move(k)), std::forward_as_tuple(std::forward<X>(x)...)); }
    template <class... X> iterator try_emplace(const_iterator h, const K& k, X&&... x) { vp_ghost_set("hint", (long)h.p); vp_ghost_inc("hinted"); return try_emplace(k, std::forward<X>(x)...).first; }
    template <class... X> iterator try_emplace(const_iterator h, K&& k, X&&... x) { vp_ghost_set("hint", (long)h.p); vp_ghost_inc("hinted"); return try_emplace(std::move(k), std::forward<X>(x)...).first; }
    template <class X> std::pair<iterator, bool> insert(X&& x) { return emplace(std::forward<X>(x)); }
    std::pair<iterator, bool> insert(value_type&& x) { return emplace(std::move(x)); }
    T& operator[](const K& k) { return try_emplace(k).first->second; } T& operator[](K&& k) { return try_emplace(std::move(k)).first->second; }
    T& at(const K& k) { sought(k); vp_ghost_inc("superat"); if (!slot) throw std::out_of_range("at"); return slot->second; } const T& at(const K& k) const { sought(k); vp_ghost_inc("superat"); if (!slot) throw std::out_of_range("at"); return slot->second; }
};
}
#define unordered_map vp_umap
#include <itlib/transparent_umap.hpp>
#undef unordered_map
// keys: Key owns, View refers; Lit is something a Key can be made from explicitly
struct Key; struct View { long id; VpE* probe; View(long i) : id(i), probe(nullptr) {} View(const Key& k); };
struct Key { long id; VpE e; Key(long i, const VpE& x) : id(i), e(x) {} explicit Key(struct Mv&& m); explicit Key(const struct Mv& m); explicit Key(const View& v) : id(v.id) { vp_ghost_inc("keymade"); } Key(const Key&) = default; Key(Key&&) = default; };
inline View::View(const Key& k) : id(k.id), probe(nullptr) {}
struct Mv { long id; VpE e; Mv(long i, const VpE& x) : id(i), e(x) {} };
inline Key::Key(Mv&& m) : id(m.id), e(std::move(m.e)) {} inline Key::Key(const Mv& m) : id(m.id), e(m.e) {}
struct Odd { long id; };     // comparable with a key, but not usable to make one
struct TH { using is_transparent = void; template <class Q> size_t operator()(const Q&) const { return 0; } };
struct TE { using is_transparent = void; template <class Q, class R> bool operator()(const Q& a, const R& b) const { return a.id == b.id; } };
struct NH { size_t operator()(const Key&) const { return 0; } };
struct NE { bool operator()(const Key& a, const Key& b) const { return a.id == b.id; } };
using M = itlib::transparent_umap<Key, VpF, TH, TE>; using N1 = itlib::transparent_umap<Key, VpF, NH, TE>; using N2 = itlib::transparent_umap<Key, VpF, TH, NE>;
template <class X, class Q, class = void> struct HasAt : std::false_type {};
template <class X, class Q> struct HasAt<X, Q, decltype(void(std::declval<X&>().at(std::declval<Q>())))> : std::true_type {};
template <class X, class Q, class = void> struct HasSub : std::false_type {};
template <class X, class Q> struct HasSub<X, Q, decltype(void(std::declval<X&>()[std::declval<Q>()]))> : std::true_type {};
template <class X, class Q, class = void> struct HasTry : std::false_type {};
template <class X, class Q> struct HasTry<X, Q, decltype(void(std::declval<X&>().try_emplace(std::declval<Q>())))> : std::true_type {};
static_assert(HasAt<M, View>::value && HasAt<M, const View&>::value && HasAt<const M, View>::value && HasAt<M, Odd>::value && HasAt<M, Key>::value, "at() takes keys of other types with a transparent hash and equality");
static_assert(HasSub<M, View>::value && HasSub<M, View&>::value && HasSub<M, const View&>::value && HasSub<M, Key>::value && HasSub<M, Key&>::value, "operator[] takes keys of other types with a transparent hash and equality");
static_assert(HasTry<M, View>::value && HasTry<M, View&>::value && HasTry<M, const View&>::value && HasTry<M, const Key&>::value && HasTry<M, Key>::value, "try_emplace takes keys of other types with a transparent hash and equality");
static_assert(!HasAt<N1, View>::value && !HasSub<N1, View>::value && !HasTry<N1, View>::value && HasAt<N1, Key>::value && HasSub<N1, Key>::value && HasTry<N1, Key>::value, "without a transparent hash only keys are taken");
static_assert(!HasAt<N2, View>::value && !HasSub<N2, View>::value && !HasTry<N2, View>::value && HasAt<N2, Key>::value && HasSub<N2, Key>::value && HasTry<N2, Key>::value, "without a transparent equality only keys are taken");
static_assert(std::is_same<decltype(std::declval<M&>().try_emplace(std::declval<M::const_iterator>(), std::declval<View>())), M::iterator>::value, "try_emplace with a hint gives an iterator");
static_assert(std::is_same<decltype(std::declval<const M&>().at(std::declval<View>())), const VpF&>::value && std::is_same<decltype(std::declval<M&>().at(std::declval<View>())), VpF&>::value, "at() of a const map gives a const reference");
#define MC(c, msg) vp_check((c), "content", msg)
// a map in which the key sought is absent, or present
#define ABSENT M m; vp_ghost_set("emplace", 0); vp_ghost_set("hinted", 0); vp_ghost_set("keymade", 0); long id = vp_long("id");
#define PRESENT long id = vp_long("id"); VpE ke; VpF kf; vp_name(ke, "ke"); vp_name(kf, "kf"); M::value_type el(Key(id, ke), kf); M m(&el); vp_ghost_set("emplace", 0); vp_ghost_set("hinted", 0); vp_ghost_set("keymade", 0);
#define UNTOUCHED MC(vp_ghost_get("emplace") == 0 && vp_ghost_get("keymade") == 0, "nothing is made if the key is present"); vp_is(el.second, "kf", "the element present is kept"); vp_is(el.first.e, "ke", "the element present is kept");
#define MADE MC(m.slot && m.made && vp_ghost_get("emplace") == 1 && m.slot->first.id == id, "an element with the key is inserted");
extern "C" {
void d_at() { PRESENT VpF& r = m.at(View(id)); MC(&r == &el.second, "at() gives the element of the key"); const M& c = m; const VpF& s = c.at(View(id)); MC(&s == &el.second, "at() gives the element of the key"); MC(vp_ghost_get("key") == id, "at() seeks the key"); UNTOUCHED MC(&m.at(Odd{id}) == &el.second, "at() gives the element of the key"); UNTOUCHED }
void d_at_absent() { ABSENT bool t = false; try { m.at(View(id)); } catch (std::out_of_range&) { t = true; } MC(t && !m.slot, "at() throws out_of_range if there's no such key"); t = false; const M& c = m; try { c.at(View(id)); } catch (std::out_of_range&) { t = true; } MC(t && !m.slot && vp_ghost_get("emplace") == 0, "at() throws out_of_range if there's no such key"); }
void d_at_key() { PRESENT Key k(id, ke); MC(&m.at(k) == &el.second, "at() gives the element of the key"); UNTOUCHED }
void d_sub() { PRESENT View v(id); VpF& r = m[v]; MC(&r == &el.second && vp_ghost_get("key") == id, "operator[] gives the element of the key"); UNTOUCHED VpF& s = m[View(id)]; MC(&s == &el.second, "operator[] gives the element of the key"); UNTOUCHED }
void d_sub_absent() { ABSENT View v(id); VpF& r = m[v]; MADE MC(&r == &m.slot->second, "operator[] gives the element inserted"); vp_default(&r, 1, "operator[] inserts a default element"); }
void d_sub_absent_rv() { ABSENT VpF& r = m[View(id)]; MADE MC(&r == &m.slot->second, "operator[] gives the element inserted"); vp_default(&r, 1, "operator[] inserts a default element"); }
void d_sub_key() { ABSENT VpE e; vp_name(e, "e"); Key k(id, e); VpF& r = m[k]; MADE MC(&r == &m.slot->second, "operator[] gives the element inserted"); vp_is(m.slot->first.e, "e", "an lvalue key is copied"); vp_is(k.e, "e", "an lvalue key is copied"); }
void d_sub_key_rv() { ABSENT VpE e; vp_name(e, "e"); Key k(id, e); VpF& r = m[std::move(k)]; MADE MC(&r == &m.slot->second, "operator[] gives the element inserted"); vp_is(m.slot->first.e, "e", "an rvalue key is moved"); vp_is(k.e, "moved", "an rvalue key is moved"); }
void d_try() { PRESENT VpF f; vp_name(f, "f"); auto r = m.try_emplace(View(id), std::move(f)); MC(!r.second && r.first.p == &el, "try_emplace gives the element present"); vp_is(f, "f", "try_emplace doesn't move its arguments if the key is present"); UNTOUCHED }
void d_try_key() { PRESENT VpF f; vp_name(f, "f"); Key k(id, ke); auto r = m.try_emplace(std::move(k), std::move(f)); MC(!r.second && r.first.p == &el, "try_emplace gives the element present"); vp_is(f, "f", "try_emplace doesn't move its arguments if the key is present"); vp_is(k.e, "ke", "try_emplace doesn't move its key if the key is present"); UNTOUCHED }
void d_try_absent() { ABSENT VpF f; vp_name(f, "f"); View v(id); auto r = m.try_emplace(v, std::move(f)); MADE MC(r.second && r.first.p == m.slot, "try_emplace gives the element inserted"); vp_is(m.slot->second, "f", "try_emplace makes the element from its arguments"); vp_is(f, "moved", "try_emplace forwards its arguments"); }
void d_try_absent_lv() { ABSENT VpF f; vp_name(f, "f"); auto r = m.try_emplace(View(id), f); MADE MC(r.second && r.first.p == m.slot, "try_emplace gives the element inserted"); vp_is(m.slot->second, "f", "try_emplace makes the element from its arguments"); vp_is(f, "f", "try_emplace forwards its arguments"); }
void d_try_absent_def() { ABSENT auto r = m.try_emplace(View(id)); MADE MC(r.second, "try_emplace tells if it inserted"); vp_default(&m.slot->second, 1, "try_emplace makes the element from its arguments"); }
void d_try_throw() { ABSENT VpF f; vp_name(f, "f"); vp_throws("copy,alloc"); bool t = false; try { m.try_emplace(View(id), f); } catch (...) { t = true; } vp_throws(""); MC(t == !m.slot, "a throwing try_emplace inserts nothing"); vp_is(f, "f", "try_emplace forwards its arguments"); }
void d_hint() { PRESENT VpF f; vp_name(f, "f"); auto r = m.try_emplace(m.cend(), View(id), std::move(f)); MC(r.p == &el, "try_emplace with a hint gives the element present"); vp_is(f, "f", "try_emplace doesn't move its arguments if the key is present"); UNTOUCHED }
void d_hint_absent() { ABSENT VpF f; vp_name(f, "f"); auto r = m.try_emplace(m.cend(), View(id), std::move(f)); MADE MC(r.p == m.slot, "try_emplace with a hint gives the element inserted"); vp_is(m.slot->second, "f", "try_emplace makes the element from its arguments"); vp_is(f, "moved", "try_emplace forwards its arguments"); }
void d_fwd() { ABSENT VpE e; VpF f; vp_name(e, "e"); vp_name(f, "f"); Mv k(id, e); auto r = m.try_emplace(std::move(k), f); MADE MC(r.second, "try_emplace tells if it inserted"); vp_is(m.slot->first.e, "e", "the key is made from the one given"); vp_is(k.e, "moved", "an rvalue key is moved"); }
void d_fwd_lv() { ABSENT VpE e; vp_name(e, "e"); Mv k(id, e); auto r = m.try_emplace(k); MADE MC(r.second, "try_emplace tells if it inserted"); vp_is(m.slot->first.e, "e", "the key is made from the one given"); vp_is(k.e, "e", "an lvalue key is copied"); }
void d_fwd_sub() { ABSENT VpE e; vp_name(e, "e"); Mv k(id, e); m[std::move(k)]; MADE vp_is(m.slot->first.e, "e", "the key is made from the one given"); vp_is(k.e, "moved", "an rvalue key is moved"); }
void d_fwd_hint() { ABSENT VpE e; vp_name(e, "e"); Mv k(id, e); m.try_emplace(m.cend(), std::move(k)); MADE vp_is(m.slot->first.e, "e", "the key is made from the one given"); vp_is(k.e, "moved", "an rvalue key is moved"); }
void d_fwd_hint_lv() { ABSENT VpE e; vp_name(e, "e"); Mv k(id, e); m.try_emplace(m.cend(), k); MADE vp_is(m.slot->first.e, "e", "the key is made from the one given"); vp_is(k.e, "e", "an lvalue key is copied"); }
void d_fwd_sub_lv() { ABSENT VpE e; vp_name(e, "e"); Mv k(id, e); m[k]; MADE vp_is(m.slot->first.e, "e", "the key is made from the one given"); vp_is(k.e, "e", "an lvalue key is copied"); }
void d_fwd_present() { PRESENT VpE e; vp_name(e, "e"); Mv k(id, e); m.try_emplace(std::move(k)); vp_is(k.e, "e", "a key isn't moved if it is present"); m[std::move(k)]; vp_is(k.e, "e", "a key isn't moved if it is present"); m.try_emplace(m.cend(), std::move(k)); vp_is(k.e, "e", "a key isn't moved if it is present"); UNTOUCHED }
}
