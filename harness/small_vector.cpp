#include "vp.hpp"
#include <itlib/small_vector.hpp>
#ifndef SC
#define SC 4
#endif
#ifndef RB
#define RB 0
#endif
#ifndef ET
#define ET VpE
#endif
using E = ET;
using A = VpAlloc<E>;
using V = itlib::small_vector<E, SC, RB, A>;
#define ROOM(total)

static void inv(V& v) {
    vp_check(v.size() <= v.capacity(), "storage", "size() never exceeds capacity()");
    vp_check(v.end() == v.data() + v.size() && v.begin() == v.data(), "storage", "begin/end/data/size agree");
    vp_check(v.empty() == (v.size() == 0), "storage", "empty() agrees with size()");
    vp_live(v.data(), v.size(), "every element counted by size() is alive");
    if (v.is_static()) {
        vp_check(vp_in_object(v.data(), &v, sizeof(v)), "storage", "static buffer lies inside the object");
        vp_check(v.capacity() == SC, "storage", "capacity of the static buffer is the static capacity");
    } else {
        vp_check(vp_is_heap(v.data()), "storage", "dynamic buffer is an allocated block");
        vp_check(vp_block_size(v.data()) == v.capacity() * sizeof(E), "storage", "capacity() is what was allocated");
    }
    vp_raw(v.data() + v.size(), v.capacity() - v.size(), "no live element beyond size()");
}
#define PRE(v, n) V v(A(vp_int("id_" #v))); size_t n = vp_size(#n); { size_t c = vp_size("cap_" #n); vp_assume(n <= c); v.reserve(c); v.resize(n); vp_label(v.data(), n, #v); } int aid_##v = v.get_allocator().id; (void)aid_##v
#define ST(c, msg) vp_check((c), "storage", msg)
#include "vec_ops.inc"

extern "C" {
// ---- allocators
void d_ctor_alloc() { A a(vp_int("a")); V v(a); SIZE(v, 0); ST(v.get_allocator() == a && v.is_static(), "allocator constructor keeps the allocator"); inv(v); }
void d_alloc_ctors() { LEN(n); A a(vp_int("a")); SRC(src, n); E x;
    { V v(n, a); ST(v.get_allocator() == a, "count constructor keeps the allocator"); inv(v); }
    { V v(n, x, a); ST(v.get_allocator() == a, "fill constructor keeps the allocator"); inv(v); }
    { V v((const E*)src, (const E*)src + n, a); ST(v.get_allocator() == a, "range constructor keeps the allocator"); inv(v); }
    { V v(vp_ilist<E>(src, n), a); ST(v.get_allocator() == a, "list constructor keeps the allocator"); inv(v); } }
void d_copy_alloc() { PRE(o, n); A a(vp_int("a")); V v(o, a); SIZE(v, n); vp_seq(v.data(), n, "o", 0, "copy has the elements"); ST(v.get_allocator() == a, "copy uses the given allocator"); UNCHANGED(o, n); inv(v); }
void d_copy_select() { PRE(o, n); V v(o); ST(v.get_allocator().id == o.get_allocator().id + 1000, "copy asks the allocator which one to use"); inv(v); }
void d_move_alloc() { PRE(o, n); V v(std::move(o)); ST(v.get_allocator().id == aid_o, "move construction takes the allocator"); }
void d_copy_assign_alloc() { PRE(v, n); PRE(o, m); v = o; ST(v.get_allocator().id == aid_v && o.get_allocator().id == aid_o, "copy assignment keeps the allocator"); }
void d_move_assign_alloc() { PRE(v, n); PRE(o, m); v = std::move(o); ST(v.get_allocator().id == aid_o, "move assignment takes the allocator"); }
// ---- storage
void d_move_steals() { PRE(o, n); bool s = o.is_static(); auto d = o.data(); auto c = o.capacity(); V v(std::move(o)); if (!s) { ST(v.data() == d && v.capacity() == c, "move construction takes over the dynamic buffer"); } else { ST(v.is_static(), "move construction from a static vector is static"); } ST(o.is_static(), "moved-from vector is static"); }
void d_move_assign_steals() { PRE(v, n); PRE(o, m); bool s = o.is_static(); auto d = o.data(); auto c = o.capacity(); v = std::move(o); if (!s) { ST(v.data() == d && v.capacity() == c, "move assignment takes over the dynamic buffer"); } else { ST(v.is_static(), "move assignment from a static vector is static"); } ST(o.is_static(), "moved-from vector is static"); }
void d_reserve() { PRE(v, n); LEN(m); auto oc = v.capacity(); auto od = v.data(); v.reserve(m); ST(v.capacity() >= m, "reserve provides the capacity"); UNCHANGED(v, n); if (m <= oc) ST(v.data() == od && v.capacity() == oc, "reserve below capacity does nothing"); inv(v); }
void d_t_reserve() { PRE(v, n); LEN(m); vp_throws("alloc"); GUARDED(v.reserve(m)); UNCHANGED(v, n); inv(v); }
void d_shrink() { PRE(v, n); auto oc = v.capacity(); auto od = v.data(); bool st = v.is_static(); bool r = v.shrink_to_fit(); UNCHANGED(v, n);
    if (!r) ST(v.data() == od && v.capacity() == oc, "shrink_to_fit returning false does nothing"); ST(r == !(st || n == oc), "shrink_to_fit returns whether it shrunk");
    if (r) ST(n <= SC ? v.is_static() : v.capacity() == n, "shrink_to_fit reverts to static whenever possible, else fits exactly"); inv(v); }
void d_t_shrink() { PRE(v, n); vp_throws("alloc"); GUARDED(v.shrink_to_fit()); UNCHANGED(v, n); inv(v); }
void d_revert() { PRE(v, n); auto oc = v.capacity(); auto od = v.data(); bool r = v.revert_to_static(); UNCHANGED(v, n); ST(r == v.is_static(), "revert_to_static returns whether the vector is static");
    ST(r == (n <= SC) || n == oc, "revert_to_static reverts whenever the elements fit"); if (!r) ST(v.data() == od && v.capacity() == oc, "revert_to_static does nothing if the elements don't fit"); inv(v); }
void d_static_small() { LEN(n); vp_assume(n <= SC); V v(n); ST(v.is_static(), "vectors within the static capacity don't allocate"); ST(vp_heap_count() == 0, "vectors within the static capacity don't allocate"); }
void d_clear_revert() { PRE(v, n); bool s = v.is_static(); auto d = v.data(); v.clear(); if (RB > 0 || s) { ST(v.is_static(), "clear reverts to the static buffer when RevertToStaticBelow > 0"); } else { ST(v.data() == d, "clear keeps the dynamic buffer when RevertToStaticBelow is 0"); } }
void d_erase_revert() { PRE(v, n); LEN(i); LEN(j); vp_assume(i < j && j <= n); bool s = v.is_static(); auto d = v.data(); v.erase(v.begin() + i, v.begin() + j);
    if (s || n - (j - i) < RB) { ST(v.is_static(), "the vector reverts to static when the size drops below RevertToStaticBelow"); } else { ST(v.data() == d, "the buffer is kept when the size doesn't drop below RevertToStaticBelow"); } }
void d_resize_revert() { PRE(v, n); LEN(m); vp_assume(m < n); bool s = v.is_static(); auto d = v.data(); v.resize(m);
    if (s || m < RB) { ST(v.is_static(), "the vector reverts to static when the size drops below RevertToStaticBelow"); } else { ST(v.data() == d, "the buffer is kept when the size doesn't drop below RevertToStaticBelow"); } }
void d_insert_noalloc() { PRE(v, n); LEN(k); vp_assume(k > 0 && n + k <= v.capacity()); vp_assume(v.is_static() || n + k >= RB); E x; auto d = v.data(); v.insert(v.end(), k, x); ST(v.data() == d, "inserting within the capacity keeps the buffer"); }
void d_resize_own_val() { PRE(v, n); LEN(m); vp_assume(m < n); LEN(j); vp_assume(j < n); v.resize(m, v[j]); UNCHANGED(v, m); inv(v); }
}
// ---- operations which fit in the capacity leave the elements where they are
extern "C" {
#define SPARE PRE(v, n); vp_assume(n < v.capacity() && (v.is_static() || n + 1 >= RB)); auto d = v.data(); auto oc = v.capacity()
#define KEPT ST(v.data() == d && v.capacity() == oc, "an addition which fits in the capacity keeps the buffer"); inv(v)
void d_keep_push() { SPARE; E x; v.push_back(x); KEPT; }
void d_keep_push_move() { SPARE; E x; v.push_back(std::move(x)); KEPT; }
void d_keep_emplace_back() { SPARE; v.emplace_back(); KEPT; }
void d_keep_insert() { SPARE; E x; LEN(i); vp_assume(i <= n); v.insert(v.begin() + i, x); KEPT; }
void d_keep_emplace() { SPARE; LEN(i); vp_assume(i <= n); v.emplace(v.begin() + i); KEPT; }
void d_keep_resize() { SPARE; LEN(k); vp_assume(n < k && k <= oc); v.resize(k); KEPT; }
void d_keep_pop() { PRE(v, n); vp_assume(n > 0 && (v.is_static() || n > RB)); auto d = v.data(); auto oc = v.capacity(); v.pop_back(); ST(v.data() == d && v.capacity() == oc, "the buffer is kept when the size doesn't drop below RevertToStaticBelow"); inv(v); }
}
// ---- growth: room for a number of elements in proportion to the size, so that appending n elements takes O(n) moves
extern "C" {
#define FULL PRE(v, n); vp_assume(n == v.capacity() && n >= 16 && n > SC); const size_t oc = v.capacity()
#define GROWN vp_check(v.capacity() >= oc + oc / 8, "growth", "a full vector grows by a part of its capacity")
void d_g_push_copy() { FULL; E x; v.push_back(x); GROWN; }
void d_g_push_move() { FULL; E x; v.push_back(std::move(x)); GROWN; }
void d_g_emplace_back() { FULL; v.emplace_back(); GROWN; }
void d_g_insert() { FULL; E x; v.insert(v.end(), x); GROWN; }
void d_g_emplace() { FULL; v.emplace(v.end()); GROWN; }
}
// over-aligned elements
using VO = itlib::small_vector<VpOver, 2>;
static_assert(alignof(VO) >= alignof(VpOver), "the internal buffer is aligned for the elements");
extern "C" void d_over_aligned() { VO v; vp_check(((const char*)v.data() - (const char*)&v) % alignof(VpOver) == 0, "storage", "the internal buffer is aligned for the elements"); }
