#include "vp.hpp"
#include <itlib/pod_vector.hpp>
#ifndef ET
#define ET VpPod
#endif
using E = ET;
// ALLOC: 0 the default (malloc/realloc), 1 stateful with realloc, 2 stateful with expand
#ifndef ALLOC
#define ALLOC 0
#endif
#ifndef ALIGN
#define ALIGN 16
#endif
#if ALLOC
struct A {
    int id;
    explicit A(int i = 0) : id(i) {}
    using size_type = size_t;
    void* malloc(size_t n) { return vp_pmalloc(n, id); }
    void free(void* p) { if (p) vp_pfree(p, id); }
    static constexpr size_t max_size() { return ~size_t(0); }
    static constexpr bool zero_fill_new() { return true; }
    static constexpr size_t alloc_align() { return ALIGN; }
    static constexpr bool has_expand() { return ALLOC == 2; }
    bool expand(void* p, size_t n) { return vp_pexpand(p, n, id); }
    void* realloc(void* p, size_t n) { return vp_prealloc(p, n, id); }
    static constexpr size_t realloc_wasteful_copy_size() { return 4096; }
};
#define MK(v) V v(A(vp_int("id_" #v))); int aid_##v = v.get_allocator().id; (void)aid_##v
#define SAMEALLOC(v, id_) ST(v.get_allocator().id == (id_), "the allocator")
#else
using A = itlib::impl::pod_allocator;
#define MK(v) V v
#define SAMEALLOC(v, id_)
#endif
using V = itlib::pod_vector<E, A>;
#define LEN(x) size_t x = vp_size(#x)
#define SRC(p, n) E* p = vp_make<E>(n, #p)
#define ST(c, msg) vp_check((c), "storage", msg)
#define UNCHANGED(v, n) VP_CONTENT(v.size() == n, #v " keeps its size"); vp_seq(v.data(), n, #v, 0, #v " keeps its elements")
#define SIZE(v, n) VP_CONTENT(v.size() == (n), "resulting size")
#define OWNED (ALIGN >= alignof(E) && 16 >= alignof(E))
static void vp_zero(const E* p, size_t n, const char* msg) { vp_check_const_(p, n, sizeof(E), "zero", 0, "content", msg); }
static void inv(V& v) {
    ST(v.size() <= v.capacity(), "size() never exceeds capacity()");
    ST(v.end() == v.data() + v.size() && v.begin() == v.data() && v.empty() == (v.size() == 0) && v.byte_size() == v.size() * sizeof(E), "size, begin, end, data, empty, byte_size agree");
    if (v.data()) {
        ST(vp_is_heap(v.data()), "the buffer is an allocated block");
        ST(vp_block_size(v.data()) >= v.capacity() * sizeof(E), "capacity() elements fit in the buffer");
        ST(reinterpret_cast<uintptr_t>(v.data()) % alignof(E) == 0, "the buffer is aligned for the element type");
    } else {
        ST(v.capacity() == 0, "no buffer means no capacity");
    }
}
#define PRE(v, n) MK(v); size_t n = vp_size(#n); { size_t c = vp_size("cap_" #n); vp_assume(n <= c); v.reserve(c); v.resize(n); vp_label(v.data(), n, #v); }
#define VAL(x) E x; vp_label(&x, 1, #x)
extern "C" {
void d_ctor_default() { V v; SIZE(v, 0); ST(v.capacity() == 0 && vp_heap_count() == 0, "an empty vector allocates nothing"); inv(v); }
void d_ctor_count() { LEN(n); V v(n); SIZE(v, n); vp_zero(v.data(), n, "count constructor zero-fills"); inv(v); }
void d_ctor_fill() { LEN(n); VAL(x); V v(n, x); SIZE(v, n); vp_const(v.data(), n, "x", 0, "fill constructor copies the value"); inv(v); }
void d_ctor_range() { LEN(n); SRC(src, n); V v((const E*)src, (const E*)src + n); SIZE(v, n); vp_seq(v.data(), n, "src", 0, "range constructor copies the range"); vp_seq(src, n, "src", 0, "range constructor leaves the range"); inv(v); }
void d_ctor_range_it() { LEN(n); SRC(src, n); V v(src, src + n); SIZE(v, n); vp_seq(v.data(), n, "src", 0, "range constructor copies the range"); inv(v); }
void d_ctor_ilist() { LEN(n); SRC(src, n); V v(vp_ilist<E>(src, n)); SIZE(v, n); vp_seq(v.data(), n, "src", 0, "list constructor copies the list"); inv(v); }
void d_ctor_copy() { PRE(o, n); V v(o); SIZE(v, n); vp_seq(v.data(), n, "o", 0, "copy has the elements"); UNCHANGED(o, n); SAMEALLOC(v, aid_o); inv(v); inv(o); }
void d_ctor_move() { PRE(o, n); auto d = o.data(); auto c = o.capacity(); V v(std::move(o)); SIZE(v, n); vp_seq(v.data(), n, "o", 0, "move construction transfers the elements"); ST(v.data() == d && v.capacity() == c, "move construction takes over the buffer"); VP_CONTENT(o.size() == 0, "moved-from vector is empty"); ST(o.capacity() == 0, "moved-from vector has no buffer"); SAMEALLOC(v, aid_o); inv(v); inv(o); o.push_back(E()); }
void d_copy_assign() { PRE(v, n); PRE(o, m); V& r = (v = o); VP_CONTENT(&r == &v, "assignment returns the vector"); SIZE(v, m); vp_seq(v.data(), m, "o", 0, "copy assignment copies the elements"); UNCHANGED(o, m); inv(v); inv(o); }
void d_copy_assign_self() { PRE(v, n); V& r = v; v = r; UNCHANGED(v, n); inv(v); }
void d_move_assign() { PRE(v, n); PRE(o, m); auto d = o.data(); V& r = (v = std::move(o)); VP_CONTENT(&r == &v, "assignment returns the vector"); SIZE(v, m); vp_seq(v.data(), m, "o", 0, "move assignment transfers the elements"); ST(v.data() == d, "move assignment takes over the buffer"); VP_CONTENT(o.size() == 0, "moved-from vector is empty"); SAMEALLOC(v, aid_o); inv(v); inv(o); }
void d_move_assign_self() { PRE(v, n); V& r = v; v = std::move(r); UNCHANGED(v, n); inv(v); }
void d_assign_fill() { PRE(v, n); LEN(m); VAL(x); v.assign(m, x); SIZE(v, m); vp_const(v.data(), m, "x", 0, "assign(n,val)"); inv(v); }
void d_assign_range() { PRE(v, n); LEN(m); SRC(src, m); v.assign((const E*)src, (const E*)src + m); SIZE(v, m); vp_seq(v.data(), m, "src", 0, "assign(first,last)"); vp_seq(src, m, "src", 0, "assign leaves the range"); inv(v); }
void d_assign_ilist() { PRE(v, n); LEN(m); SRC(src, m); v.assign(vp_ilist<E>(src, m)); SIZE(v, m); vp_seq(v.data(), m, "src", 0, "assign(list)"); inv(v); }
void d_access() { PRE(v, n); LEN(i); vp_assume(i < n); const V& c = v; const E* d = v.data();
    VP_CONTENT(&v.at(i) == d + i && &c.at(i) == d + i && &v[i] == d + i && &c[i] == d + i, "at(i) and [i] are element i");
    VP_CONTENT(&v.front() == d && &c.front() == d, "front() is element 0");
    VP_CONTENT(&v.back() == d + (n - 1) && &c.back() == d + (n - 1), "back() is the last element"); UNCHANGED(v, n); }
void d_iter() { PRE(v, n); const V& c = v; const E* d = v.data();
    VP_CONTENT(c.data() == d && v.begin() == d && c.begin() == d && v.cbegin() == d && c.cbegin() == d, "begin() is data()");
    VP_CONTENT(v.end() == d + n && c.end() == d + n && v.cend() == d + n, "end() is data()+size()");
    VP_CONTENT(v.rbegin().base() == d + n && c.rbegin().base() == d + n && v.crbegin().base() == d + n, "rbegin() is reversed end()");
    VP_CONTENT(v.rend().base() == d && c.rend().base() == d && v.crend().base() == d, "rend() is reversed begin()");
    VP_CONTENT(v.size() == n && c.empty() == (n == 0), "size() and empty()"); UNCHANGED(v, n); }
void d_clear() { PRE(v, n); auto c = v.capacity(); v.clear(); SIZE(v, 0); ST(v.capacity() == c, "clear keeps the buffer"); inv(v); }
void d_reserve() { PRE(v, n); LEN(m); auto d = v.data(); auto c = v.capacity(); bool r = v.reserve(m); UNCHANGED(v, n); ST(v.capacity() >= m, "reserve provides the capacity"); if (m <= c) { ST(!r && v.data() == d && v.capacity() == c, "reserve below the capacity does nothing"); } ST(r == (d != v.data()), "reserve returns whether iterators were invalidated"); inv(v); }
void d_shrink() { PRE(v, n); auto d = v.data(); bool r = v.shrink_to_fit(); UNCHANGED(v, n); ST(v.capacity() == n, "shrink_to_fit fits the capacity to the size"); if (!r) { ST(v.data() == d, "shrink_to_fit returning false keeps iterators valid"); } inv(v); }
#define INSERTED(k, what) VP_CONTENT(v.size() == n + (k), "insertion grows the size by the count"); VP_CONTENT(it == v.begin() + i, "insertion returns the position of the first inserted element"); \
    vp_seq(v.data(), i, "v", 0, what ": prefix is kept"); vp_seq(v.data() + i + (k), n - i, "v", i, what ": suffix is shifted"); inv(v)
void d_insert() { PRE(v, n); VAL(x); LEN(i); vp_assume(i <= n); auto it = v.insert(v.begin() + i, x); vp_const(v.data() + i, 1, "x", 0, "insert: value"); INSERTED(1, "insert"); }
void d_emplace() { PRE(v, n); VAL(x); LEN(i); vp_assume(i <= n); auto it = v.emplace(v.begin() + i, x); vp_const(v.data() + i, 1, "x", 0, "emplace: value"); INSERTED(1, "emplace"); }
void d_insert_own() { PRE(v, n); LEN(i); LEN(j); vp_assume(i <= n && j < n); auto it = v.insert(v.begin() + i, v[j]); vp_const(v.data() + i, 1, "v", j, "insert of an own element: value"); INSERTED(1, "insert of an own element"); }
void d_insert_fill() { PRE(v, n); LEN(k); VAL(x); LEN(i); vp_assume(i <= n); auto it = v.insert(v.begin() + i, k, x); vp_const(v.data() + i, k, "x", 0, "insert(n,val): values"); INSERTED(k, "insert(n,val)"); }
void d_insert_own_fill() { PRE(v, n); LEN(k); LEN(i); LEN(j); vp_assume(i <= n && j < n); auto it = v.insert(v.begin() + i, k, v[j]); vp_const(v.data() + i, k, "v", j, "insert(n, own element): values"); INSERTED(k, "insert(n, own element)"); }
void d_insert_range() { PRE(v, n); LEN(k); SRC(src, k); LEN(i); vp_assume(i <= n); auto it = v.insert(v.begin() + i, (const E*)src, (const E*)src + k); vp_seq(v.data() + i, k, "src", 0, "insert(range): values"); INSERTED(k, "insert(range)"); }
void d_insert_ilist() { PRE(v, n); LEN(k); SRC(src, k); LEN(i); vp_assume(i <= n); auto it = v.insert(v.begin() + i, vp_ilist<E>(src, k)); vp_seq(v.data() + i, k, "src", 0, "insert(list): values"); INSERTED(k, "insert(list)"); }
void d_erase() { PRE(v, n); LEN(i); vp_assume(i < n); auto it = v.erase(v.begin() + i); SIZE(v, n - 1); VP_CONTENT(it == v.begin() + i, "erase returns the position");
    vp_seq(v.data(), i, "v", 0, "erase: prefix is kept"); vp_seq(v.data() + i, n - 1 - i, "v", i + 1, "erase: suffix is shifted"); inv(v); }
void d_erase_range() { PRE(v, n); LEN(i); LEN(j); vp_assume(i <= j && j <= n); auto it = v.erase(v.begin() + i, v.begin() + j); SIZE(v, n - (j - i)); VP_CONTENT(it == v.begin() + i, "erase(range) returns the position");
    vp_seq(v.data(), i, "v", 0, "erase(range): prefix is kept"); vp_seq(v.data() + i, n - j, "v", j, "erase(range): suffix is shifted"); inv(v); }
void d_push() { PRE(v, n); VAL(x); E& r = v.push_back(x); SIZE(v, n + 1); VP_CONTENT(&r == v.data() + n, "push_back returns the new element"); vp_seq(v.data(), n, "v", 0, "push_back keeps the elements"); vp_const(v.data() + n, 1, "x", 0, "push_back: value"); inv(v); }
void d_push_own() { PRE(v, n); LEN(j); vp_assume(j < n); v.push_back(v[j]); SIZE(v, n + 1); vp_seq(v.data(), n, "v", 0, "push_back keeps the elements"); vp_const(v.data() + n, 1, "v", j, "push_back of an own element: value"); inv(v); }
void d_emplace_back() { PRE(v, n); VAL(x); E& r = v.emplace_back(x); SIZE(v, n + 1); VP_CONTENT(&r == v.data() + n, "emplace_back returns the new element"); vp_seq(v.data(), n, "v", 0, "emplace_back keeps the elements"); vp_const(v.data() + n, 1, "x", 0, "emplace_back: value"); inv(v); }
void d_emplace_back0() { PRE(v, n); E& r = v.emplace_back(); SIZE(v, n + 1); VP_CONTENT(&r == v.data() + n, "emplace_back returns the new element"); vp_seq(v.data(), n, "v", 0, "emplace_back keeps the elements"); inv(v); }
void d_pop_back() { PRE(v, n); vp_assume(n > 0); v.pop_back(); SIZE(v, n - 1); vp_seq(v.data(), n - 1, "v", 0, "pop_back keeps the others"); inv(v); }
void d_resize() { PRE(v, n); LEN(m); auto d = v.data(); bool r = v.resize(m); ST(r == (d != v.data()), "resize returns whether iterators were invalidated"); SIZE(v, m); if (m <= n) { vp_seq(v.data(), m, "v", 0, "resize keeps the first elements"); } else { vp_seq(v.data(), n, "v", 0, "resize keeps the elements"); vp_zero(v.data() + n, m - n, "resize zero-fills new elements"); } inv(v); }
void d_resize_val() { PRE(v, n); LEN(m); VAL(x); v.resize(m, x); SIZE(v, m); if (m <= n) { vp_seq(v.data(), m, "v", 0, "resize keeps the first elements"); } else { vp_seq(v.data(), n, "v", 0, "resize keeps the elements"); vp_const(v.data() + n, m - n, "x", 0, "resize(n,val) copies val"); } inv(v); }
void d_resize_own() { PRE(v, n); LEN(m); LEN(j); vp_assume(j < n); v.resize(m, v[j]); SIZE(v, m); if (m > n) { vp_seq(v.data(), n, "v", 0, "resize keeps the elements"); vp_const(v.data() + n, m - n, "v", j, "resize(n, own element) copies it"); } inv(v); }
void d_swap() { PRE(v, n); PRE(o, m); auto dv = v.data(); auto dx = o.data(); v.swap(o); SIZE(v, m); SIZE(o, n); vp_seq(v.data(), m, "o", 0, "swap exchanges the elements"); vp_seq(o.data(), n, "v", 0, "swap exchanges the elements"); ST(v.data() == dx && o.data() == dv, "swap exchanges the buffers"); SAMEALLOC(v, aid_o); SAMEALLOC(o, aid_v); inv(v); inv(o); }
// ---- recasts
#if defined(RECAST)
using V2 = itlib::pod_vector<RECAST, A>;
static void inv2(V2& v) { ST(v.size() <= v.capacity(), "size() never exceeds capacity()"); if (v.data()) { ST(vp_block_size(v.data()) >= v.capacity() * sizeof(RECAST), "capacity() elements fit in the buffer"); } }
void d_recast_take() { PRE(o, n); MK(t); V2 v; auto d = o.data(); auto c = o.capacity(); v.recast_take_from(std::move(o)); VP_CONTENT(v.size() == n * sizeof(E) / sizeof(RECAST), "recast_take_from: size"); ST((void*)v.data() == (void*)d && v.capacity() == c * sizeof(E) / sizeof(RECAST), "recast_take_from takes over the buffer"); VP_CONTENT(o.size() == 0 && o.capacity() == 0, "the source of recast_take_from is empty"); inv2(v); inv(o); v.push_back(RECAST()); inv2(v); }
void d_recast_take_full() { PRE(o, n); V2 v; LEN(m); v.resize(m); v.recast_take_from(std::move(o)); inv2(v); inv(o); }
void d_recast_copy() { PRE(o, n); V2 v; v.recast_copy_from(o); VP_CONTENT(v.size() == n * sizeof(E) / sizeof(RECAST), "recast_copy_from: size"); inv2(v); UNCHANGED(o, n); inv(o); }
#endif
void d_recast_same() { PRE(o, n); PRE(v, m); v.recast_copy_from(o); UNCHANGED(o, n); SIZE(v, n); vp_seq(v.data(), n, "o", 0, "recast_copy_from copies the bytes"); }
void d_recast_take_same() { PRE(o, n); PRE(v, m); v.recast_take_from(std::move(o)); SIZE(v, n); vp_seq(v.data(), n, "o", 0, "recast_take_from transfers the bytes"); inv(v); inv(o); }
void d_recast_take_self() { PRE(v, n); v.recast_take_from(std::move(v)); UNCHANGED(v, n); inv(v); }
}
// ---- operations which fit in the capacity leave the elements where they are
extern "C" {
#define SPARE PRE(v, n); vp_assume(n < v.capacity()); auto d = v.data(); auto oc = v.capacity()
#define KEPT ST(v.data() == d && v.capacity() == oc, "an operation which fits in the capacity keeps the buffer"); inv(v)
void d_keep_push() { SPARE; E x = {}; v.push_back(x); KEPT; }
void d_keep_emplace_back() { SPARE; v.emplace_back(); KEPT; }
void d_keep_insert() { SPARE; E x = {}; LEN(i); vp_assume(i <= n); v.insert(v.begin() + i, x); KEPT; }
void d_keep_emplace() { SPARE; E x = {}; LEN(i); vp_assume(i <= n); v.emplace(v.begin() + i, x); KEPT; }
void d_keep_resize() { SPARE; LEN(k); vp_assume(k <= oc); v.resize(k); KEPT; }
void d_keep_pop() { PRE(v, n); auto d = v.data(); auto oc = v.capacity(); vp_assume(n > 0); v.pop_back(); KEPT; }
void d_keep_erase() { PRE(v, n); auto d = v.data(); auto oc = v.capacity(); LEN(i); LEN(j); vp_assume(i <= j && j <= n); v.erase(v.begin() + i, v.begin() + j); KEPT; }
void d_keep_clear() { PRE(v, n); auto d = v.data(); auto oc = v.capacity(); v.clear(); KEPT; }
void d_keep_assign() { PRE(v, n); auto d = v.data(); auto oc = v.capacity(); E x; vp_label(&x, 1, "x"); LEN(k); vp_assume(k <= oc); v.assign(k, x); KEPT; }
}
// ---- growth: room for a number of elements in proportion to the size, so that appending n elements copies O(n) elements
extern "C" {
#define FULL PRE(v, n); vp_assume(n == v.capacity() && n >= 16); const size_t oc = v.capacity()
#define GROWN vp_check(v.capacity() >= oc + oc / 8, "growth", "a full vector grows by a part of its capacity")
void d_g_push() { FULL; E x = {}; v.push_back(x); GROWN; }
void d_g_emplace_back() { FULL; v.emplace_back(); GROWN; }
void d_g_insert() { FULL; E x = {}; v.insert(v.end(), x); GROWN; }
}
