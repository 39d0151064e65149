#include "vp.hpp"
#include <itlib/static_vector.hpp>
#include <stdexcept>
#ifndef CAP
#define CAP 1000
#endif
#ifndef ET
#define ET VpE
#endif
using E = ET;
using V = itlib::static_vector<E, CAP>;
#define ROOM(total) vp_assume((total) <= CAP)
static void inv(V& v) {
    vp_check(v.size() <= v.capacity() && v.capacity() == CAP && v.max_size() == CAP, "storage", "size() never exceeds the capacity");
    vp_check(v.end() == v.data() + v.size() && v.begin() == v.data(), "storage", "begin/end/data/size agree");
    vp_check(v.empty() == (v.size() == 0), "storage", "empty() agrees with size()");
    vp_check(vp_in_object(v.data(), &v, sizeof(v)), "storage", "the buffer lies inside the object");
    vp_live(v.data(), v.size(), "every element counted by size() is alive");
    vp_raw(v.data() + v.size(), CAP - v.size(), "no live element beyond size()");
}
#define PRE(v, n) V v; size_t n = vp_size(#n); vp_assume(n <= CAP); v.resize(n); vp_label(v.data(), n, #v)
#include "vec_ops.inc"

// ---- operations which would exceed the capacity: out_of_range is thrown, nothing is modified
#define OVER(op) bool threw = false; try { op; } catch (const std::out_of_range&) { threw = true; } \
    vp_check(threw, "capacity", "exceeding the capacity throws std::out_of_range")
#define SAME vp_check(v.size() == n, "capacity", "an operation exceeding the capacity keeps the size"); vp_seq(v.data(), n, "v", 0, "an operation exceeding the capacity keeps the elements"); inv(v)
extern "C" {
void d_o_ctor_count() { size_t n = vp_anysize("n"); vp_assume(n > CAP); OVER(V v(n)); }
void d_o_ctor_fill() { size_t n = vp_anysize("n"); vp_assume(n > CAP); E x; OVER(V v(n, x)); }
void d_o_ctor_range() { LEN(n); vp_assume(n > CAP); SRC(src, n); OVER(V v((const E*)src, (const E*)src + n)); }
void d_o_ctor_ilist() { LEN(n); vp_assume(n > CAP); SRC(src, n); OVER(V v(vp_ilist<E>(src, n))); }
void d_o_assign_fill() { PRE(v, n); size_t m = vp_anysize("m"); vp_assume(m > CAP); E x; OVER(v.assign(m, x)); inv(v); }
void d_o_assign_range() { PRE(v, n); LEN(m); vp_assume(m > CAP); SRC(src, m); OVER(v.assign((const E*)src, (const E*)src + m)); inv(v); }
void d_o_assign_ilist() { PRE(v, n); LEN(m); vp_assume(m > CAP); SRC(src, m); OVER(v.assign(vp_ilist<E>(src, m))); inv(v); }
void d_o_push_copy() { PRE(v, n); vp_assume(n == CAP); E x; OVER(v.push_back((const E&)x)); SAME; }
void d_o_push_move() { PRE(v, n); vp_assume(n == CAP); E x; vp_label(&x, 1, "x"); OVER(v.push_back(std::move(x))); SAME; vp_const(&x, 1, "x", 0, "a push_back exceeding the capacity leaves the argument"); }
void d_o_emplace_back() { PRE(v, n); vp_assume(n == CAP); E x; OVER(v.emplace_back(x)); SAME; }
void d_o_emplace() { PRE(v, n); LEN(i); vp_assume(n == CAP && i <= n); E x; OVER(v.emplace(v.begin() + i, x)); SAME; }
void d_o_insert_copy() { PRE(v, n); LEN(i); vp_assume(n == CAP && i <= n); E x; OVER(v.insert(v.begin() + i, (const E&)x)); SAME; }
void d_o_insert_move() { PRE(v, n); LEN(i); vp_assume(n == CAP && i <= n); E x; OVER(v.insert(v.begin() + i, std::move(x))); SAME; }
void d_o_insert_fill() { PRE(v, n); LEN(i); vp_assume(i <= n); size_t k = vp_anysize("k"); vp_assume(k > CAP - n); E x; OVER(v.insert(v.begin() + i, k, x)); SAME; }
void d_o_insert_range() { PRE(v, n); LEN(i); vp_assume(i <= n); LEN(k); vp_assume(k > CAP - n); SRC(src, k); OVER(v.insert(v.begin() + i, (const E*)src, (const E*)src + k)); SAME; }
void d_o_insert_ilist() { PRE(v, n); LEN(i); vp_assume(i <= n); LEN(k); vp_assume(k > CAP - n); SRC(src, k); OVER(v.insert(v.begin() + i, vp_ilist<E>(src, k))); SAME; }
void d_o_resize() { PRE(v, n); size_t m = vp_anysize("m"); vp_assume(m > CAP); OVER(v.resize(m)); SAME; }
void d_o_resize_val() { PRE(v, n); size_t m = vp_anysize("m"); vp_assume(m > CAP); E x; OVER(v.resize(m, x)); SAME; }
void d_o_convert() { itlib::static_vector<E, CAP + 7> o; LEN(n); vp_assume(n > CAP && n <= CAP + 7); o.resize(n); OVER(V v(o)); }
// ---- specific to static_vector
void d_convert() { itlib::static_vector<E, CAP + 7> o; LEN(n); vp_assume(n <= CAP); o.resize(n); vp_label(o.data(), n, "o"); V v(o); SIZE(v, n); vp_seq(v.data(), n, "o", 0, "converting constructor copies the elements"); UNCHANGED(o, n); inv(v); }
void d_swap() { PRE(v, n); PRE(o, m); v.swap(o); SIZE(v, m); SIZE(o, n); vp_seq(v.data(), m, "o", 0, "swap exchanges the elements"); vp_seq(o.data(), n, "v", 0, "swap exchanges the elements"); inv(v); inv(o); }
void d_no_heap() { LEN(n); ROOM(n); V v(n); v.clear(); V w(v); vp_check(vp_heap_count() == 0, "storage", "static_vector never allocates"); }
}
// over-aligned elements
using VO = itlib::static_vector<VpOver, 2>;
static_assert(alignof(VO) >= alignof(VpOver), "the internal buffer is aligned for the elements");
extern "C" void d_over_aligned() { VO v; vp_check(((const char*)v.data() - (const char*)&v) % alignof(VpOver) == 0, "storage", "the internal buffer is aligned for the elements"); }
