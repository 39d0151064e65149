#include "vp.hpp"
#include <itlib/any.hpp>
using namespace itlib;
// ALLOC 1: stateful memory resource, 0: the default allocator
#ifndef ALLOC
#define ALLOC 1
#endif
#if ALLOC
using A = VpBytes;
#define AL(v) const A al_##v(vp_int("id_" #v))
#else
using A = anyimpl::default_allocator;
#define AL(v) const A al_##v = A()
#endif
using X = any<A>;
#define TY(c, msg) vp_check((c), "type", msg)
// the kind of the value held: 0 none, 1 VpE, 2 VpF, 3 VpM (not copyable), 4 over-aligned pod
template <class T> static void holds(X& x, const char* label, const char* msg) {
    const X& c = x;
    TY(x.has_value() && static_cast<bool>(x), "a non-empty any has a value");
    TY(x.type() == typeid(T), "type() is the type stored");
    T* p = any_cast<T>(&x); const T* q = any_cast<T>(&c);
    TY(p && q == p && x.data() == p && c.data() == p && x.tdata<T>() == p && c.tdata<T>() == p, "the value is reachable by its type");
    TY(!any_cast<int>(&x) && !any_cast<VpC>(&x) && !any_cast<VpC>(&c), "no value is reachable by another type");
    TY(reinterpret_cast<uintptr_t>(p) % alignof(T) == 0, "the value is aligned for its type");
    vp_check(vp_is_heap(p), "storage", "the value lives in its own allocated block");
    vp_is(*p, label, msg);
}
static void empty(X& x) { const X& c = x; TY(!x.has_value() && !static_cast<bool>(x) && x.type() == typeid(void) && !x.data() && !c.data(), "an empty any has no value"); TY(!any_cast<VpE>(&x) && !any_cast<VpF>(&c), "no value is reachable in an empty any"); }
static void put(X& x, int k, const char* label) {
    if (k == 1) vp_name(x.emplace<VpE>(), label);
    else if (k == 2) vp_name(x.emplace<VpF>(), label);
    else if (k == 3) vp_name(x.emplace<VpM>(), label);
    else if (k == 4) vp_name(x.emplace<VpOver>(), label);
}
static void is(X& x, int k, const char* label, const char* msg) {
    if (k == 1) holds<VpE>(x, label, msg);
    else if (k == 2) holds<VpF>(x, label, msg);
    else if (k == 3) holds<VpM>(x, label, msg);
    else if (k == 4) holds<VpOver>(x, label, msg);
    else empty(x);
}
#define KIND(k, max) int k = vp_int(#k); vp_assume(k >= 0 && k <= (max)); if (k == 0) k = 0; else if (k == 1) k = 1; else if (k == 2) k = 2; else if (k == 3) k = 3; else k = 4
#define PRE(x, max) KIND(k_##x, max); AL(x); X x(al_##x); put(x, k_##x, #x)
#if ALLOC
#define SAMEALLOC(x, a) vp_check((x).get_allocator() == (a), "allocator", "the allocator kept")
#else
#define SAMEALLOC(x, a)
#endif
static_assert(!std::is_convertible<X, bool>::value, "");
extern "C" {
void d_default() { X x; empty(x); vp_check(vp_heap_count() == 0, "storage", "an empty any allocates nothing"); }
void d_alloc() { AL(x); X x(al_x); empty(x); SAMEALLOC(x, al_x); X y(std::allocator_arg, al_x); empty(y); SAMEALLOC(y, al_x); }
void d_dtor() { PRE(x, 4); SAMEALLOC(x, al_x); is(x, k_x, "x", "the value stored"); }
void d_value() { VpE e; vp_name(e, "e"); X x(std::move(e)); holds<VpE>(x, "e", "the value stored"); vp_is(e, "moved", "an rvalue is moved in"); }
void d_value_lv() { VpE e; vp_name(e, "e"); X x(e); holds<VpE>(x, "e", "the value stored"); vp_is(e, "e", "an lvalue is copied"); TY(x.data() != &e, "an lvalue is copied, not referred to"); }
void d_value_clv() { VpE e; vp_name(e, "e"); const VpE& c = e; X x(c); holds<VpE>(x, "e", "the value stored"); vp_is(e, "e", "an lvalue is copied"); }
void d_value_alloc() { AL(x); VpE e; vp_name(e, "e"); X x(std::allocator_arg, al_x, e); SAMEALLOC(x, al_x); holds<VpE>(x, "e", "the value stored"); vp_is(e, "e", "an lvalue is copied"); X y(std::allocator_arg, al_x, std::move(e)); SAMEALLOC(y, al_x); holds<VpE>(y, "e", "the value stored"); }
void d_value_moveonly() { VpM e; vp_name(e, "e"); X x(std::move(e)); holds<VpM>(x, "e", "the value stored"); }
void d_value_throw() { VpE e; vp_name(e, "e"); vp_throws("alloc,copy"); try { X x(e); holds<VpE>(x, "e", "the value stored"); } catch (...) {} vp_is(e, "e", "an lvalue is copied"); }
void d_assign_value() { PRE(x, 4); VpE e; vp_name(e, "e"); X& r = (x = std::move(e)); TY(&r == &x, "assignment returns the target"); holds<VpE>(x, "e", "the value assigned"); vp_is(e, "moved", "an rvalue is moved in"); SAMEALLOC(x, al_x); }
void d_assign_value_lv() { PRE(x, 4); VpE e; vp_name(e, "e"); x = e; holds<VpE>(x, "e", "the value assigned"); vp_is(e, "e", "an lvalue is copied"); SAMEALLOC(x, al_x); }
void d_assign_value_throw() { PRE(x, 4); VpE e; vp_name(e, "e"); vp_throws("alloc,copy"); try { x = e; holds<VpE>(x, "e", "the value assigned"); } catch (...) { TY(!x.has_value() || x.data(), "a valid any remains"); } SAMEALLOC(x, al_x); }
void d_assign_own() { AL(x); X x(al_x); vp_name(x.emplace<VpE>(), "x"); x = *x.tdata<VpE>(); holds<VpE>(x, "x", "assigning its own value"); x = std::move(*x.tdata<VpE>()); holds<VpE>(x, "x", "assigning its own value"); }
void d_reset() { PRE(x, 4); x.reset(); empty(x); SAMEALLOC(x, al_x); x.reset(); empty(x); put(x, 1, "e"); is(x, 1, "e", "a value stored after reset"); }
void d_emplace() { PRE(x, 4); VpE e; vp_name(e, "e"); VpE& r = x.emplace<VpE>(e); TY(&r == x.data(), "emplace returns the value"); holds<VpE>(x, "e", "the value emplaced"); vp_is(e, "e", "emplace forwards an lvalue"); SAMEALLOC(x, al_x); }
void d_emplace_rv() { PRE(x, 4); VpE e; vp_name(e, "e"); x.emplace<VpE>(std::move(e)); holds<VpE>(x, "e", "the value emplaced"); vp_is(e, "moved", "emplace forwards an rvalue"); }
void d_emplace_args() { PRE(x, 4); int a = vp_int("a"); x.emplace<VpE>(a); TY(x.type() == typeid(VpE), "the type emplaced"); x.emplace<VpF>(1, 2); TY(x.type() == typeid(VpF), "the type emplaced"); }
void d_emplace_throw() { PRE(x, 4); VpE e; vp_name(e, "e"); vp_throws("alloc,copy"); try { x.emplace<VpE>(e); holds<VpE>(x, "e", "the value emplaced"); } catch (...) { empty(x); } }
void d_copy_ctor() { PRE(x, 4); if (k_x == 3) { try { X y(x); vp_fail("type", "copying an any with a non-copyable value throws bad_cast"); } catch (std::bad_cast&) {} is(x, k_x, "x", "a failed copy leaves the source"); return; }
    X y(x); is(y, k_x, "x", "a copy has the value"); is(x, k_x, "x", "copying leaves the source"); if (k_x) vp_check(!vp_same_block(x.data(), y.data()), "storage", "a copy has its own block"); }
void d_copy_ctor_alloc() { PRE(x, 2); AL(y); X y(x, al_y); is(y, k_x, "x", "a copy has the value"); is(x, k_x, "x", "copying leaves the source"); SAMEALLOC(y, al_y); }
void d_copy_ctor_throw() { PRE(x, 2); vp_throws("alloc,copy"); try { X y(x); is(y, k_x, "x", "a copy has the value"); } catch (...) {} is(x, k_x, "x", "copying leaves the source"); }
void d_copy_assign() { PRE(x, 4); PRE(y, 4); X& r = x; bool threw = false; try { X& q = (x = y); TY(&q == &r, "assignment returns the target"); } catch (std::bad_cast&) { threw = true; }
    TY(threw == (k_y == 3), "copying an any with a non-copyable value throws bad_cast"); if (!threw) is(x, k_y, "y", "copy assignment copies the value"); is(y, k_y, "y", "copying leaves the source"); SAMEALLOC(x, al_x); SAMEALLOC(y, al_y); if (k_y && !threw) vp_check(!vp_same_block(x.data(), y.data()), "storage", "a copy has its own block"); }
void d_copy_assign_throw() { PRE(x, 2); PRE(y, 2); vp_throws("alloc,copy"); try { x = y; is(x, k_y, "y", "copy assignment copies the value"); } catch (...) { TY(!x.has_value() || x.data(), "a valid any remains"); } is(y, k_y, "y", "copying leaves the source"); }
void d_copy_assign_self() { PRE(x, 2); X& r = x; x = r; is(x, k_x, "x", "self assignment changes nothing"); }
void d_move_ctor() { PRE(x, 4); void* d = x.data(); X y(std::move(x)); is(y, k_x, "x", "move construction transfers the value"); TY(y.data() == d, "a move doesn't relocate the value"); empty(x); SAMEALLOC(y, al_x); put(x, 1, "e"); is(x, 1, "e", "a moved-from any is usable"); }
void d_move_assign() { KIND(k_x, 4); KIND(k_y, 4); AL(x); X x(al_x), y(al_x); put(x, k_x, "x"); put(y, k_y, "y"); void* d = y.data(); X& r = (x = std::move(y)); TY(&r == &x, "assignment returns the target"); is(x, k_y, "y", "move assignment transfers the value"); TY(x.data() == d, "a move doesn't relocate the value"); empty(y); put(y, 2, "e"); is(y, 2, "e", "a moved-from any is usable"); }
#if ALLOC
void d_move_assign_unequal_alloc() { AL(x); AL(y); X x(al_x), y(al_y); y.emplace<VpE>(); x = std::move(y); TY(x.has_value(), "move assignment transfers the value"); }
#endif
void d_move_assign_self() { PRE(x, 4); X& r = x; x = std::move(r); is(x, k_x, "x", "self move changes nothing"); }
// ---- any_cast
void d_cast() { PRE(x, 2); const X& c = x; bool threw = false; try { VpE& e = any_cast<VpE&>(x); TY(&e == x.data(), "any_cast to a reference leads to the value"); const VpE& f = any_cast<const VpE&>(c); TY(&f == x.data(), "any_cast to a reference leads to the value"); } catch (std::bad_cast&) { threw = true; } TY(threw == (k_x != 1), "any_cast throws bad_cast exactly when the type differs"); is(x, k_x, "x", "any_cast leaves the value"); }
void d_cast_copy() { PRE(x, 2); const X& c = x; bool threw = false; try { VpE e = any_cast<VpE>(x); vp_is(e, "x", "any_cast copies the value"); VpE f = any_cast<VpE>(c); vp_is(f, "x", "any_cast copies the value"); VpE g = any_cast<const VpE>(c); vp_is(g, "x", "any_cast copies the value"); } catch (std::bad_cast&) { threw = true; } TY(threw == (k_x != 1), "any_cast throws bad_cast exactly when the type differs"); is(x, k_x, "x", "any_cast leaves the value"); }
void d_cast_move() { PRE(x, 2); bool threw = false; try { VpE e = any_cast<VpE>(std::move(x)); vp_is(e, "x", "any_cast of an rvalue moves the value out"); is(x, 1, "moved", "any_cast of an rvalue moves the value out"); } catch (std::bad_cast&) { threw = true; } TY(threw == (k_x != 1), "any_cast throws bad_cast exactly when the type differs"); if (threw) is(x, k_x, "x", "a failed any_cast leaves the value"); }
void d_cast_null() { TY(!any_cast<VpE>(static_cast<X*>(nullptr)) && !any_cast<VpE>(static_cast<const X*>(nullptr)) && !any_cast<VpE>(nullptr), "any_cast of null is null"); }
// ---- conversion between allocators
void d_copy_other_alloc() { any<> o; KIND(k, 2); if (k == 1) vp_name(o.emplace<VpE>(), "o"); if (k == 2) vp_name(o.emplace<VpF>(), "o"); AL(y); X y(o, al_y); is(y, k, "o", "a copy of an any with another allocator has the value"); SAMEALLOC(y, al_y); if (k == 1) { VpE* p = any_cast<VpE>(&o); TY(p, "copying leaves the source"); vp_is(*p, "o", "copying leaves the source"); } else if (k == 2) vp_is(*any_cast<VpF>(&o), "o", "copying leaves the source"); else TY(!o.has_value(), "copying leaves the source"); }
}
