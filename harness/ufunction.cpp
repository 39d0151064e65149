#include "vp.hpp"
#include <itlib/ufunction.hpp>
#include <memory>
using namespace itlib;
#define CK(c, msg) vp_check((c), "calls", msg)
#define CALLS(n) vp_ghost_get(n)
// move-only function object with an opaque state
struct Fn {
    VpM m;
    Fn() {}
    Fn(Fn&& o) noexcept : m(std::move(o.m)) {}
    Fn& operator=(Fn&& o) noexcept { m = std::move(o.m); return *this; }
    int operator()(int a, VpE& r) { vp_is(m, "f", "the function object called holds the state it was given"); vp_is(r, "r", "arguments are passed on"); vp_ghost_inc("calls"); return a; }
};
struct Val { VpM m; Val() {} Val(Val&& o) noexcept : m(std::move(o.m)) {} VpE operator()(VpE e) { vp_is(e, "a", "an argument passed by value arrives"); VpE r; vp_name(r, "res"); vp_ghost_inc("calls"); return r; } };
struct Small { int x; int operator()(int a, VpE&) { vp_ghost_inc("calls"); return x - a; } };
// copyable, copies counted
struct Cp { VpE e; Cp() {} Cp(const Cp& o) : e(o.e) { vp_ghost_inc("copies"); } Cp(Cp&& o) noexcept : e(std::move(o.e)) {} int operator()(int a, VpE&) { vp_is(e, "f", "the function object called holds the state it was given"); vp_ghost_inc("calls"); return a; } };
struct Thr { VpM m; Thr() {} Thr(Thr&& o) noexcept : m(std::move(o.m)) {} int operator()(int, VpE&) { throw 5; } };
// an argument, copies counted
struct Ar { VpE e; Ar() {} Ar(const Ar& o) : e(o.e) { vp_ghost_inc("copies"); } Ar(Ar&& o) noexcept : e(std::move(o.e)) {} };
struct TakesV { VpM m; TakesV() {} TakesV(TakesV&& o) noexcept : m(std::move(o.m)) {} int operator()(Ar a) { vp_is(a.e, "a", "an argument passed by value arrives"); vp_ghost_inc("calls"); return 1; } };
struct TakesR { const void *x, *y, *z; int operator()(Ar& a, const Ar& b, Ar&& c) { CK(&a == x && &b == y && &c == z, "arguments passed by reference are the very objects given"); vp_ghost_inc("calls"); return 1; } };
static int fptr(int a, VpE&) { vp_ghost_inc("calls"); return a; }
using U = ufunction<int(int, VpE&)>;
static void works(U& u) { int a = vp_int("a"); VpE r; vp_name(r, "r"); vp_ghost_set("calls", 0); CK(static_cast<bool>(u), "a ufunction with a target is truthy"); int q = u(a, r); CK(CALLS("calls") == 1, "a call calls the target exactly once"); CK(q == a, "the result is passed back"); vp_is(r, "r", "arguments are passed on"); }
static void empty(U& u) { CK(!u, "an empty ufunction is falsy"); VpE r; bool threw = false; try { u(1, r); } catch (std::bad_function_call&) { threw = true; } CK(threw, "calling an empty ufunction throws bad_function_call"); }
static void fill(U& u) { Fn f; vp_name(f.m, "f"); u = std::move(f); }
extern "C" {
void d_default() { U u; empty(u); U v(nullptr); empty(v); }
void d_target() { Fn f; vp_name(f.m, "f"); U u(std::move(f)); works(u); works(u); }
void d_copyable() { vp_ghost_set("copies", 0); Cp f; vp_name(f.e, "f"); U u(std::move(f)); works(u); U v(std::move(u)); works(v); CK(CALLS("copies") == 0, "a target which is moved in is never copied"); }
void d_copyable_lv() { vp_ghost_set("copies", 0); Cp f; vp_name(f.e, "f"); U u(f); works(u); vp_is(f.e, "f", "a target given as an lvalue is copied"); CK(CALLS("copies") == 1, "a target given as an lvalue is copied once"); }
void d_fptr() { U u(&fptr); works(u); U v(std::move(u)); works(v); u = &fptr; works(u); int (*np)(int, VpE&) = nullptr; U w(np); empty(w); }
void d_small() { int x = vp_int("x"); U u(Small{x}); VpE r; int a = vp_int("b"); vp_assume(a >= 0 && x >= 0); CK(u(a, r) == x - a, "a small target works"); U v(std::move(u)); CK(v(a, r) == x - a, "a small target works after a move"); }
void d_value() { Val f; vp_name(f.m, "f"); ufunction<VpE(VpE)> u(std::move(f)); VpE a; vp_name(a, "a"); vp_ghost_set("calls", 0); VpE r = u(std::move(a)); CK(CALLS("calls") == 1, "a call calls the target exactly once"); vp_is(r, "res", "the result is passed back"); }
void d_arg_rv() { TakesV f; ufunction<int(Ar)> u(std::move(f)); Ar a; vp_name(a.e, "a"); vp_ghost_set("copies", 0); vp_ghost_set("calls", 0); u(std::move(a)); CK(CALLS("calls") == 1, "a call calls the target exactly once"); CK(CALLS("copies") == 0, "an argument given as an rvalue is moved, not copied"); }
void d_arg_lv() { TakesV f; ufunction<int(Ar)> u(std::move(f)); Ar a; vp_name(a.e, "a"); vp_ghost_set("copies", 0); vp_ghost_set("calls", 0); u(a); CK(CALLS("calls") == 1, "a call calls the target exactly once"); CK(CALLS("copies") == 1, "an argument given as an lvalue is copied once"); vp_is(a.e, "a", "an argument given as an lvalue is left as it is"); }
void d_arg_ref() { Ar a, b, c; TakesR f{&a, &b, &c}; ufunction<int(Ar&, const Ar&, Ar&&)> u(std::move(f)); vp_ghost_set("copies", 0); vp_ghost_set("calls", 0); u(a, b, std::move(c)); CK(CALLS("calls") == 1, "a call calls the target exactly once"); CK(CALLS("copies") == 0, "arguments passed by reference are not copied"); }
void d_throwing_target() { Thr f; U u(std::move(f)); VpE r; bool threw = false; try { u(1, r); } catch (int) { threw = true; } CK(threw, "exceptions of the target are passed on"); CK(static_cast<bool>(u), "a target which threw stays"); }
void d_move_ctor() { U u; if (vp_bool("full")) { fill(u); U v(std::move(u)); works(v); CK(!u, "a moved-from ufunction is empty"); fill(u); works(u); } else { U v(std::move(u)); empty(v); empty(u); } }
void d_move_assign() { U u, v; bool a = vp_bool("full_u"), b = vp_bool("full_v"); if (a) fill(u); if (b) fill(v); U& r = (u = std::move(v)); CK(&r == &u, "assignment returns the target"); CK(!v, "a moved-from ufunction is empty"); if (b) works(u); else empty(u); fill(v); works(v); }
void d_move_assign_self() { U u; bool a = vp_bool("full"); if (a) fill(u); U& r = u; u = std::move(r); if (a) works(u); else empty(u); }
void d_assign_target() { U u; if (vp_bool("full")) fill(u); Fn f; vp_name(f.m, "f"); U& r = (u = std::move(f)); CK(&r == &u, "assignment returns the target"); works(u); }
void d_assign_null() { U u; if (vp_bool("full")) fill(u); u = nullptr; empty(u); fill(u); works(u); }
void d_void() { struct V { VpM m; V() {} V(V&& o) noexcept : m(std::move(o.m)) {} int operator()() { vp_ghost_inc("calls"); return 3; } }; V f; ufunction<void()> u(std::move(f)); vp_ghost_set("calls", 0); u(); CK(CALLS("calls") == 1, "a void ufunction discards the result of its target"); }
}
static_assert(!std::is_copy_constructible<U>::value && !std::is_copy_assignable<U>::value, "a ufunction is not copyable");
static_assert(std::is_nothrow_move_constructible<U>::value && std::is_nothrow_move_assignable<U>::value, "a ufunction moves without throwing");
