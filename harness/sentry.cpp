#include "vp.hpp"
#include <itlib/sentry.hpp>
#include <exception>
using namespace itlib;
#define CK(c, msg) vp_check((c), "calls", msg)
#define CALLS(n) vp_ghost_get(n)
// a function object with an opaque state whose lifetime is tracked
struct Fn {
    VpE e;
    Fn() {}
    Fn(const Fn& o) : e(o.e) {}
    Fn(Fn&& o) noexcept : e(std::move(o.e)) {}
    void operator()() { vp_live(&e, 1, "the function object is alive when called"); vp_is(e, "f", "the function object called holds the state it was given"); vp_ghost_inc("calls"); }
};
struct Ref { void operator()() { vp_ghost_inc("calls"); } VpE e; };
static void once(bool leave) { Fn f; vp_name(f.e, "f"); { auto s = make_sentry(std::move(f)); CK(CALLS("calls") == 0, "the function isn't called before the end of the scope"); if (leave) return; } CK(CALLS("calls") == 1, "the function is called once at the end of the scope"); }
extern "C" {
void d_scope() { vp_ghost_set("calls", 0); once(vp_bool("leave")); CK(CALLS("calls") == 1, "the function is called exactly once however the scope is left"); }
void d_exception() { vp_ghost_set("calls", 0); try { Fn f; vp_name(f.e, "f"); auto s = make_sentry(std::move(f)); if (vp_bool("b")) throw 5; } catch (int) { CK(CALLS("calls") == 1, "the function is called before the exception is handled"); } CK(CALLS("calls") == 1, "the function is called exactly once however the scope is left"); }
void d_direct() { vp_ghost_set("calls", 0); { Fn f; vp_name(f.e, "f"); sentry<Fn> s(std::move(f)); vp_is(f.e, "moved", "the function object is moved into the sentry"); } CK(CALLS("calls") == 1, "the function is called exactly once"); }
void d_lvalue() { vp_ghost_set("calls", 0); Ref f; { auto s = make_sentry(f); CK(CALLS("calls") == 0, "the function isn't called before the end of the scope"); } CK(CALLS("calls") == 1, "the function is called exactly once"); vp_live(&f.e, 1, "a function given by reference stays alive"); }
void d_order() { int a = 0, b = 0, n = 0; { auto s = make_sentry([&] { a = ++n; }); auto t = make_sentry([&] { b = ++n; }); } CK(b == 1 && a == 2, "sentries run in reverse order of creation"); }
void d_captures() { int x = vp_int("x"); int y = 0; { auto s = make_sentry([&y, x] { y = x; }); CK(y == 0, "the function isn't called before the end of the scope"); } CK(y == x, "the function called has its captures"); }
static sentry<Fn> give(Fn&& f) { return make_sentry(std::move(f)); }
void d_return() { vp_ghost_set("calls", 0); { Fn f; vp_name(f.e, "f"); auto s = give(std::move(f)); CK(CALLS("calls") == 0, "returning a sentry from a function doesn't call it"); } CK(CALLS("calls") == 1, "the function is called exactly once"); }
#if __cplusplus < 201700
void d_move() { vp_ghost_set("calls", 0); { Fn f; vp_name(f.e, "f"); sentry<Fn> s(std::move(f)); { sentry<Fn> t(std::move(s)); CK(CALLS("calls") == 0, "moving a sentry doesn't call it"); } CK(CALLS("calls") == 1, "the sentry moved to calls the function"); } CK(CALLS("calls") == 1, "the sentry moved from doesn't call the function"); }
void d_move2() { vp_ghost_set("calls", 0); { Fn f; vp_name(f.e, "f"); sentry<Fn> s(std::move(f)); sentry<Fn> t(std::move(s)); sentry<Fn> u(std::move(t)); } CK(CALLS("calls") == 1, "the function is called exactly once through any chain of moves"); }
void d_move_again() { vp_ghost_set("calls", 0); { Fn f; vp_name(f.e, "f"); sentry<Fn> s(std::move(f)); sentry<Fn> t(std::move(s)); { sentry<Fn> u(std::move(s)); } CK(CALLS("calls") == 0, "a sentry which has been moved from has nothing to give"); } CK(CALLS("calls") == 1, "the function is called exactly once through any chain of moves"); }
void d_move_ref() { vp_ghost_set("calls", 0); Ref f; { auto s = make_sentry(f); auto t = std::move(s); CK(CALLS("calls") == 0, "moving a sentry doesn't call it"); } CK(CALLS("calls") == 1, "the function is called exactly once"); vp_live(&f.e, 1, "a function given by reference stays alive"); }
#endif
}
