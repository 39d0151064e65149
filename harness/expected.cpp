#include "vp.hpp"
#include <itlib/expected.hpp>
#include <type_traits>
using namespace itlib;
// Every driver starts from an arbitrary state (value or error) of one specialisation. "active" obligations say
// which alternative is held, "content" which value it has; lifetime of the alternatives is tracked throughout.
#define ACT(c, msg) vp_check((c), "active", msg)
#define HAS(x, hv) ACT((x).has_value() == (hv) && (x).has_error() == !(hv) && static_cast<bool>(x) == (hv), "has_value, has_error and bool tell which alternative is held")

// ---- expected<T, E>
#ifndef XT
#define XT VpE
#endif
#ifndef XE
#define XE VpF
#endif
using X = expected<XT, XE>;
static X mk(bool hv) { if (hv) return X(XT()); return X(unexpected(XE())); }
#define PRE(x) bool hv_##x = vp_bool("hv_" #x); X x = mk(hv_##x); if (hv_##x) vp_name(*x, #x); else vp_name(x.error(), #x)
#define IS(x, hv, label, msg) do { HAS(x, hv); if (hv) { vp_is(*(x), label, msg); vp_is((x).value(), label, msg); } else { vp_is((x).error(), label, msg); } } while (0)
static_assert(!std::is_same<XT, int>::value, "");
extern "C" {
void d_te_default() { X x; HAS(x, true); vp_is(*x, "default", "default constructed value"); }
void d_te_value() { XT t; vp_name(t, "t"); X x(std::move(t)); IS(x, true, "t", "the value it was constructed from"); vp_is(t, "moved", "the source value was moved from"); }
void d_te_error() { XE e; vp_name(e, "e"); X x(unexpected(std::move(e))); IS(x, false, "e", "the error it was constructed from"); vp_is(e, "moved", "the source error was moved from"); }
void d_te_error_lv() { XE e; vp_name(e, "e"); X x(unexpected(e)); IS(x, false, "e", "the error it was constructed from"); vp_is(e, "e", "an error passed as an lvalue is copied"); }
void d_te_error_clv() { XE e; vp_name(e, "e"); const XE& c = e; X x(unexpected(c)); IS(x, false, "e", "the error it was constructed from"); vp_is(e, "e", "an error passed as an lvalue is copied"); }
void d_te_error_default() { X x = unexpected(); IS(x, false, "default", "unexpected() gives a default constructed error"); }
void d_te_error_conv() { VpE e; vp_name(e, "e"); { expected<XT, VpC> x(unexpected(std::move(e))); HAS(x, false); vp_is(x.error(), "from:e", "an error constructed from another type"); vp_is(e, "moved", "the source error was moved from"); } }
void d_te_error_conv_lv() { VpE e; vp_name(e, "e"); { expected<XT, VpC> x(unexpected(e)); HAS(x, false); vp_is(x.error(), "from:e", "an error constructed from another type"); vp_is(e, "e", "an error passed as an lvalue is copied"); } }
void d_te_move_ctor() { PRE(x); X y(std::move(x)); IS(y, hv_x, "x", "move construction transfers the content"); IS(x, hv_x, "moved", "the source keeps its alternative, moved from"); }
void d_te_move_assign() { PRE(x); PRE(y); X& r = (x = std::move(y)); ACT(&r == &x, "assignment returns the target"); IS(x, hv_y, "y", "move assignment transfers the content"); IS(y, hv_y, "moved", "the source keeps its alternative, moved from"); }
void d_te_move_assign_self() { PRE(x); X& r = x; x = std::move(r); HAS(x, hv_x); if (hv_x) vp_live(&*x, 1, "self assignment keeps the alternative alive"); else vp_live(&x.error(), 1, "self assignment keeps the alternative alive"); }
void d_te_assign_value() { PRE(x); XT t; vp_name(t, "t"); x = std::move(t); IS(x, true, "t", "the value assigned"); }
void d_te_assign_error() { PRE(x); XE e; vp_name(e, "e"); x = unexpected(std::move(e)); IS(x, false, "e", "the error assigned"); }
void d_te_assign_unexpected() { PRE(x); x = unexpected(); IS(x, false, "default", "the error assigned"); }
void d_te_access() { PRE(x); const X& c = x; HAS(c, hv_x);
    if (hv_x) { XT* p = &*x; ACT(&x.value() == p && &c.value() == p && &*c == p && x.operator->() == p && c.operator->() == p, "all getters lead to the same value");
        XT&& a = std::move(x).value(); XT&& b = *std::move(x); ACT(&a == p && &b == p, "rvalue getters lead to the same value"); }
    else { XE* p = &x.error(); ACT(&c.error() == p, "all getters lead to the same error"); XE&& a = std::move(x).error(); ACT(&a == p, "rvalue getters lead to the same error"); }
    IS(x, hv_x, "x", "access changes nothing"); }
void d_te_take() { PRE(x); if (hv_x) { XT t = *std::move(x); vp_is(t, "x", "moving out of *x"); IS(x, true, "moved", "the value was moved from"); } else { XE e = std::move(x).error(); vp_is(e, "x", "moving out of error()"); IS(x, false, "moved", "the error was moved from"); } }
void d_te_take2() { PRE(x); if (hv_x) { XT t = std::move(x).value(); vp_is(t, "x", "moving out of value()"); } }
void d_te_value_or() { PRE(x); XT t; vp_name(t, "t"); XT r = x.value_or(t); vp_is(r, hv_x ? "x" : "t", "value_or gives the value, or the alternative if there is none"); IS(x, hv_x, "x", "value_or of an lvalue changes nothing"); vp_is(t, "t", "value_or doesn't move from an lvalue argument"); }
void d_te_value_or_rv() { PRE(x); XT t; vp_name(t, "t"); const X& c = x; XT r = c.value_or(std::move(t)); vp_is(r, hv_x ? "x" : "t", "value_or gives the value, or the alternative if there is none"); IS(x, hv_x, "x", "value_or of an lvalue changes nothing"); if (hv_x) vp_is(t, "t", "value_or moves its argument only when it is used"); }
void d_te_value_or_move() { PRE(x); XT t; vp_name(t, "t"); XT r = std::move(x).value_or(t); vp_is(r, hv_x ? "x" : "t", "value_or gives the value, or the alternative if there is none"); if (hv_x) IS(x, true, "moved", "value_or of an rvalue moves the value out"); else IS(x, false, "x", "value_or doesn't touch the error"); vp_is(t, "t", "value_or doesn't move from an lvalue argument"); }
void d_te_value_or_throw() { PRE(x); XT t; vp_name(t, "t"); vp_throws("copy"); try { XT r = x.value_or(t); vp_is(r, hv_x ? "x" : "t", "value_or gives the value, or the alternative if there is none"); } catch (...) {} IS(x, hv_x, "x", "value_or which throws changes nothing"); }
void d_te_return() { bool b = vp_bool("b"); struct F { static X f(bool b) { XE e; vp_name(e, "e"); if (b) return unexpected(e); XT t; vp_name(t, "t"); return t; } }; X x = F::f(b); IS(x, !b, b ? "e" : "t", "a function returns a value or an error by conversion"); }
#if __cplusplus >= 202002L
#endif
}
// ---- trivial alternatives
using XI = expected<int, long>;
extern "C" {
void d_ii_all() { int a = vp_int("a"); long b = vp_long("b"); bool h = vp_bool("h"), g = vp_bool("g"); int c = a;
    XI x = h ? XI(std::move(c)) : XI(unexpected(b)); HAS(x, h); if (h) VP_CONTENT(*x == a, "value"); else VP_CONTENT(x.error() == b, "error");
    int a2 = vp_int("a2"); long b2 = vp_long("b2"); int c2 = a2; XI y = g ? XI(std::move(c2)) : XI(unexpected(b2));
    VP_CONTENT(x.value_or(a2) == (h ? a : a2), "value_or");
    x = std::move(y); HAS(x, g); if (g) VP_CONTENT(*x == a2, "value assigned"); else VP_CONTENT(x.error() == b2, "error assigned");
    XI z(std::move(x)); HAS(z, g); if (g) VP_CONTENT(*z == a2, "value moved"); else VP_CONTENT(z.error() == b2, "error moved");
    XI w; HAS(w, true); VP_CONTENT(*w == 0, "default value"); XI u = unexpected(); HAS(u, false); VP_CONTENT(u.error() == 0, "default error"); }
}
// ---- expected<T&, E>
using XR = expected<XT&, XE>;
static XR mkr(bool hv, XT& t) { if (hv) return XR(t); return XR(unexpected(XE())); }
#define PRER(x) XT t_##x; vp_name(t_##x, "t_" #x); bool hv_##x = vp_bool("hv_" #x); XR x = mkr(hv_##x, t_##x); if (!hv_##x) vp_name(x.error(), #x)
#define ISR(x, hv, t, label, msg) do { HAS(x, hv); if (hv) { ACT(&*(x) == &(t) && &(x).value() == &(t) && (x).operator->() == &(t), "it refers to the object it was given"); } else vp_is((x).error(), label, msg); } while (0)
extern "C" {
void d_re_value() { XT t; vp_name(t, "t"); { XR x(t); ISR(x, true, t, "", ""); } vp_is(t, "t", "the object referred to is not touched"); }
void d_re_error() { XE e; vp_name(e, "e"); XR x(unexpected(std::move(e))); XT t; ISR(x, false, t, "e", "the error it was constructed from"); }
void d_re_error_lv() { XE e; vp_name(e, "e"); XR x(unexpected(e)); XT t; ISR(x, false, t, "e", "the error it was constructed from"); vp_is(e, "e", "an error passed as an lvalue is copied"); }
void d_re_error_default() { XR x = unexpected(); XT t; ISR(x, false, t, "default", "unexpected() gives a default constructed error"); }
void d_re_move_ctor() { PRER(x); XR y(std::move(x)); ISR(y, hv_x, t_x, "x", "move construction transfers the content"); HAS(x, hv_x); if (!hv_x) vp_is(x.error(), "moved", "the source error was moved from"); vp_is(t_x, "t_x", "the object referred to is not touched"); }
void d_re_move_assign() { PRER(x); PRER(y); XR& r = (x = std::move(y)); ACT(&r == &x, "assignment returns the target"); ISR(x, hv_y, t_y, "y", "move assignment transfers the content"); HAS(y, hv_y); vp_is(t_x, "t_x", "assignment rebinds"); vp_is(t_y, "t_y", "assignment rebinds"); }
void d_re_move_assign_self() { PRER(x); XR& r = x; x = std::move(r); HAS(x, hv_x); if (hv_x) ACT(&*x == &t_x, "self assignment keeps the reference"); else vp_live(&x.error(), 1, "self assignment keeps the error alive"); }
void d_re_access() { PRER(x); const XR& c = x; XT o; HAS(c, hv_x); ACT(&x.value_or(o) == (hv_x ? &t_x : &o) && &c.value_or(o) == (hv_x ? &t_x : &o), "value_or gives the object or its argument");
    if (hv_x) ACT(&*c == &t_x && &c.value() == &t_x && c.operator->() == &t_x, "it refers to the object it was given"); else { XE* p = &x.error(); XE&& a = std::move(x).error(); ACT(&c.error() == p && &a == p, "all getters lead to the same error"); vp_is(x.error(), "x", "access changes nothing"); } }
}
// ---- expected<void, E>
using XV = expected<void, XE>;
static XV mkv(bool hv) { if (hv) return XV(); return XV(unexpected(XE())); }
#define PREV(x) bool hv_##x = vp_bool("hv_" #x); XV x = mkv(hv_##x); if (!hv_##x) vp_name(x.error(), #x)
#define ISV(x, hv, label, msg) do { HAS(x, hv); if (!(hv)) vp_is((x).error(), label, msg); } while (0)
extern "C" {
void d_ve_default() { XV x; HAS(x, true); }
void d_ve_error() { XE e; vp_name(e, "e"); XV x(unexpected(std::move(e))); ISV(x, false, "e", "the error it was constructed from"); }
void d_ve_error_lv() { XE e; vp_name(e, "e"); XV x(unexpected(e)); ISV(x, false, "e", "the error it was constructed from"); vp_is(e, "e", "an error passed as an lvalue is copied"); }
void d_ve_error_default() { XV x = unexpected(); ISV(x, false, "default", "unexpected() gives a default constructed error"); }
void d_ve_move_ctor() { PREV(x); XV y(std::move(x)); ISV(y, hv_x, "x", "move construction transfers the content"); ISV(x, hv_x, "moved", "the source error was moved from"); }
void d_ve_move_assign() { PREV(x); PREV(y); XV& r = (x = std::move(y)); ACT(&r == &x, "assignment returns the target"); ISV(x, hv_y, "y", "move assignment transfers the content"); ISV(y, hv_y, "moved", "the source error was moved from"); }
void d_ve_move_assign_self() { PREV(x); XV& r = x; x = std::move(r); HAS(x, hv_x); if (!hv_x) vp_live(&x.error(), 1, "self assignment keeps the error alive"); }
void d_ve_access() { PREV(x); const XV& c = x; HAS(c, hv_x); if (!hv_x) { XE* p = &x.error(); XE&& a = std::move(x).error(); ACT(&c.error() == p && &a == p, "all getters lead to the same error"); vp_is(x.error(), "x", "access changes nothing"); } }
}
// ---- expected<T, void>
using XO = expected<XT, void>;
static XO mko(bool hv) { if (hv) return XO(XT()); return XO(unexpected()); }
#define PREO(x) bool hv_##x = vp_bool("hv_" #x); XO x = mko(hv_##x); if (hv_##x) vp_name(*x, #x)
#define ISO(x, hv, label, msg) do { HAS(x, hv); if (hv) vp_is(*(x), label, msg); } while (0)
extern "C" {
void d_tv_default() { XO x; ISO(x, true, "default", "default constructed value"); XO y = unexpected(); HAS(y, false); }
void d_tv_value() { XT t; vp_name(t, "t"); XO x(std::move(t)); ISO(x, true, "t", "the value it was constructed from"); vp_is(t, "moved", "the source value was moved from"); }
void d_tv_copy_ctor() { PREO(x); vp_throws("copy"); try { XO y(x); ISO(y, hv_x, "x", "copy construction copies the content"); } catch (...) {} ISO(x, hv_x, "x", "copying leaves the source"); }
void d_tv_copy_assign() { PREO(x); PREO(y); XO& r = (x = y); ACT(&r == &x, "assignment returns the target"); ISO(x, hv_y, "y", "copy assignment copies the content"); ISO(y, hv_y, "y", "copying leaves the source"); }
void d_tv_copy_assign_throw() { PREO(x); PREO(y); vp_throws("copy,copyassign"); try { x = y; ISO(x, hv_y, "y", "copy assignment copies the content"); } catch (...) { if (!hv_x) HAS(x, false); } if (x.has_value()) vp_live(&*x, 1, "the value held is alive"); ISO(y, hv_y, "y", "copying leaves the source"); }
void d_tv_copy_assign_self() { PREO(x); XO& r = x; x = r; ISO(x, hv_x, "x", "self assignment changes nothing"); }
void d_tv_move_ctor() { PREO(x); XO y(std::move(x)); ISO(y, hv_x, "x", "move construction transfers the content"); ISO(x, hv_x, "moved", "the source value was moved from"); }
void d_tv_move_assign() { PREO(x); PREO(y); XO& r = (x = std::move(y)); ACT(&r == &x, "assignment returns the target"); ISO(x, hv_y, "y", "move assignment transfers the content"); ISO(y, hv_y, "moved", "the source value was moved from"); }
void d_tv_move_assign_self() { PREO(x); XO& r = x; x = std::move(r); HAS(x, hv_x); if (hv_x) vp_live(&*x, 1, "self assignment keeps the value alive"); }
void d_tv_clear() { PREO(x); x.clear(); HAS(x, false); x.clear(); HAS(x, false); }
void d_tv_emplace() { PREO(x); XT t; vp_name(t, "t"); x.emplace(t); ISO(x, true, "t", "emplace constructs the value"); vp_is(t, "t", "emplace forwards an lvalue"); }
void d_tv_emplace_rv() { PREO(x); XT t; vp_name(t, "t"); x.emplace(std::move(t)); ISO(x, true, "t", "emplace constructs the value"); vp_is(t, "moved", "emplace forwards an rvalue"); }
void d_tv_emplace0() { PREO(x); x.emplace(); ISO(x, true, "default", "emplace constructs the value"); }
void d_tv_emplace_throw() { PREO(x); XT t; vp_name(t, "t"); vp_throws("copy"); try { x.emplace(t); ISO(x, true, "t", "emplace constructs the value"); } catch (...) { HAS(x, false); } }
void d_tv_access() { PREO(x); const XO& c = x; HAS(c, hv_x); if (hv_x) { XT* p = &*x; ACT(&x.value() == p && &c.value() == p && &*c == p && x.operator->() == p && c.operator->() == p, "all getters lead to the same value"); XT&& a = std::move(x).value(); XT&& b = *std::move(x); ACT(&a == p && &b == p, "rvalue getters lead to the same value"); } ISO(x, hv_x, "x", "access changes nothing"); }
void d_tv_value_or() { PREO(x); XT t; vp_name(t, "t"); XT r = x.value_or(t); vp_is(r, hv_x ? "x" : "t", "value_or gives the value, or the alternative if there is none"); ISO(x, hv_x, "x", "value_or of an lvalue changes nothing"); XT q = std::move(x).value_or(std::move(t)); vp_is(q, hv_x ? "x" : "t", "value_or gives the value, or the alternative if there is none"); ISO(x, hv_x, "moved", "value_or of an rvalue moves the value out"); }
void d_tv_value_or_lv() { PREO(x); XT t; vp_name(t, "t"); const XO& c = x; XT r = c.value_or(t); vp_is(r, hv_x ? "x" : "t", "value_or gives the value, or the alternative if there is none"); ISO(x, hv_x, "x", "value_or of an lvalue changes nothing"); vp_is(t, "t", "value_or doesn't move from an lvalue argument"); }
void d_tv_value_or_rv() { PREO(x); XT t; vp_name(t, "t"); const XO& c = x; XT r = c.value_or(std::move(t)); vp_is(r, hv_x ? "x" : "t", "value_or gives the value, or the alternative if there is none"); ISO(x, hv_x, "x", "value_or of an lvalue changes nothing"); if (hv_x) vp_is(t, "t", "value_or moves its argument only when it is used"); }
void d_tv_value_or_mlv() { PREO(x); XT t; vp_name(t, "t"); XT r = std::move(x).value_or(t); vp_is(r, hv_x ? "x" : "t", "value_or gives the value, or the alternative if there is none"); ISO(x, hv_x, "moved", "value_or of an rvalue moves the value out"); vp_is(t, "t", "value_or doesn't move from an lvalue argument"); }
// ---- expected<T&, void>, expected<void, void>
void d_rv_all() { XT t, u; vp_name(t, "t"); bool h = vp_bool("h"), g = vp_bool("g"); using R = expected<XT&, void>; R x = h ? R(t) : R(unexpected()); R y = g ? R(u) : R(unexpected());
    HAS(x, h); if (h) ACT(&*x == &t && &x.value() == &t && x.operator->() == &t, "it refers to the object it was given"); XT o; ACT(&x.value_or(o) == (h ? &t : &o), "value_or");
    R z(x); HAS(z, h); if (h) ACT(&*z == &t, "copies refer to the same object"); z = y; HAS(z, g); if (g) ACT(&*z == &u, "assignment rebinds"); R w(std::move(y)); HAS(w, g); if (g) ACT(&*w == &u, "moves refer to the same object");
    z.emplace(t); HAS(z, true); ACT(&*z == &t, "emplace rebinds"); z.clear(); HAS(z, false); vp_is(t, "t", "the object referred to is not touched"); }
void d_vv_all() { bool h = vp_bool("h"), g = vp_bool("g"); using R = expected<void, void>; R d; HAS(d, true); R e = unexpected(); HAS(e, false); R x = h ? R() : R(unexpected()); R y = g ? R() : R(unexpected()); HAS(x, h);
    R z(x); HAS(z, h); z = y; HAS(z, g); R w(std::move(y)); HAS(w, g); z.clear(); HAS(z, false); z.emplace(); HAS(z, true); }
}
