#include "vp.hpp"
#include <itlib/atomic.hpp>
#ifndef IT
#define IT int
#endif
using C = itlib::atomic_relaxed_counter<IT>;
#define AT(c, msg) vp_check((c), "atomic", msg)
// small enough for the sums to fit in the type
#define NUM(x) IT x = static_cast<IT>(vp_int(#x)); vp_assume(x >= 0 && x <= 60)
#define SHARED(c) vp_nolocks(); vp_shared(&c, sizeof(c)); vp_interfere()
#define PRE NUM(v); NUM(i); C c(v); SHARED(c)
// the operation made exactly one modification, which gave x from what was there at that moment
#define UPDATE(x) vp_quiet(); AT(vp_mods() == 1, "an update modifies the counter exactly once"); IT old = static_cast<IT>(vp_mod_old()), now = static_cast<IT>(vp_mod_new()); \
    AT(now == static_cast<IT>(x), "no update is lost: the new value comes from the value replaced"); AT(c.load() == now, "the counter has the new value")
#define READ(r, c) vp_quiet(); AT(vp_mods() == 0, "a read does not modify the counter"); AT(r == static_cast<IT>(vp_seen()), "a read gives a value the counter had")
#define IS(x) AT(c.load() == static_cast<IT>(x), "the counter has the value of the integer operation")
extern "C" {
void d_ctor() { NUM(v); C c(v); IS(v); }
void d_load() { PRE; IT r = c.load(); READ(r, c); }
void d_conv() { PRE; IT r = c; READ(r, c); }
void d_load_alone() { NUM(v); const C c(v); IS(v); IT r = c; AT(r == v, "conversion gives the value"); IS(v); }
void d_store() { PRE; c.store(i); UPDATE(i); (void)old; }
void d_assign() { PRE; IT r = (c = i); UPDATE(i); (void)old; AT(r == i, "assignment gives the value assigned"); }
void d_inc() { PRE; IT r = ++c; UPDATE(old + 1); AT(r == now, "pre-increment gives the new value"); }
void d_inc_post() { PRE; IT r = c++; UPDATE(old + 1); AT(r == old, "post-increment gives the old value"); }
void d_dec() { PRE; IT r = --c; UPDATE(old - 1); AT(r == now, "pre-decrement gives the new value"); }
void d_dec_post() { PRE; IT r = c--; UPDATE(old - 1); AT(r == old, "post-decrement gives the old value"); }
void d_add() { PRE; IT r = (c += i); UPDATE(old + i); AT(r == now, "+= gives the new value"); }
void d_sub() { PRE; IT r = (c -= i); UPDATE(old - i); AT(r == now, "-= gives the new value"); }
void d_copy() { PRE; C d(c); READ(d.load(), c); IT n = d.load(); d.store(static_cast<IT>(n + 1)); AT(c.load() != d.load() || c.load() != n, "a copy is independent"); }
void d_copy_assign() { NUM(v); NUM(w); C c(v); C d(w); vp_nolocks(); vp_shared(&c, sizeof(c)); vp_interfere(); C& r = (c = d); UPDATE(w); (void)old; AT(&r == &c && d.load() == w, "copy assignment leaves the source"); }
void d_copy_assign_from() { NUM(v); NUM(w); C c(v); C d(w); vp_nolocks(); vp_shared(&d, sizeof(d)); vp_interfere(); c = d; READ(c.load(), d); }
}
