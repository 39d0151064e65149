#include "vp.hpp"
#include <itlib/data_mutex.hpp>
#include <type_traits>
#define LK(c, msg) vp_check((c), "lock", msg)
// a mutex which checks its own protocol and may fail to lock
struct Mx {
    int excl = 0, shared = 0;
    void lock() { if (vp_bool("lock_throws")) throw 5; LK(!excl && !shared, "a mutex is not locked again by the thread holding it"); excl = 1; }
    bool try_lock() { if (vp_bool("try_throws")) throw 5; if (!vp_bool("try")) return false; LK(!excl && !shared, "a mutex is not locked again by the thread holding it"); excl = 1; return true; }
    void unlock() { LK(excl == 1, "a mutex is unlocked exclusively only when locked exclusively"); excl = 0; }
    void lock_shared() { if (vp_bool("lock_throws")) throw 5; LK(!excl, "a mutex is not locked again by the thread holding it"); ++shared; }
    bool try_lock_shared() { if (vp_bool("try_throws")) throw 5; if (!vp_bool("try")) return false; LK(!excl, "a mutex is not locked again by the thread holding it"); ++shared; return true; }
    void unlock_shared() { LK(shared > 0, "a mutex is unlocked in shared mode only when locked in shared mode"); --shared; }
    ~Mx() { LK(!excl && !shared, "every lock taken is released"); }
};
// data which can tell whether its mutex is held
struct D { VpE e; int a; D(const VpE& x, int y) : e(x), a(y) {} D() : a(0) {} };
static Mx* g;    // the mutex of the object under test
struct Probe : Mx { Probe() { g = this; } };
using X = itlib::data_mutex<D, Probe>;
#define FREE LK(!g->excl && !g->shared, "the mutex is free outside the locks")
#define EXCL LK(g->excl == 1 && !g->shared, "an exclusive lock holds the mutex exclusively")
#define SHARED(n) LK(!g->excl && g->shared == (n), "a shared lock holds the mutex in shared mode")
#define PRE VpE v; vp_name(v, "v"); int a = vp_int("a"); X x(v, a); const X& c = x; (void)c; bool threw = false
#define DATA(l, msg) vp_is((*l).e, "v", msg); LK((*l).a == a && l->a == a && &l->e == &(*l).e, msg)
extern "C" {
void d_ctor() { PRE; FREE; try { { auto l = x.unique_lock(); DATA(l, "the data is constructed from the arguments"); } FREE; X y; { auto l = y.unique_lock(); vp_is(l->e, "default", "the data is constructed from the arguments"); } } catch (int) {} }
void d_unique() { PRE; try { { auto l = x.unique_lock(); EXCL; DATA(l, "a lock leads to the data"); l->a = 5; LK((*l).a == 5, "an exclusive lock gives write access"); } FREE; auto m = x.unique_lock(); LK(m->a == 5, "all locks lead to the same data"); } catch (int) { threw = true; } FREE; }
void d_unique_const() { PRE; try { { auto l = c.unique_lock(); EXCL; DATA(l, "a lock leads to the data"); } FREE; } catch (int) {} FREE; }
void d_try_unique() { PRE; try { { auto l = x.try_unique_lock(); if (l) { EXCL; DATA(l, "a lock leads to the data"); l->a = 5; } else { FREE; LK(!l.operator->(), "a failed try lock gives no access"); } } FREE; } catch (int) {} FREE; }
void d_try_unique_const() { PRE; try { { auto l = c.try_unique_lock(); if (l) { EXCL; DATA(l, "a lock leads to the data"); } else { FREE; LK(!l.operator->(), "a failed try lock gives no access"); } } FREE; } catch (int) {} FREE; }
void d_shared() { PRE; try { { auto l = x.shared_lock(); SHARED(1); DATA(l, "a lock leads to the data"); { auto m = c.shared_lock(); SHARED(2); DATA(m, "a lock leads to the data"); LK(&*l == &*m, "all locks lead to the same data"); } SHARED(1); } FREE; } catch (int) {} FREE; }
void d_try_shared() { PRE; try { { auto l = x.try_shared_lock(); if (l) { SHARED(1); DATA(l, "a lock leads to the data"); } else { FREE; LK(!l.operator->(), "a failed try lock gives no access"); } } FREE; } catch (int) {} FREE; }
void d_move_unique() { PRE; try { { auto l = x.unique_lock(); { auto m = std::move(l); EXCL; DATA(m, "a lock moved to leads to the data"); LK(!l.operator->(), "a lock moved from gives no access"); } FREE; } FREE; } catch (int) {} FREE; }
void d_move_unique_const() { PRE; try { { auto l = c.unique_lock(); { auto m = std::move(l); EXCL; DATA(m, "a lock moved to leads to the data"); } FREE; } FREE; } catch (int) {} FREE; }
void d_move_shared() { PRE; try { { auto l = x.shared_lock(); { auto m = std::move(l); SHARED(1); DATA(m, "a lock moved to leads to the data"); LK(!l.operator->(), "a lock moved from gives no access"); } FREE; } FREE; } catch (int) {} FREE; }
void d_move_try() { PRE; try { { auto l = x.try_unique_lock(); bool had = static_cast<bool>(l); { auto m = std::move(l); LK(static_cast<bool>(m) == had && !l, "a moved try lock keeps whether it holds the mutex"); if (had) EXCL; else FREE; } FREE; } FREE; { auto l = x.try_shared_lock(); bool had = static_cast<bool>(l); { auto m = std::move(l); LK(static_cast<bool>(m) == had && !l, "a moved try lock keeps whether it holds the mutex"); if (had) SHARED(1); else FREE; } FREE; } FREE; { auto l = c.try_unique_lock(); bool had = static_cast<bool>(l); { auto m = std::move(l); if (had) EXCL; } FREE; } } catch (int) {} FREE; }
void d_exception() { PRE; try { auto l = x.unique_lock(); throw 7.0; } catch (double) { FREE; } catch (int) {} FREE; try { auto l = x.shared_lock(); throw 7.0; } catch (double) { FREE; } catch (int) {} FREE; }
static X::unique_lock_t give(X& x) { return x.unique_lock(); }
void d_return() { PRE; try { auto l = give(x); EXCL; DATA(l, "a lock returned leads to the data"); } catch (int) {} FREE; }
}
template <class L> using deref = decltype(*std::declval<L&>());
template <class L> using arrow = decltype(std::declval<L&>().operator->());
#define MUT(e) static_assert(std::is_same<deref<decltype(e)>, D&>::value && std::is_same<arrow<decltype(e)>, D*>::value, "an exclusive lock of a mutable object gives write access")
#define CST(e, what) static_assert(std::is_same<deref<decltype(e)>, const D&>::value && std::is_same<arrow<decltype(e)>, const D*>::value, what)
MUT(std::declval<X&>().unique_lock()); MUT(std::declval<X&>().try_unique_lock());
CST(std::declval<const X&>().unique_lock(), "a lock of a constant object gives read access only"); CST(std::declval<const X&>().try_unique_lock(), "a lock of a constant object gives read access only");
CST(std::declval<X&>().shared_lock(), "a shared lock gives read access only"); CST(std::declval<X&>().try_shared_lock(), "a shared lock gives read access only"); CST(std::declval<const X&>().shared_lock(), "a shared lock gives read access only"); CST(std::declval<const X&>().try_shared_lock(), "a shared lock gives read access only");
#define NOCOPY(e) static_assert(!std::is_copy_constructible<decltype(e)>::value && !std::is_copy_assignable<decltype(e)>::value && !std::is_move_assignable<decltype(e)>::value, "a lock is not copyable")
NOCOPY(std::declval<X&>().unique_lock()); NOCOPY(std::declval<X&>().try_unique_lock()); NOCOPY(std::declval<const X&>().unique_lock()); NOCOPY(std::declval<X&>().shared_lock()); NOCOPY(std::declval<X&>().try_shared_lock());
static_assert(!std::is_copy_constructible<X>::value && !std::is_copy_assignable<X>::value && !std::is_move_constructible<X>::value && !std::is_move_assignable<X>::value, "a data_mutex neither copies nor moves");
