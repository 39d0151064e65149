#include "vp.hpp"
#include <itlib/make_ptr.hpp>
#include <itlib/shared_from.hpp>
#include <type_traits>
#define OWN(c, msg) vp_check((c), "ownership", msg)
using std::shared_ptr; using std::weak_ptr; using std::unique_ptr;
static_assert(std::is_same<decltype(itlib::make_shared(std::declval<VpE>())), shared_ptr<VpE>>::value && std::is_same<decltype(itlib::make_shared(std::declval<VpE&>())), shared_ptr<VpE>>::value, "make_shared gives a pointer to the type of its argument");
static_assert(std::is_same<decltype(itlib::make_unique(std::declval<VpE>())), unique_ptr<VpE>>::value && std::is_same<decltype(itlib::make_unique(std::declval<VpE&>())), unique_ptr<VpE>>::value, "make_unique gives a pointer to the type of its argument");
// an object which tells when it is destroyed
struct Obj { VpE e; VpF f; ~Obj() { vp_ghost_inc("dead"); } };
struct Me : public itlib::enable_shared_from { VpE e; VpF f; ~Me() { vp_ghost_inc("dead"); }
    shared_ptr<VpF> get() { return shared_from(&f); } shared_ptr<const VpF> getc() const { return shared_from(&f); } weak_ptr<VpF> wget() { return weak_from(&f); }
    shared_ptr<Me> self() { return shared_from(this); } shared_ptr<const Me> selfc() const { return shared_from(this); } weak_ptr<const Me> wself() const { return weak_from(this); }
    shared_ptr<void> v() { return shared_from_this(); } shared_ptr<const void> v() const { return shared_from_this(); } weak_ptr<void> w() { return weak_from_this(); } weak_ptr<const void> w() const { return weak_from_this(); } };
#define DEAD vp_ghost_get("dead")
extern "C" {
void d_make_shared() { VpE e; vp_name(e, "e"); shared_ptr<VpE> p = itlib::make_shared(std::move(e)); OWN(p && p.use_count() == 1, "make_shared gives a sole owner"); vp_is(*p, "e", "make_shared moves its argument into the object"); vp_is(e, "moved", "make_shared moves its argument into the object"); }
void d_make_shared_lv() { VpE e; vp_name(e, "e"); shared_ptr<VpE> p = itlib::make_shared(e); OWN(p && p.use_count() == 1 && p.get() != &e, "make_shared gives a sole owner"); vp_is(*p, "e", "make_shared copies an lvalue"); vp_is(e, "e", "make_shared copies an lvalue"); }
void d_make_shared_clv() { VpE e; vp_name(e, "e"); const VpE& c = e; auto p = itlib::make_shared(c); OWN(p && p.use_count() == 1, "make_shared gives a sole owner"); vp_is(*p, "e", "make_shared copies an lvalue"); vp_is(e, "e", "make_shared copies an lvalue"); }
void d_make_shared_throw() { VpE e; vp_name(e, "e"); vp_throws("alloc,copy"); try { auto p = itlib::make_shared(e); vp_is(*p, "e", "make_shared copies an lvalue"); } catch (...) {} vp_is(e, "e", "make_shared copies an lvalue"); }
void d_make_unique() { VpE e; vp_name(e, "e"); unique_ptr<VpE> p = itlib::make_unique(std::move(e)); OWN(!!p, "make_unique gives an owner"); vp_is(*p, "e", "make_unique moves its argument into the object"); vp_is(e, "moved", "make_unique moves its argument into the object"); }
void d_make_unique_lv() { VpE e; vp_name(e, "e"); unique_ptr<VpE> p = itlib::make_unique(e); OWN(p && p.get() != &e, "make_unique gives an owner"); vp_is(*p, "e", "make_unique copies an lvalue"); vp_is(e, "e", "make_unique copies an lvalue"); }
void d_make_unique_throw() { VpE e; vp_name(e, "e"); vp_throws("alloc,copy"); try { auto p = itlib::make_unique(e); vp_is(*p, "e", "make_unique copies an lvalue"); } catch (...) {} vp_is(e, "e", "make_unique copies an lvalue"); }
void d_aliased() { vp_ghost_set("dead", 0); shared_ptr<VpF> a; { shared_ptr<Obj> p = std::make_shared<Obj>(); vp_name(p->f, "f"); a = itlib::make_aliased(p, &p->f); OWN(a.get() == &p->f, "make_aliased points to the pointer it was given"); OWN(a.use_count() == 2 && p.use_count() == 2, "make_aliased shares ownership"); OWN(!p.owner_before(a) && !a.owner_before(p), "make_aliased shares ownership"); }
    OWN(DEAD == 0, "an aliased pointer keeps the owner's object alive"); vp_is(*a, "f", "an aliased pointer keeps the owner's object alive"); a.reset(); OWN(DEAD == 1, "the object is destroyed once, with its last owner"); }
void d_aliased_empty() { Obj o; shared_ptr<Obj> p; auto a = itlib::make_aliased(p, &o.f); OWN(!a && a.get() == nullptr && a.use_count() == 0, "make_aliased of no owner is null"); }
void d_aliased_nocontrol() { Obj o; shared_ptr<Obj> p(shared_ptr<Obj>(), &o); auto a = itlib::make_aliased(p, &o.f); OWN(!a && a.get() == nullptr && a.use_count() == 0, "make_aliased of an owner which owns nothing is null"); }
void d_aliased_null() { shared_ptr<Obj> p = std::make_shared<Obj>(); VpF* n = nullptr; auto a = itlib::make_aliased(p, n); OWN(a.get() == nullptr && p.use_count() == 2, "make_aliased of a null pointer shares ownership"); }
void d_from() { vp_ghost_set("dead", 0); shared_ptr<VpF> a; { auto p = std::make_shared<Me>(); vp_name(p->f, "f"); a = p->get(); OWN(a.get() == &p->f && a.use_count() == 2, "shared_from gives a co-owning pointer to its argument"); OWN(!p.owner_before(a) && !a.owner_before(p), "shared_from shares ownership"); }
    OWN(DEAD == 0, "shared_from keeps the object alive"); vp_is(*a, "f", "shared_from keeps the object alive"); a.reset(); OWN(DEAD == 1, "the object is destroyed once, with its last owner"); }
void d_from_new() { vp_ghost_set("dead", 0); { shared_ptr<Me> p(new Me); auto a = p->self(); auto b = p->selfc(); auto c = static_cast<const Me&>(*p).getc(); auto v = p->v(); shared_ptr<const void> cv = static_cast<const Me&>(*p).v(); OWN(p.use_count() == 6, "each pointer is a co-owner"); OWN(a == p && b == p && c.get() == &p->f, "shared_from points to its argument"); OWN(v.get() == static_cast<itlib::enable_shared_from*>(p.get()) && cv.get() == v.get(), "shared_from_this points to the object"); } OWN(DEAD == 1, "the object is destroyed once, with its last owner"); }
void d_weak() { vp_ghost_set("dead", 0); weak_ptr<VpF> a; weak_ptr<const Me> b; weak_ptr<void> v; weak_ptr<const void> cv; { shared_ptr<Me> p(new Me); a = p->wget(); b = p->wself(); v = p->w(); cv = static_cast<const Me&>(*p).w(); OWN(p.use_count() == 1, "weak pointers don't own"); OWN(a.lock().get() == &p->f && b.lock() == p && v.lock() && cv.lock(), "weak pointers lead to the object"); OWN(p.use_count() == 1, "weak pointers don't own"); }
    OWN(DEAD == 1, "weak pointers don't keep the object alive"); OWN(a.expired() && b.expired() && v.expired() && cv.expired(), "weak pointers expire with the object"); }
void d_unowned() { vp_ghost_set("dead", 0); { Me m; bool threw = false; try { auto p = m.get(); } catch (std::bad_weak_ptr&) { threw = true; } OWN(threw, "shared_from of an object without an owner throws bad_weak_ptr"); } OWN(DEAD == 1, "the object is destroyed once"); }
}
