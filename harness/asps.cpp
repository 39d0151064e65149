#include "vp.hpp"
#include <itlib/atomic_shared_ptr_storage.hpp>
#include <memory>
#define OWN(c, msg) vp_check((c), "ownership", msg)
// a pointee which tells when it is destroyed, and must not be destroyed under the storage's lock
struct Obj { int id; explicit Obj(int i) : id(i) {} ~Obj() { vp_ghost_inc("dead"); vp_check(vp_locks_held() == 0, "lock", "no pointee is destroyed while the storage is locked"); } };
using S = itlib::atomic_shared_ptr_storage<Obj>;
using P = std::shared_ptr<Obj>;
#define DEAD vp_ghost_get("dead")
#define OP(...) vp_op(); __VA_ARGS__; vp_check(vp_acquisitions() == 1 && vp_locks_held() == 0, "lock", "an operation is one critical section")
static P mk(int i, bool b) { return b ? P(new Obj(i)) : P(); }
#define PRE vp_ghost_set("dead", 0); bool hv = vp_bool("has_value"); P p = mk(1, hv); const Obj* raw = p.get(); S s(p); vp_shared(&s, sizeof(s))
#define FIN vp_unshared()
extern "C" {
void d_default() { S s; vp_shared(&s, sizeof(s)); OP(P p = s.load()); OWN(!p && p.use_count() == 0, "a default constructed storage is empty"); FIN; }
void d_ctor() { PRE; OWN(p.use_count() == (hv ? 2 : 0), "the storage shares ownership"); FIN; }
void d_ctor_move() { vp_ghost_set("dead", 0); { P p = mk(1, true); const Obj* raw = p.get(); S s(std::move(p)); OWN(!p, "the storage takes ownership"); P q = s.load(); OWN(q.get() == raw && q.use_count() == 2, "the storage shares ownership"); } OWN(DEAD == 1, "an object is destroyed once, with its last owner"); }
void d_load() { PRE; OP(P q = s.load()); OWN(q.get() == raw && q == p, "load gives the pointer stored"); OWN(p.use_count() == (hv ? 3 : 0), "load shares ownership"); FIN; }
void d_store() { { PRE; bool hn = vp_bool("new_value"); P n = mk(2, hn); OP(s.store(n)); OWN(p.use_count() == (hv ? 1 : 0), "store releases the old pointer"); OWN(n.use_count() == (hn ? 2 : 0), "store shares ownership"); OP(P q = s.load()); OWN(q == n, "store replaces the pointer"); OWN(DEAD == 0, "an object is destroyed only with its last owner"); FIN; vp_ghost_set("n", hv + hn); } OWN(DEAD == vp_ghost_get("n"), "an object is destroyed once, with its last owner"); }
void d_store_last() { PRE; p.reset(); OP(s.store(mk(2, vp_bool("new_value")))); OWN(DEAD == hv, "store destroys the object when it was its last owner"); FIN; }
void d_exchange() { { PRE; bool hn = vp_bool("new_value"); P n = mk(2, hn); OP(P o = s.exchange(n)); OWN(o == p && o.get() == raw, "exchange gives the old pointer"); OWN(p.use_count() == (hv ? 2 : 0), "exchange passes ownership of the old pointer on"); OWN(n.use_count() == (hn ? 2 : 0), "exchange shares ownership"); OP(P q = s.load()); OWN(q == n, "exchange replaces the pointer"); FIN; vp_ghost_set("n", hv + hn); } OWN(DEAD == vp_ghost_get("n"), "an object is destroyed once, with its last owner"); }
void d_exchange_last() { PRE; p.reset(); vp_op(); { P o = s.exchange(mk(2, vp_bool("new_value"))); OWN(DEAD == 0 && o.use_count() == (hv ? 1 : 0), "exchange passes ownership of the old pointer on"); } OWN(DEAD == hv, "an object is destroyed once, with its last owner"); FIN; }
void d_cas_ok() { { PRE; bool hn = vp_bool("new_value"); P n = mk(2, hn); P e = p; OP(bool r = s.compare_exchange(e, n)); OWN(r, "compare_exchange succeeds when the pointer is the expected one"); OWN(e == p, "a successful compare_exchange leaves the expected pointer"); OWN(n.use_count() == (hn ? 2 : 0) && p.use_count() == (hv ? 2 : 0), "compare_exchange shares ownership of the new pointer and releases the old one"); OP(P q = s.load()); OWN(q == n, "a successful compare_exchange replaces the pointer"); FIN; vp_ghost_set("n", hv + hn); } OWN(DEAD == vp_ghost_get("n"), "an object is destroyed once, with its last owner"); }
void d_cas_fail() { { PRE; bool he = vp_bool("expected_value"); vp_assume(he || hv); P e = mk(3, he); P n = mk(2, true); OP(bool r = s.compare_exchange(e, n)); OWN(!r, "compare_exchange fails when the pointer is not the expected one"); OWN(e == p && e.get() == raw, "a failing compare_exchange gives the pointer stored"); OWN(DEAD == he, "a failing compare_exchange releases the expected pointer"); OWN(n.use_count() == 1, "a failing compare_exchange doesn't store the new pointer"); OP(P q = s.load()); OWN(q == p, "a failing compare_exchange leaves the pointer stored"); FIN; vp_ghost_set("n", 1 + hv + he); } OWN(DEAD == vp_ghost_get("n"), "an object is destroyed once, with its last owner"); }
void d_cas_last() { PRE; P e = p; p.reset(); e.reset(); P x(s.load()); e = x; x.reset(); OP(bool r = s.compare_exchange(e, mk(2, true))); OWN(r && DEAD == 0, "compare_exchange succeeds when the pointer is the expected one"); e.reset(); OWN(DEAD == hv, "an object is destroyed once, with its last owner"); FIN; }
// pointers to the same object which share the ownership of different things
void d_cas_alias_expected() { vp_ghost_set("dead", 0); { Obj* o = new Obj(1); S s{P(o)}; P other(new Obj(2)); P e(other, o); vp_shared(&s, sizeof(s)); OP(bool r = s.compare_exchange(e, mk(3, vp_bool("new_value")))); if (r) OWN(DEAD == 1, "a successful compare_exchange releases the old pointer"); else OWN(DEAD == 0 && e.get() == o && e.use_count() == 2 && other.use_count() == 1, "a failing compare_exchange gives the pointer stored"); FIN; } }
void d_cas_alias_new() { PRE; vp_assume(hv); P other(new Obj(2)); P n(other, p.get()); P e = p; OP(bool r = s.compare_exchange(e, n)); OWN(r, "compare_exchange succeeds when the pointer is the expected one"); OWN(p.use_count() == 2 && other.use_count() == 3, "compare_exchange shares ownership of the new pointer and releases the old one"); FIN; }
void d_store_alias() { PRE; vp_assume(hv); P other(new Obj(2)); P n(other, p.get()); OP(s.store(n)); OWN(p.use_count() == 1 && other.use_count() == 3, "store releases the old pointer and shares ownership of the new one"); FIN; }
void d_exchange_alias() { PRE; vp_assume(hv); P other(new Obj(2)); P n(other, p.get()); OP(P o = s.exchange(n)); OWN(p.use_count() == 2 && other.use_count() == 3 && o.get() == raw, "exchange passes the ownership of the old pointer on and shares that of the new one"); FIN; }
void d_store_same() { PRE; OP(s.store(p)); OWN(p.use_count() == (hv ? 2 : 0), "storing the pointer stored changes nothing"); OP(P q = s.exchange(p)); OWN(q == p && p.use_count() == (hv ? 3 : 0), "exchange of the pointer stored gives it back"); FIN; }
void d_dtor() { vp_ghost_set("dead", 0); { S s(mk(1, true)); OWN(DEAD == 0, "the storage keeps the object alive"); } OWN(DEAD == 1, "the storage releases the object"); }
}
static_assert(!std::is_copy_constructible<S>::value && !std::is_copy_assignable<S>::value, "the storage is not copyable");
