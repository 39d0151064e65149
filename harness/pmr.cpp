#include "vp.hpp"
#include <memory_resource>
#include <type_traits>
#include <itlib/pmr_allocator.hpp>
struct Res : std::pmr::memory_resource { int id; explicit Res(int i) : id(i) {}
    void* do_allocate(size_t n, size_t a) override { vp_ghost_inc("allocs"); vp_ghost_set("n", (long)n); vp_ghost_set("a", (long)a); return vp_balloc(n, a, id); }
    void do_deallocate(void* p, size_t n, size_t a) override { vp_ghost_inc("frees"); vp_bdealloc(p, n, a, id); }
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; } };
// the default resource
std::pmr::memory_resource* std::pmr::get_default_resource() noexcept { static Res r(77); return &r; }
using A = itlib::pmr_allocator<>;
static_assert(std::is_same<A::value_type, std::byte>::value && std::is_convertible<A&, std::pmr::polymorphic_allocator<std::byte>>::value && std::is_same<itlib::pmr_allocator<int>::value_type, int>::value, "pmr_allocator can be used as a polymorphic_allocator");
static_assert(std::is_copy_constructible<A>::value && std::is_convertible<std::pmr::memory_resource*, A>::value && std::is_default_constructible<A>::value, "pmr_allocator is constructed like a polymorphic_allocator");
struct Two { VpE a; VpF b; Two(const VpE& x, VpF&& y) : a(x), b(std::move(y)) {} };
// uses an allocator, told after a tag or at the end of the arguments
struct UA { using allocator_type = std::pmr::polymorphic_allocator<std::byte>; std::pmr::memory_resource* r; VpE e; UA(std::allocator_arg_t, const allocator_type& a, const VpE& x) : r(a.resource()), e(x) {} };
struct UB { using allocator_type = std::pmr::polymorphic_allocator<std::byte>; std::pmr::memory_resource* r; VpE e; explicit UB(VpE&& x, const allocator_type& a = {}) : r(a.resource()), e(std::move(x)) {} };
struct Big { alignas(128) VpE e; char pad[100]; };
#define SA(c, msg) vp_check((c), "allocator", msg)
#define RES Res res(vp_int("id")); A al(&res); vp_ghost_set("allocs", 0); vp_ghost_set("frees", 0);
#define ONCE SA(vp_ghost_get("allocs") == 1 && vp_ghost_get("frees") == 1, "one allocation, one deallocation");
#define GOT(sz, alg) SA(vp_ghost_get("n") == (long)(sz) && vp_ghost_get("a") == (long)(alg), "the resource gets the size and alignment of what is allocated");
extern "C" {
void d_resource() { RES SA(al.resource() == &res, "resource() is the one given"); A b(al); SA(b.resource() == &res && b == al, "copies use the same resource"); itlib::pmr_allocator<int> c(al); SA(c.resource() == &res, "conversions use the same resource"); std::pmr::polymorphic_allocator<std::byte> s = al; SA(s.resource() == &res, "slices use the same resource"); }
void d_bytes() { RES size_t n = vp_size("n"); void* p = al.allocate_bytes(n); GOT(n, alignof(std::max_align_t)) al.deallocate_bytes(p, n); ONCE }
void d_bytes_al() { RES size_t n = vp_size("n"), a = 64; void* p = al.allocate_bytes(n, a); GOT(n, a) al.deallocate_bytes(p, n, a); ONCE }
void d_object() { RES VpE* p = al.allocate_object<VpE>(); GOT(sizeof(VpE), alignof(VpE)) vp_raw(p, 1, "allocate_object doesn't construct"); al.deallocate_object(p); ONCE }
void d_object_big() { RES Big* p = al.allocate_object<Big>(); GOT(sizeof(Big), 128) al.deallocate_object(p); ONCE }
void d_objects() { RES size_t n = vp_size("n"); VpE* p = al.allocate_object<VpE>(n); GOT(n * sizeof(VpE), alignof(VpE)) vp_raw(p, n, "allocate_object doesn't construct"); al.deallocate_object(p, n); ONCE }
void d_objects_big() { RES size_t n = vp_size("n"); Big* p = al.allocate_object<Big>(n); GOT(n * sizeof(Big), 128) al.deallocate_object(p, n); ONCE }
void d_objects_huge() { RES size_t n = vp_anysize("n"); vp_assume(n > size_t(-1) / sizeof(VpE)); bool threw = false; try { VpE* p = al.allocate_object<VpE>(n); (void)p; } catch (...) { threw = true; } SA(threw && vp_ghost_get("allocs") == 0, "an allocation of more objects than memory can hold throws"); }
void d_typed() { RES itlib::pmr_allocator<VpE> t(&res); size_t n = vp_size("n"); VpE* p = t.allocate(n); GOT(n * sizeof(VpE), alignof(VpE)) t.deallocate(p, n); ONCE }
void d_new() { RES VpE* p = al.new_object<VpE>(); GOT(sizeof(VpE), alignof(VpE)) vp_live(p, 1, "new_object constructs"); al.delete_object(p); ONCE }
void d_new_copy() { RES VpE e; vp_name(e, "e"); VpE* p = al.new_object<VpE>(e); vp_is(*p, "e", "new_object constructs from its arguments"); vp_is(e, "e", "new_object forwards its arguments"); al.delete_object(p); ONCE }
void d_new_move() { RES VpE e; vp_name(e, "e"); VpE* p = al.new_object<VpE>(std::move(e)); vp_is(*p, "e", "new_object constructs from its arguments"); vp_is(e, "moved", "new_object forwards its arguments"); al.delete_object(p); ONCE }
void d_new_two() { RES VpE e; VpF f; vp_name(e, "e"); vp_name(f, "f"); Two* p = al.new_object<Two>(e, std::move(f)); vp_is(p->a, "e", "new_object constructs from its arguments"); vp_is(p->b, "f", "new_object constructs from its arguments"); vp_is(e, "e", "new_object forwards its arguments"); vp_is(f, "moved", "new_object forwards its arguments"); al.delete_object(p); ONCE }
void d_new_big() { RES Big* p = al.new_object<Big>(); GOT(sizeof(Big), 128) al.delete_object(p); ONCE }
void d_new_throw() { RES VpE e; vp_name(e, "e"); VpF f; vp_name(f, "f"); bool threw = false; Two* p = nullptr; vp_throws("copy"); try { p = al.new_object<Two>(e, std::move(f)); } catch (...) { threw = true; } vp_throws(""); if (threw) { ONCE } else { al.delete_object(p); ONCE } vp_is(e, "e", "new_object forwards its arguments"); }
void d_new_throw2() { RES bool threw = false; VpE* p = nullptr; vp_throws("default"); try { p = al.new_object<VpE>(); } catch (...) { threw = true; } vp_throws(""); if (!threw) al.delete_object(p); ONCE }
void d_default() { A a; SA(a.resource() == std::pmr::get_default_resource(), "the default is the default resource"); RES SA(al != a, "allocators of different resources are different"); }
void d_new_uses() { RES VpE e; vp_name(e, "e"); UA* p = al.new_object<UA>(e); SA(p->r == &res, "new_object passes the allocator to types which use it"); vp_is(p->e, "e", "new_object constructs from its arguments"); al.delete_object(p); ONCE }
void d_new_uses2() { RES VpE e; vp_name(e, "e"); UB* p = al.new_object<UB>(std::move(e)); SA(p->r == &res, "new_object passes the allocator to types which use it"); vp_is(p->e, "e", "new_object constructs from its arguments"); al.delete_object(p); ONCE }
}
