#include "vp.hpp"
#include <itlib/utility.hpp>
#include <itlib/type_traits.hpp>
#include <utility>
#include <vector>
#include <memory>
#include <tuple>
#include <type_traits>
#define UT(c, msg) vp_check((c), "content", msg)
// force_move
static_assert(std::is_same<decltype(itlib::force_move(std::declval<VpE&>())), VpE&&>::value && std::is_same<decltype(itlib::force_move(std::declval<VpE>())), VpE&&>::value, "force_move gives an rvalue reference");
static_assert(noexcept(itlib::force_move(std::declval<VpE&>())), "force_move doesn't throw");
#if defined BAD_MOVE
VpE bad(const VpE& e) { return VpE(itlib::force_move(e)); }
#endif
#if defined BAD_CAST
long bad(int i) { return itlib::bit_cast<long>(i); }
#endif
// is_noop_convertible, compared with its definition for each pair of a set of types
struct Cls { int i; }; enum En : unsigned short { en }; enum class Es : int { es };
template <class T> struct Fl : std::integral_constant<bool, std::is_same<T, float>::value || std::is_same<T, double>::value || std::is_same<T, long double>::value> {};
template <class A, class B> constexpr bool want() {
    using a = typename std::remove_cv<A>::type; using b = typename std::remove_cv<B>::type;
    return sizeof(a) == sizeof(b) && !std::is_same<a, Cls>::value && !std::is_same<b, Cls>::value && Fl<a>::value == Fl<b>::value && (!std::is_same<b, bool>::value || std::is_same<a, bool>::value);
}
template <class A> constexpr bool row() { return true; }
template <class A, class B, class... R> constexpr bool row() { return itlib::is_noop_convertible<A, B>::value == want<A, B>() && itlib::is_noop_convertible<const A, B>::value == want<A, B>() && itlib::is_noop_convertible<A, volatile B>::value == want<A, B>() && row<A, R...>(); }
template <class... T> struct Grid;
template <> struct Grid<> { template <class... All> static constexpr bool ok() { return true; } };
template <class A, class... T> struct Grid<A, T...> { template <class... All> static constexpr bool ok() { return row<A, All...>() && Grid<T...>::template ok<All...>(); } };
#define TYPES bool, char, signed char, unsigned char, short, unsigned short, wchar_t, char16_t, int, unsigned, long, unsigned long, long long, float, double, long double, void*, const int*, En, Es, Cls, int Cls::*, std::nullptr_t
static_assert(Grid<TYPES>::ok<TYPES>(), "is_noop_convertible: scalars of one size, not between floating point and others, nor from others to bool");
// is_instantiation_of
template <class... T> struct Va {}; template <class... T> struct Vb {}; template <class T> struct Derived : Va<T> {};
static_assert(itlib::is_instantiation_of<Va, Va<>>::value && itlib::is_instantiation_of<Va, Va<int>>::value && itlib::is_instantiation_of<Va, Va<int, Vb<int>>>::value && itlib::is_instantiation_of<std::vector, std::vector<VpE>>::value && itlib::is_instantiation_of<std::unique_ptr, std::unique_ptr<VpE>>::value && itlib::is_instantiation_of<std::tuple, std::tuple<int, long, VpE>>::value, "is_instantiation_of is true for instantiations of the template");
static_assert(!itlib::is_instantiation_of<Va, Vb<>>::value && !itlib::is_instantiation_of<Va, Vb<Va<int>>>::value && !itlib::is_instantiation_of<Va, int>::value && !itlib::is_instantiation_of<Va, Va<int>&>::value && !itlib::is_instantiation_of<Va, Va<int>*>::value && !itlib::is_instantiation_of<Va, const Va<int>>::value && !itlib::is_instantiation_of<Va, Derived<int>>::value && !itlib::is_instantiation_of<std::vector, std::unique_ptr<int>>::value, "is_instantiation_of is false for all other types");
static_assert(std::is_same<itlib::type_identity<VpE>::type, VpE>::value && std::is_same<itlib::type_identity<const VpE&>::type, const VpE&>::value && std::is_same<itlib::type_identity<VpE&&>::type, VpE&&>::value && std::is_same<itlib::type_identity<int[3]>::type, int[3]>::value && std::is_same<itlib::type_identity<void>::type, void>::value, "type_identity gives its argument");
#if __cplusplus >= 201700
static_assert(itlib::is_instantiation_of_v<Va, Va<int>> && !itlib::is_instantiation_of_v<Va, Vb<int>> && itlib::is_noop_convertible_v<int, unsigned> && !itlib::is_noop_convertible_v<int, float> && std::is_same_v<itlib::type_identity_t<int&>, int&>, "the shortcuts are the same as the traits");
#endif
class Inc;
static_assert(std::is_same<decltype(itlib::make_nullptr<Inc>()), Inc*>::value && std::is_same<decltype(itlib::make_nullptr<const int>()), const int*>::value, "make_nullptr gives a pointer to its argument");
struct Own { char c; VpE e; int x; VpF f; short tail[3]; };
struct Base1 { long b; VpE e; }; struct Der : Own { VpE more; };
struct Pod24 { long a, b, c; };
extern "C" {
void d_force_move() { VpE e; vp_name(e, "e"); VpE&& r = itlib::force_move(e); UT(&r == &e, "force_move refers to its argument"); vp_is(e, "e", "force_move by itself moves nothing"); VpE f(itlib::force_move(e)); vp_is(f, "e", "force_move lets its argument be moved"); vp_is(e, "moved", "force_move lets its argument be moved"); VpE g(itlib::force_move(std::move(f))); vp_is(g, "e", "force_move lets its argument be moved"); vp_is(f, "moved", "force_move lets its argument be moved"); }
void d_owner() { Own o; UT(itlib::owner_from_member(o.c, &Own::c) == &o, "owner_from_member gives the owner"); UT(itlib::owner_from_member(o.e, &Own::e) == &o, "owner_from_member gives the owner"); UT(itlib::owner_from_member(o.x, &Own::x) == &o, "owner_from_member gives the owner"); UT(itlib::owner_from_member(o.f, &Own::f) == &o, "owner_from_member gives the owner"); UT(itlib::owner_from_member(o.tail, &Own::tail) == &o, "owner_from_member gives the owner"); }
void d_owner_array() { size_t n = vp_size("n"), i = vp_size("i"); vp_assume(i < n); Own* a = static_cast<Own*>(static_cast<void*>(vp_buffer(n * sizeof(Own), "owners"))); const int& x = a[i].x; UT(itlib::owner_from_member(x, &Own::x) == a + i, "owner_from_member gives the owner"); const short (&t)[3] = a[i].tail; UT(itlib::owner_from_member(t, &Own::tail) == a + i, "owner_from_member gives the owner"); }
void d_owner_far() { struct Big { char a; char pad[70000]; int mid; char more[0x90000000]; int far; }; Big* b = static_cast<Big*>(static_cast<void*>(vp_buffer(sizeof(Big), "owner"))); UT(itlib::owner_from_member(b->mid, &Big::mid) == b && itlib::owner_from_member(b->far, &Big::far) == b && itlib::owner_from_member(b->a, &Big::a) == b, "owner_from_member gives the owner"); }
void d_owner_const() { const Own o{}; const Own* p = itlib::owner_from_member(o.x, &Own::x); UT(p == &o, "owner_from_member gives the owner"); }
void d_null() { UT(itlib::make_nullptr<int>() == nullptr && itlib::make_nullptr<Inc>() == nullptr, "make_nullptr gives null"); }
void d_bit_cast_big() { struct B { unsigned char b[24]; } x; vp_label(x.b, 24, "bytes"); Pod24 p = itlib::bit_cast<Pod24>(x); B y = itlib::bit_cast<B>(p); vp_seq(y.b, 24, "bytes", 0, "bit_cast keeps the bits"); vp_seq(reinterpret_cast<unsigned char*>(&p), 24, "bytes", 0, "bit_cast keeps the bits"); }
void d_bit_cast_ptr() { int x; int* p = &x; size_t u = itlib::bit_cast<size_t>(p); int* q = itlib::bit_cast<int*>(u); UT(q == p, "bit_cast keeps the bits"); long l = vp_long("l"); UT((long)itlib::bit_cast<unsigned long>(l) == l, "bit_cast keeps the bits"); }
}
