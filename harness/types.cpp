// Facts about types, decided by the compiler.  Each part includes the header(s) it is about.
#include <type_traits>
#include <utility>
#include <cstddef>
template <class T> T vp_val() noexcept;
#define OK(msg, ...) static_assert(__VA_ARGS__, msg)
#define SAME(msg, type, ...) static_assert(std::is_same<decltype(__VA_ARGS__), type>::value, msg)
#define NOCOPY(...) OK("it cannot be copied: " #__VA_ARGS__, !std::is_copy_constructible<__VA_ARGS__>::value && !std::is_copy_assignable<__VA_ARGS__>::value)
#define NOMOVE(...) OK("it stays where it is: " #__VA_ARGS__, !std::is_move_constructible<__VA_ARGS__>::value && !std::is_move_assignable<__VA_ARGS__>::value)
#define COPIES(...) OK("it can be copied: " #__VA_ARGS__, std::is_copy_constructible<__VA_ARGS__>::value && std::is_copy_assignable<__VA_ARGS__>::value)
#define MOVES(...) OK("it moves without exceptions: " #__VA_ARGS__, std::is_nothrow_move_constructible<__VA_ARGS__>::value && std::is_nothrow_move_assignable<__VA_ARGS__>::value)
#define MOVES_IN(...) OK("it moves without exceptions: " #__VA_ARGS__, std::is_nothrow_move_constructible<__VA_ARGS__>::value)
#define DIES(...) OK("its destructor doesn't throw: " #__VA_ARGS__, std::is_nothrow_destructible<__VA_ARGS__>::value)
#define VIEW(...) OK("a view is copied freely, without exceptions: " #__VA_ARGS__, std::is_nothrow_copy_constructible<__VA_ARGS__>::value && std::is_nothrow_copy_assignable<__VA_ARGS__>::value && std::is_nothrow_move_constructible<__VA_ARGS__>::value && std::is_nothrow_move_assignable<__VA_ARGS__>::value && std::is_nothrow_default_constructible<__VA_ARGS__>::value && std::is_trivially_copyable<__VA_ARGS__>::value)
#define TO(msg, A, ...) OK(msg ": " #A " -> " #__VA_ARGS__, std::is_convertible<A, __VA_ARGS__>::value)
#define NOTO(msg, A, ...) OK(msg ": " #A " -> " #__VA_ARGS__, !std::is_convertible<A, __VA_ARGS__>::value && !std::is_constructible<__VA_ARGS__, A>::value)
#define EXPLICIT(msg, A, ...) OK(msg ": " #A " -> " #__VA_ARGS__, !std::is_convertible<A, __VA_ARGS__>::value && std::is_constructible<__VA_ARGS__, A>::value)
struct N { int i; N(); N(const N&); N(N&&) noexcept; N& operator=(const N&); N& operator=(N&&) noexcept; ~N(); };   // copies may throw
struct M { int i; M(); M(M&&) noexcept; M& operator=(M&&) noexcept; ~M(); };                                      // only moves
struct X { int i; };
inline bool operator<(const N&, const N&) { return false; }
// the accesses of a container of E: the elements of a const one are const
#define VEC(V, E) \
    SAME("at", E&, vp_val<V&>().at(0)); SAME("[]", E&, vp_val<V&>()[0]); SAME("front", E&, vp_val<V&>().front()); SAME("back", E&, vp_val<V&>().back()); SAME("data", E*, vp_val<V&>().data()); \
    SAME("elements of a const object are const: at", const E&, vp_val<const V&>().at(0)); SAME("elements of a const object are const: []", const E&, vp_val<const V&>()[0]); SAME("elements of a const object are const: front", const E&, vp_val<const V&>().front()); SAME("elements of a const object are const: back", const E&, vp_val<const V&>().back()); SAME("elements of a const object are const: data", const E*, vp_val<const V&>().data()); \
    ITERS(V, E) SAME("crbegin gives const elements", const E&, *vp_val<V&>().crbegin()); SAME("crend", decltype(vp_val<V&>().crbegin()), vp_val<V&>().crend());
#define ITERS(V, E) \
    SAME("begin", E&, *vp_val<V&>().begin()); SAME("rbegin", E&, *vp_val<V&>().rbegin()); SAME("end", decltype(vp_val<V&>().begin()), vp_val<V&>().end()); SAME("rend", decltype(vp_val<V&>().rbegin()), vp_val<V&>().rend()); \
    SAME("elements of a const object are const: begin", const E&, *vp_val<const V&>().begin()); SAME("elements of a const object are const: end", decltype(vp_val<const V&>().begin()), vp_val<const V&>().end()); SAME("cbegin gives const elements", const E&, *vp_val<V&>().cbegin()); SAME("cend", decltype(vp_val<V&>().cbegin()), vp_val<V&>().cend()); \
    SAME("elements of a const object are const: rbegin", const E&, *vp_val<const V&>().rbegin()); SAME("elements of a const object are const: rend", decltype(vp_val<const V&>().rbegin()), vp_val<const V&>().rend()); \
    TO("iterators convert to const ones", V::iterator, V::const_iterator); NOTO("const iterators don't convert to others", V::const_iterator, V::iterator); \
    SAME("iterator", V::iterator, vp_val<V&>().begin()); SAME("const_iterator", V::const_iterator, vp_val<const V&>().begin()); \
    OK("member types", std::is_same<V::reference, E&>::value && std::is_same<V::const_reference, const E&>::value && std::is_same<V::value_type, E>::value); \
    OK("pointers to elements of a const object are const", std::is_same<V::pointer, E*>::value && std::is_same<V::const_pointer, const E*>::value);

#if defined(H_small_vector)
#include <itlib/small_vector.hpp>
using V = itlib::small_vector<N, 3>; using VM = itlib::small_vector<M, 3>; using V0 = itlib::small_vector<N, 0>;
#if defined(P_MOVE)
MOVES(V); MOVES(VM); MOVES(V0); COPIES(V); DIES(V);
#else
VEC(V, N) EXPLICIT("a count is no vector", size_t, V); NOTO("vectors of other types don't convert", V, VM);
#endif
#elif defined(H_static_vector)
#include <itlib/static_vector.hpp>
using V = itlib::static_vector<N, 3>; using VM = itlib::static_vector<M, 3>;
#if defined(P_MOVE)
MOVES(V); MOVES(VM); COPIES(V); DIES(V);
#else
VEC(V, N) EXPLICIT("a count is no vector", size_t, V); NOTO("vectors of other types don't convert", V, VM);
#endif
#elif defined(H_pod_vector)
#include <itlib/pod_vector.hpp>
using V = itlib::pod_vector<X>; using VI = itlib::pod_vector<int>;
#if defined(P_MOVE)
MOVES(V); COPIES(V); DIES(V);
#else
VEC(V, X) EXPLICIT("a count is no vector", size_t, V); NOTO("vectors of other types don't convert", V, VI);
#endif
#elif defined(H_flat_set)
#include <itlib/flat_set.hpp>
#include <itlib/small_vector.hpp>
using V = itlib::flat_set<N>; using VS = itlib::flat_set<N, itlib::fsimpl::less, itlib::small_vector<N, 3>>; using K = itlib::flat_set<X, std::integral_constant<int, 0>>;
#if defined(P_MOVE)
MOVES(V); MOVES(VS); COPIES(V); DIES(V);
#else
ITERS(V, N) SAME("a const set gives its container const", const std::vector<N>&, vp_val<const V&>().container()); SAME("container() gives no way to modify the set", const std::vector<N>&, vp_val<V&>().container()); SAME("find in a const set", V::const_iterator, vp_val<const V&>().find(vp_val<N>())); SAME("lower_bound in a const set", V::const_iterator, vp_val<const V&>().lower_bound(vp_val<N>())); SAME("upper_bound in a const set", V::const_iterator, vp_val<const V&>().upper_bound(vp_val<N>()));
SAME("equal_range in a const set", V::const_iterator, vp_val<const V&>().equal_range(vp_val<N>()).first);
EXPLICIT("a container is no set", std::vector<N>, V); EXPLICIT("a comparison is no set", V::key_compare, V);
#endif
#elif defined(H_flat_map)
#include <itlib/flat_map.hpp>
#include <itlib/small_vector.hpp>
using V = itlib::flat_map<N, X>; using P = std::pair<N, X>; using VM = itlib::flat_map<N, M>; using VS = itlib::flat_map<N, N, itlib::fmimpl::less, itlib::small_vector<std::pair<N, N>, 3>>;
#if defined(P_MOVE)
MOVES(V); MOVES(VM); MOVES(VS); COPIES(V); DIES(V);
#else
ITERS(V, P) SAME("container() gives no way to modify the map", const std::vector<P>&, vp_val<V&>().container()); SAME("find in a const map", V::const_iterator, vp_val<const V&>().find(vp_val<N>())); SAME("lower_bound in a const map", V::const_iterator, vp_val<const V&>().lower_bound(vp_val<N>())); SAME("upper_bound in a const map", V::const_iterator, vp_val<const V&>().upper_bound(vp_val<N>()));
SAME("at", X&, vp_val<V&>().at(vp_val<N>())); SAME("values of a const map are const: at", const X&, vp_val<const V&>().at(vp_val<N>())); SAME("[]", X&, vp_val<V&>()[vp_val<N>()]);
SAME("equal_range in a const map", V::const_iterator, vp_val<const V&>().equal_range(vp_val<N>()).first);
OK("member types", std::is_same<V::key_type, N>::value && std::is_same<V::mapped_type, X>::value);
EXPLICIT("a container is no map", std::vector<P>, V);
#endif
#elif defined(H_any)
#include <itlib/any.hpp>
using V = itlib::any<>;
#if defined(P_MOVE)
MOVES(V); COPIES(V); DIES(V); OK("an empty any needs nothing", std::is_nothrow_default_constructible<V>::value);
#else
using itlib::any_cast;
SAME("any_cast of a pointer", X*, any_cast<X>(vp_val<V*>())); SAME("the value of a const any is const", const X*, any_cast<X>(vp_val<const V*>())); SAME("any_cast to a value", X, any_cast<X>(vp_val<V&>())); SAME("any_cast to a reference", X&, any_cast<X&>(vp_val<V&>())); SAME("any_cast to a const reference", const X&, any_cast<const X&>(vp_val<const V&>())); SAME("any_cast of an rvalue", X, any_cast<X>(vp_val<V>()));
EXPLICIT("whether there is a value is only told when asked", const V&, bool); NOTO("any is no int", V, int); SAME("emplace gives the value", X&, vp_val<V&>().emplace<X>());
#endif
#elif defined(H_expected)
#include <itlib/expected.hpp>
using namespace itlib;
using NX = expected<N, X>; using MN = expected<M, N>; using NV = expected<N, void>; using VN = expected<void, N>; using RX = expected<N&, X>; using RV = expected<N&, void>; using VV = expected<void, void>;
#if defined(P_MOVE)
MOVES(NX); MOVES(MN); MOVES(NV); MOVES(VN); MOVES(RX); MOVES(RV); MOVES(VV); NOCOPY(NX); NOCOPY(MN); NOCOPY(VN); NOCOPY(RX); DIES(NX); DIES(MN); DIES(NV); DIES(VN); DIES(RX); DIES(RV); DIES(VV);
#else
#define GET(T, V) SAME("value", V&, vp_val<T&>().value()); SAME("the value of a const expected is const", const V&, vp_val<const T&>().value()); SAME("the value of an rvalue is one", V&&, vp_val<T>().value()); SAME("*", V&, *vp_val<T&>()); SAME("the value of a const expected is const: *", const V&, *vp_val<const T&>()); SAME("the value of an rvalue is one: *", V&&, *vp_val<T>()); SAME("->", V*, vp_val<T&>().operator->()); SAME("the value of a const expected is const: ->", const V*, vp_val<const T&>().operator->());
#define ERR(T, E) SAME("error", E&, vp_val<T&>().error()); SAME("the error of a const expected is const", const E&, vp_val<const T&>().error()); SAME("the error of an rvalue is one", E&&, vp_val<T>().error());
GET(NX, N) GET(MN, M) GET(NV, N) ERR(NX, X) ERR(MN, N) ERR(VN, N) ERR(RX, X)
SAME("a reference", N&, vp_val<RX&>().value()); SAME("a reference", N&, *vp_val<RX&>()); SAME("a reference", N*, vp_val<RX&>().operator->()); SAME("a reference", N&, vp_val<RV&>().value()); SAME("a reference", N&, *vp_val<RV&>());
#define BOOL(T) EXPLICIT("whether there is a value is only told when asked", const T&, bool); OK("not an int", !std::is_convertible<T, int>::value); SAME("has_value", bool, vp_val<const T&>().has_value()); SAME("has_error", bool, vp_val<const T&>().has_error());
BOOL(NX) BOOL(MN) BOOL(NV) BOOL(VN) BOOL(RX) BOOL(RV) BOOL(VV)
TO("a value converts", N, NX); TO("an error converts", unexpected_t<X>, NX); TO("no error converts to a default one", unexpected_t<void>, NX); TO("a reference converts", N&, RX); NOTO("no reference to a temporary", N, RX); NOTO("no reference to a temporary", N, RV); NOTO("no reference to a const object", const N&, RX); NOTO("an error is no value", X, NX);
NOTO("expecteds of other types don't convert", MN, NX);
OK("member types", std::is_same<NX::value_type, N>::value && std::is_same<NX::error_type, X>::value && std::is_same<NV::value_type, N>::value && std::is_same<VN::error_type, N>::value);
SAME("unexpected copies what it is given as an lvalue, or refers to it: it is no rvalue", decltype(unexpected(vp_val<N&>())), unexpected(vp_val<N&>()));
#endif
#elif defined(H_generator)
#include <itlib/generator.hpp>
using namespace itlib;
#if defined(P_MOVE)
NOCOPY(generator<N>); NOCOPY(generator<N&>); MOVES(generator<N>); MOVES(generator<N&>); DIES(generator<N>);
#else
EXPLICIT("whether it is valid is only told when asked", const generator<N>&, bool); NOTO("generators of other types don't convert", generator<N>, generator<X>); NOTO("generators of other types don't convert", generator<N&>, generator<N>);
SAME("a loop over references sees them", N&, *vp_val<generator<N&>&>().begin());
#endif
#elif defined(H_ufunction)
#include <itlib/ufunction.hpp>
using F = itlib::ufunction<N(X&, M)>; struct C { N operator()(X&, M) const; }; struct CM { CM(CM&&); N operator()(X&, M); }; struct W { void operator()(); };
#if defined(P_MOVE)
NOCOPY(F); MOVES(F); DIES(F); OK("an empty ufunction needs nothing", std::is_nothrow_default_constructible<F>::value);
#else
TO("a function object", C, F); TO("a function object which only moves", CM, F); SAME("the result", N, vp_val<F&>()(vp_val<X&>(), vp_val<M>())); EXPLICIT("whether there is a target is only told when asked", const F&, bool); TO("no target", std::nullptr_t, F);
#endif
#elif defined(H_span)
#include <itlib/span.hpp>
#include <vector>
using S = itlib::span<N>; using C = itlib::span<const N>; using V = std::vector<N>; struct D : N {}; using SD = itlib::span<D>;
#if defined(P_MOVE)
VIEW(S); VIEW(C);
#else
TO("a span converts to one of const elements", S, C); NOTO("a span of const elements gives no others", C, S); NOTO("a span of const elements gives no others", const C&, S); TO("a span of a container", V&, S); TO("a span of a const container", const V&, C); NOTO("a span of a const container has const elements", const V&, S); NOTO("no span of a temporary", V, S); NOTO("no span of a temporary", V, C);
OK("a span of const elements is not assigned to others", !std::is_assignable<S&, C>::value && std::is_assignable<C&, S>::value); NOTO("spans of derived objects aren't spans of their bases", SD, S); NOTO("spans of derived objects aren't spans of their bases", SD, C);
OK("pointers to const give spans of const", !std::is_constructible<S, const N*, size_t>::value && std::is_constructible<C, const N*, size_t>::value && std::is_constructible<S, N*, size_t>::value && std::is_constructible<C, N*, size_t>::value && !std::is_constructible<S, const N*, const N*>::value && !std::is_constructible<S, D*, size_t>::value);
SAME("as_bytes gives const bytes", itlib::span<const uint8_t>, vp_val<C&>().as_bytes()); SAME("as_bytes gives const bytes", itlib::span<const uint8_t>, vp_val<S&>().as_bytes()); SAME("as_writable_bytes", itlib::span<uint8_t>, vp_val<S&>().as_writable_bytes()); EXPLICIT("whether it is null is only told when asked", const S&, bool);
SAME("at", N&, vp_val<const S&>().at(0)); SAME("elements of a span of const are const", const N&, vp_val<C&>().at(0)); SAME("elements of a span of const are const", const N&, vp_val<C&>()[0]); SAME("elements of a span of const are const", const N*, vp_val<C&>().data()); SAME("elements of a span of const are const", const N&, *vp_val<C&>().begin()); SAME("cbegin gives const elements", const N&, *vp_val<S&>().cbegin()); SAME("crbegin gives const elements", const N&, *vp_val<S&>().crbegin());
SAME("make_span", S, itlib::make_span(vp_val<V&>())); SAME("make_span of a const container", C, itlib::make_span(vp_val<const V&>())); SAME("subspan", S, vp_val<S&>().subspan(0)); SAME("subspan", C, vp_val<C&>().subspan(0, 1));
#endif
#elif defined(H_stride_span)
#include <itlib/stride_span.hpp>
using S = itlib::stride_span<N>; using C = itlib::stride_span<const N>;
#if defined(P_MOVE)
VIEW(S); VIEW(C);
#else
TO("a span converts to one of const elements", S, C); NOTO("a span of const elements gives no others", C, S); OK("a span of const elements is not assigned to others", !std::is_assignable<S&, C>::value && std::is_assignable<C&, S>::value);
OK("const bytes give spans of const", !std::is_constructible<S, const uint8_t*, size_t, size_t>::value && std::is_constructible<C, const uint8_t*, size_t, size_t>::value && std::is_constructible<S, uint8_t*, size_t, size_t>::value);
SAME("at", N&, vp_val<S&>().at(0)); SAME("elements of a const object are const: at", const N&, vp_val<const S&>().at(0)); SAME("elements of a const object are const: []", const N&, vp_val<const S&>()[0]); SAME("elements of a span of const are const", const N&, vp_val<C&>().at(0)); SAME("elements of a span of const are const", const N&, vp_val<C&>()[0]); SAME("elements of a span of const are const", const N&, vp_val<C&>().front()); SAME("elements of a span of const are const", const N&, *vp_val<C&>().begin()); SAME("cbegin gives const elements", const N&, *vp_val<S&>().cbegin()); SAME("bytes of a span of const are const", const uint8_t*, vp_val<C&>().data()); SAME("subspan", C, vp_val<C&>().subspan(0, 1)); EXPLICIT("whether it is null is only told when asked", const S&, bool);
#endif
#elif defined(H_poly_span)
#include <itlib/poly_span.hpp>
using S = itlib::poly_span<N&>; using C = itlib::poly_span<const N&>; using V = itlib::poly_span<long>;
#if defined(P_MOVE)
VIEW(S); VIEW(C);
#else
OK("objects which are const are only shown to functions taking them so", !std::is_constructible<S, const X*, size_t, N& (*)(X&)>::value && std::is_constructible<S, X*, size_t, N& (*)(X&)>::value && std::is_constructible<C, const X*, size_t, const N& (*)(const X&)>::value);
SAME("at", N&, vp_val<const S&>().at(0)); SAME("[]", const N&, vp_val<C&>()[0]); SAME("values", long, vp_val<V&>()[0]); EXPLICIT("whether it is null is only told when asked", const S&, bool); NOTO("spans of other results don't convert", S, C);
#endif
#elif defined(H_memory_view)
#include <itlib/memory_view.hpp>
using S = itlib::memory_view<N>; using C = itlib::const_memory_view<N>;
#if defined(P_MOVE)
VIEW(S); VIEW(C);
#else
VEC(S, N) NOTO("a view of const elements gives no others", C, S); TO("a view converts to one of const elements", S, C);
SAME("elements of a const view are const", const N&, vp_val<C&>().at(0)); SAME("elements of a const view are const", const N&, vp_val<C&>()[0]); SAME("elements of a const view are const", const N*, vp_val<C&>().data()); SAME("elements of a const view are const", const N*, vp_val<C&>().get()); SAME("elements of a const object are const", const N*, vp_val<const S&>().get());
OK("pointers to const give const views", !std::is_constructible<S, const N*, size_t>::value && std::is_constructible<C, const N*, size_t>::value); EXPLICIT("whether it is null is only told when asked", const S&, bool);
#endif
#elif defined(H_data_mutex)
#include <itlib/data_mutex.hpp>
struct Mx { void lock(); void unlock(); bool try_lock(); void lock_shared(); void unlock_shared(); bool try_lock_shared(); };
using D = itlib::data_mutex<N, Mx>;
#define U decltype(vp_val<D&>().unique_lock())
#define CU decltype(vp_val<const D&>().unique_lock())
#define TU decltype(vp_val<D&>().try_unique_lock())
#define CTU decltype(vp_val<const D&>().try_unique_lock())
#define SL decltype(vp_val<D&>().shared_lock())
#define TS decltype(vp_val<D&>().try_shared_lock())
#if defined(P_MOVE)
NOCOPY(D); NOMOVE(D);
#define LOCK(...) NOCOPY(__VA_ARGS__); MOVES_IN(__VA_ARGS__); DIES(__VA_ARGS__);
LOCK(U) LOCK(CU) LOCK(TU) LOCK(CTU) LOCK(SL) LOCK(TS)
OK("a lock keeps its mutex", !std::is_move_assignable<U>::value && !std::is_move_assignable<SL>::value);
#else
#define GIVES(L, T) SAME("the access a lock gives", T&, *vp_val<L&>()); SAME("the access a lock gives", T*, vp_val<L&>().operator->()); SAME("a const lock gives const access", const N&, *vp_val<const L&>()); SAME("a const lock gives const access", const N*, vp_val<const L&>().operator->());
GIVES(U, N) GIVES(TU, N) GIVES(CU, const N) GIVES(CTU, const N) GIVES(SL, const N) GIVES(TS, const N)
SAME("shared locks of const data", SL, vp_val<const D&>().shared_lock()); SAME("shared locks of const data", TS, vp_val<const D&>().try_shared_lock());
#define TRY(L) EXPLICIT("whether it is locked is only told when asked", const L&, bool)
TRY(TU); TRY(CTU); TRY(TS); OK("the data is only there through a lock", !std::is_convertible<D&, N&>::value);
NOTO("a const mutex gives no lock to modify", const D&, U); NOTO("a const mutex gives no lock to modify", const D&, TU); NOTO("a shared lock is no unique one", SL, U);
#endif
#elif defined(H_sync)
#include <itlib/mutex.hpp>
#include <itlib/atomic.hpp>
#include <itlib/atomic_shared_ptr_storage.hpp>
#include <memory>
using A = itlib::atomic_relaxed_counter<unsigned>; using P = itlib::atomic_shared_ptr_storage<N>; using SP = std::shared_ptr<N>;
#if defined(P_MOVE)
NOCOPY(itlib::strong_try_rec_mutex); NOMOVE(itlib::strong_try_rec_mutex); NOCOPY(P); NOMOVE(P); DIES(P); COPIES(A); OK("counters have no hidden parts", sizeof(A) == sizeof(unsigned));
#else
SAME("operations on counters give plain integers", unsigned, ++vp_val<A&>()); SAME("operations on counters give plain integers", unsigned, vp_val<A&>()++); SAME("operations on counters give plain integers", unsigned, vp_val<A&>() += 1); SAME("operations on counters give plain integers", unsigned, vp_val<A&>() -= 1); SAME("operations on counters give plain integers", unsigned, vp_val<A&>()--); SAME("operations on counters give plain integers", unsigned, --vp_val<A&>()); SAME("operations on counters give plain integers", unsigned, vp_val<A&>() = 1u); SAME("operations on counters give plain integers", unsigned, vp_val<const A&>().load());
TO("a counter reads as an integer", const A&, unsigned); EXPLICIT("an integer is no counter", unsigned, A);
SAME("load gives a pointer of its own", SP, vp_val<const P&>().load()); SAME("exchange gives a pointer of its own", SP, vp_val<P&>().exchange(SP())); OK("strict operations are noexcept", noexcept(vp_val<A&>()++) && noexcept(vp_val<const A&>().load()) && noexcept(vp_val<A&>().store(1u)) && noexcept(++vp_val<A&>()) && noexcept(vp_val<A&>() += 1));
#endif
#elif defined(H_sentry)
#include <itlib/sentry.hpp>
struct F { void operator()(); };
using S = decltype(itlib::make_sentry(vp_val<F>()));
#if defined(P_MOVE)
NOCOPY(S); OK("a sentry is not assigned", !std::is_move_assignable<S>::value);
#else
OK("a sentry of a function object", std::is_constructible<S, F>::value);
#endif
#elif defined(H_dynamic_bitset)
#include <itlib/dynamic_bitset.hpp>
#include <vector>
using B = itlib::dynamic_bitset<>; using W = B::word_type;
#if defined(P_MOVE)
MOVES(B); COPIES(B); DIES(B); OK("an empty bitset needs nothing", std::is_nothrow_default_constructible<B>::value);
#else
SAME("bits of a const bitset are values", bool, vp_val<const B&>()[0]); SAME("bits of a const bitset are values", bool, vp_val<const B&>().test(0)); SAME("words of a const bitset are const", const W*, vp_val<const B&>().data()); SAME("words", W*, vp_val<B&>().data()); SAME("bits of a const bitset are values", bool, *vp_val<B::const_iterator&>()); OK("const bitsets give const iterators", std::is_same<decltype(vp_val<const B&>().begin()), B::const_iterator>::value && std::is_same<decltype(vp_val<B&>().begin()), B::iterator>::value);
EXPLICIT("a size is no bitset", size_t, B); TO("a bit reads as a bool", decltype(vp_val<B&>()[0]), bool); OK("bits are assigned bools", std::is_assignable<decltype(vp_val<B&>()[0]), bool>::value);
#endif
#elif defined(H_streams)
#include <itlib/mem_streambuf.hpp>
#include <string>
using O = itlib::mem_ostreambuf<std::string>; using I = itlib::mem_istreambuf<char>;
#if defined(P_MOVE)
COPIES(O); COPIES(I);
#else
SAME("peek_container gives no way to modify it", const std::string&, vp_val<O&>().peek_container()); SAME("get_container gives the container away", std::string, vp_val<O&>().get_container()); OK("memory read may be const", std::is_constructible<I, const char*, size_t>::value);
#endif
#elif defined(H_time_t)
#include <itlib/time_t.hpp>
using T = itlib::time_t;
#if defined(P_MOVE)
OK("times are values", std::is_trivially_copyable<T>::value && std::is_nothrow_copy_constructible<T>::value && std::is_nothrow_copy_assignable<T>::value);
#else
OK("times are made of numbers only when asked", !std::is_convertible<std::time_t, T>::value && !std::is_convertible<T, std::time_t>::value && !std::is_convertible<T, bool>::value);
#endif
#elif defined(H_shared_from)
#include <itlib/shared_from.hpp>
#include <itlib/make_ptr.hpp>
struct S : public itlib::enable_shared_from { void m() { SAME("shared_from gives a pointer of the object's type", std::shared_ptr<S>, shared_from(this)); SAME("weak_from gives a pointer of the object's type", std::weak_ptr<S>, weak_from(this)); SAME("members too", std::shared_ptr<int>, shared_from(&i)); }
    void c() const { SAME("shared_from of a const object is const", std::shared_ptr<const void>, shared_from_this()); SAME("weak_from of a const object is const", std::weak_ptr<const void>, weak_from_this()); } int i; };
struct D : S {};
#if defined(P_MOVE)
OK("objects which share themselves can be made", std::is_default_constructible<D>::value);
#else
SAME("make_shared", std::shared_ptr<D>, itlib::make_shared(vp_val<D>())); SAME("make_unique", std::unique_ptr<X>, itlib::make_unique(vp_val<X&>()));
#endif
#endif
