// What operations ask of the types they are used with, decided by the compiler: these programs must be accepted.
#include <type_traits>
#include <utility>
#include <cstddef>
#include <memory>
#include <initializer_list>
template <class T> T vp_val() noexcept;
struct L {}; struct R {};    // arguments which must arrive as they are: an lvalue and an rvalue
struct Base { int i; };
struct M {                   // only moves, has no default constructor, is not comparable
    int i;
    explicit M(int);
    M(L&, R&&);
    M(M&&) noexcept; M& operator=(M&&) noexcept; ~M();
    M(const M&) = delete; M& operator=(const M&) = delete;
};
struct D {                   // only moves, has a default constructor
    int i;
    D(); D(D&&) noexcept; D& operator=(D&&) noexcept; ~D();
    D(const D&) = delete; D& operator=(const D&) = delete;
};
struct Q {                   // is copied and moved but not assigned
    const int i;
    Q(int); Q(const Q&); Q(Q&&) noexcept; ~Q();
    Q& operator=(const Q&) = delete;
};
struct C {                   // only copies
    int i;
    C(int); C(const C&); C& operator=(const C&); ~C();
};
struct K {                   // a key which only moves and is only ordered
    int i;
    K(int); K(L&, R&&);
    K(K&&) noexcept; K& operator=(K&&) noexcept; ~K();
    K(const K&) = delete; K& operator=(const K&) = delete;
};
bool operator<(const K&, const K&);
struct KL { int i; };        // a key of another type which is only ordered with K
bool operator<(const K&, const KL&); bool operator<(const KL&, const K&);
inline void lv(L&); inline L& l() { static L x; return x; }

#if defined(H_small_vector) || defined(H_static_vector)
#if defined(H_small_vector)
#include <itlib/small_vector.hpp>
template <class T> using V = itlib::small_vector<T, 3>;
#else
#include <itlib/static_vector.hpp>
template <class T> using V = itlib::static_vector<T, 3>;
#endif
#if defined(N_MOVE)
// elements which only move and have no default constructor
template <class T, class F> void ops(V<T>& v, V<T>& w, F make) {
    V<T> d; V<T> m(std::move(v)); v = std::move(m); std::swap(v, w);
    v.push_back(make()); v.insert(v.begin(), make()); v.insert(v.cbegin(), make());
    v.erase(v.begin()); v.erase(v.begin(), v.end()); v.erase(v.cbegin()); v.pop_back(); v.clear();
    v.front().i = v.back().i + v[0].i + v.at(0).i + v.begin()->i + v.rbegin()->i;
#if defined(H_small_vector)
    v.reserve(10); v.shrink_to_fit(); v.revert_to_static();
#else
    v.swap(w);
#endif
}
void ops_m(V<M>& v, V<M>& w) { ops(v, w, [] { return M(1); }); v.emplace_back(l(), R()); v.emplace_back(5); v.emplace(v.begin(), l(), R()); v.emplace(v.cend(), 5); M& r = v.emplace_back(6); (void)r; }
void ops_d(V<D>& v, V<D>& w) { ops(v, w, [] { return D(); }); v.resize(4); V<D> n(3); v.emplace_back(); v.emplace(v.begin()); }
void ops_p(V<std::unique_ptr<int>>& v) { v.push_back(std::unique_ptr<int>(new int)); v.emplace_back(new int); v.insert(v.begin(), std::unique_ptr<int>()); v.emplace(v.begin(), new int); v.resize(2); v.erase(v.begin()); }
#elif defined(N_COPY)
// elements which are only copied, or never assigned, or have explicit constructors
void ops_c(V<C>& v, const V<C>& w, const C& c) {
    V<C> a(w), b(3, c), e(w.begin(), w.end()), f({c, c}); v = w; v.assign(3, c); v.assign(w.begin(), w.end()); v.assign({c, c});
    v.push_back(c); v.insert(v.begin(), c); v.insert(v.begin(), 2, c); v.insert(v.begin(), w.begin(), w.end()); v.insert(v.begin(), {c, c}); v.emplace_back(c); v.emplace(v.begin(), 3); v.resize(3, c); v.erase(v.begin()); v.pop_back(); v.clear();
}
void ops_q(V<Q>& v, const V<Q>& w, const Q& q) { V<Q> a(w), b(3, q), e(w.begin(), w.end()), m(std::move(v)); v.push_back(q); v.push_back(Q(1)); v.emplace_back(1); v.resize(3, q); v.pop_back(); v.clear(); }
struct E { explicit E(int); explicit E(const char*, int); int i; };
void ops_e(V<E>& v, const int* p) { v.emplace_back(1); v.emplace_back("a", 1); v.emplace(v.begin(), 2); v.emplace(v.begin(), "a", 1); (void)p; }
void ops_r(V<long>& v, const int* p, const V<int>& o) { V<long> a(p, p + 2), b(o.begin(), o.end()); v.assign(p, p + 2); v.insert(v.begin(), p, p + 2); v.insert(v.end(), o.begin(), o.end()); v.assign(3, 5); V<long> c(3, 5); }
#endif
#elif defined(H_flat_set)
#include <itlib/flat_set.hpp>
#include <itlib/small_vector.hpp>
#if defined(N_MOVE)
template <class S> void ops(S& s, S& t, typename S::container_type& c, const KL& k, const S& cs) {
    S d; S m(std::move(s)); s = std::move(m); std::swap(s, t); S f(std::move(c)); S g(std::move(c), itlib::fsimpl::less());
    s.insert(K(1)); s.emplace(l(), R()); s.emplace(5); s.find(k); s.count(k); s.lower_bound(k); s.upper_bound(k); s.equal_range(k); s.erase(k); s.erase(s.begin()); s.erase(s.cbegin()); s.clear(); s.reserve(4);
    cs.find(k); cs.count(k); cs.lower_bound(k); cs.upper_bound(k); cs.equal_range(k); cs.find(*cs.begin());
}
void ops_v(itlib::flat_set<K>& s, std::vector<K>& c, const KL& k) { ops(s, s, c, k, s); s.swap(s); }
void ops_s(itlib::flat_set<K, itlib::fsimpl::less, itlib::small_vector<K, 3>>& s, itlib::small_vector<K, 3>& c, const KL& k) { ops(s, s, c, k, s); }
#else
struct S3 { int i; }; struct Ord { int s; explicit Ord(int); bool operator()(const S3&, const S3&) const; };
void ops_c(const S3* p, const Ord& o, const S3& e, const std::vector<S3>& v) { itlib::flat_set<S3, Ord> s(o), t(p, p + 2, o), u({e, e}, o), w(v, o), x(s); s = x; s.insert(e); s.insert(S3()); s.emplace(e); s.find(e); s.erase(e); s.key_comp(); s.swap(t); }
void ops_a(const int* p) { std::allocator<int> a; itlib::flat_set<int> s(p, p + 2), t(p, p + 2, a), u({1, 2}, a), w(itlib::fsimpl::less(), a); s.insert(3); s.insert(*p); s.emplace(); }
#endif
#elif defined(H_flat_map)
#include <itlib/flat_map.hpp>
#include <itlib/small_vector.hpp>
#if defined(N_MOVE)
template <class S> void ops(S& s, S& t, typename S::container_type& c, const KL& k, const S& cs) {
    S d; S m(std::move(s)); s = std::move(m); std::swap(s, t); S f(std::move(c)); S g(std::move(c), itlib::fmimpl::less());
    s.insert(std::make_pair(K(1), D())); s.insert(typename S::value_type(K(1), D())); s.emplace(K(1), D()); s[5].i = 3; s[K(1)].i = 2; s.at(K(1)).i = 5; s.find(k); s.count(k); s.lower_bound(k); s.upper_bound(k); s.equal_range(k); s.erase(k); s.erase(s.begin()); s.erase(s.cbegin()); s.clear(); s.reserve(4);
    cs.find(k); cs.count(k); cs.lower_bound(k); cs.upper_bound(k); cs.equal_range(k); cs.at(cs.begin()->first);
}
void ops_v(itlib::flat_map<K, D>& s, std::vector<std::pair<K, D>>& c, const KL& k) { ops(s, s, c, k, s); s.swap(s); }
void ops_s(itlib::flat_map<K, D, itlib::fmimpl::less, itlib::small_vector<std::pair<K, D>, 3>>& s, itlib::small_vector<std::pair<K, D>, 3>& c, const KL& k) { ops(s, s, c, k, s); }
// values without a default constructor need no operator[]
void ops_m(itlib::flat_map<int, M>& s) { s.emplace(1, M(1)); s.insert(std::make_pair(1, M(2))); s.at(1).i = 3; s.find(1)->second.i = 4; s.erase(1); s.emplace(std::piecewise_construct, std::forward_as_tuple(1), std::forward_as_tuple(l(), R())); }
#else
struct S3 { int i; }; struct Ord { int s; explicit Ord(int); bool operator()(const S3&, const S3&) const; }; using P = std::pair<S3, C>;
void ops_c(const P* p, const Ord& o, const P& e, const std::vector<P>& v) { itlib::flat_map<S3, C, Ord> s(o), t(p, p + 2, o), u({e, e}, o), w(v, o), x(s); s = x; s.insert(e); s.insert(P(S3(), C(1))); s.emplace(e); s.emplace(S3(), 1); s.find(e.first); s.erase(e.first); s.at(e.first); s.swap(t); }
using I = std::pair<int, int>;
void ops_a(const I* p) { std::allocator<I> a; itlib::flat_map<int, int> s(p, p + 2), t(p, p + 2, a), u({I(1, 2)}, a), w(itlib::fmimpl::less(), a); s.insert(*p); s.insert({1, 2}); s.emplace(1, 2); s[4] = 4; s[*&p->first] = 4; }
#endif
#elif defined(H_any)
#include <itlib/any.hpp>
#if defined(N_MOVE)
void ops(itlib::any<>& a, itlib::any<>& b, M&& m) { itlib::any<> x(std::move(m)); itlib::any<> y(std::allocator_arg, itlib::any<>::allocator_type(), std::move(m)); a = std::move(m); a = D(); a.emplace<M>(l(), R()).i = 3; a.emplace<M>(5); a.emplace<D>(); a = std::move(b); a = b; itlib::any<> z(a), w(std::move(a)); M r(itlib::any_cast<M>(std::move(a))); M& q = itlib::any_cast<M&>(a); const M& c = itlib::any_cast<const M&>(static_cast<const itlib::any<>&>(a)); M* p = itlib::any_cast<M>(&a); (void)r; (void)q; (void)c; (void)p; std::swap(a, b); }
#else
void ops(itlib::any<>& a, const C& c, const Q& q) { a = c; a = q; a = Q(1); itlib::any<> x(c), y(q); C d = itlib::any_cast<C>(a); Q e = itlib::any_cast<Q>(a); const C f = itlib::any_cast<const C>(static_cast<const itlib::any<>&>(a)); (void)d; (void)e; (void)f; a = "text"; a = 5; a = nullptr; }
#endif
#elif defined(H_expected)
#include <itlib/expected.hpp>
#include <string>
#if defined(N_MOVE)
template <class T, class E> using X = itlib::expected<T, E>;
X<M, D> vm() { return M(1); }
X<M, D> ve() { return itlib::unexpected(D()); }
X<M, D> vd() { return itlib::unexpected(); }
X<D, M> ed() { return D(); }
X<void, M> eo() { return itlib::unexpected(M(1)); }
X<M, void> ov() { return itlib::unexpected(); }
X<M&, D> re(M& m) { if (m.i) return m; return itlib::unexpected(D()); }
template <class T> void ops(T& a, T& b) { T c(std::move(a)); a = std::move(b); std::swap(a, b); if (a) { M m(std::move(a).value()); M n(*std::move(a)); m.i = a->i + (*a).i + a.value().i; M o = std::move(a).value_or(M(1)); (void)o; } }
void all(X<M, D>& a, X<M, void>& b, X<void, M>& e) { ops(a, a); ops(b, b); D d(std::move(a).error()); M m(std::move(e).error()); b.emplace(l(), R()); b.emplace(5); b.clear(); X<void, M> f(std::move(e)); e = std::move(f); X<M, void> nv = M(2); X<void, M> nn; X<D, M> def; (void)nn; }
#else
using XS = itlib::expected<C, Q>;
XS v(const C& c) { C d(c); return XS(std::move(d)); }
itlib::expected<int, std::string> s(int i) { if (i) return 5; return itlib::unexpected("text"); }
itlib::expected<std::string, int> t(int i) { if (i) return std::string("text"); const int e = 3; return itlib::unexpected(e); }
itlib::expected<void, std::string> w(std::string& r) { return itlib::unexpected(r); }
int u(itlib::expected<std::string, int>& e) { return int(e.value_or("text").size() + std::move(e).value_or(std::string()).size()) + s(1).value_or('c'); }
#endif
#elif defined(H_ufunction)
#include <itlib/ufunction.hpp>
#if defined(N_MOVE)
struct F { std::unique_ptr<int> p; int operator()(L&, R&&, std::unique_ptr<int>); };
struct G { G(); G(G&&); G& operator=(G&&); void operator()(); };
M make(int);
M* use(itlib::ufunction<int(L&, R&&, std::unique_ptr<int>)>& f, itlib::ufunction<void()>& g, itlib::ufunction<M(int)>& h) {
    f = F(); f(l(), R(), std::unique_ptr<int>()); itlib::ufunction<int(L&, R&&, std::unique_ptr<int>)> f2 = F(), f3(std::move(f)); f3 = std::move(f2); std::swap(f2, f3); f = nullptr;
    g = G(); g(); h = make; h = &make; itlib::ufunction<M(int)> h2 = make; return new M(h(1)); }
itlib::ufunction<L&(L&)> ref() { return [](L& x) -> L& { return x; }; }
#else
struct Fc { int operator()(int); };
int use(itlib::ufunction<int(int)>& f, Fc& c, const L& cl) { f = c; f = [](long x) { return char(x); }; f = [](int) { return 1; }; itlib::ufunction<void(int)> g = [](int x) { return x; }; g(1); itlib::ufunction<int(const L&)> h = [](const L&) { return 3; }; itlib::ufunction<void()> e; if (e) e(); int n = 0; itlib::ufunction<void()> m = [n]() mutable { ++n; }; m(); return f(3) + h(cl); }
#endif
#elif defined(H_data_mutex)
#include <itlib/data_mutex.hpp>
#include <itlib/mutex.hpp>
#include <mutex>
// a mutex needs just the operations used
struct OnlyLock { void lock(); void unlock(); };
struct OnlyTry { bool try_lock(); void unlock(); };
struct OnlyShared { void lock_shared(); void unlock_shared(); };
struct OnlyTryShared { bool try_lock_shared(); void unlock_shared(); };
#if defined(N_MOVE)
void ops(itlib::data_mutex<M, OnlyLock>& a, itlib::data_mutex<M, OnlyTry>& b, itlib::data_mutex<M, OnlyShared>& c, itlib::data_mutex<M, OnlyTryShared>& d) {
    itlib::data_mutex<M, std::mutex> x(l(), R()), y(5), z(M(1)); itlib::data_mutex<D, std::mutex> w; itlib::data_mutex<std::unique_ptr<int>, itlib::strong_try_rec_mutex> u(new int);
    auto la = a.unique_lock(); auto ma = std::move(la); ma->i = (*ma).i; auto lb = b.try_unique_lock(); if (lb) lb->i = 3; auto lc = c.shared_lock(); int i = lc->i; auto ld = d.try_shared_lock(); if (ld) i += (*ld).i; (void)i;
}
#else
int ops(const itlib::data_mutex<Q, OnlyLock>& a, const itlib::data_mutex<Q, OnlyTry>& b, const itlib::data_mutex<C, OnlyShared>& c, const itlib::data_mutex<C, OnlyTryShared>& d) { auto la = a.unique_lock(); auto lb = b.try_unique_lock(); auto lc = c.shared_lock(); auto ld = d.try_shared_lock(); return la->i + (lb ? lb->i : 0) + lc->i + (ld ? ld->i : 0); }
#endif
#elif defined(H_sentry)
#include <itlib/sentry.hpp>
#if defined(N_MOVE)
struct F { std::unique_ptr<int> p; void operator()(); };
void ops() { auto s = itlib::make_sentry(F()); itlib::sentry<F> t{F()}; (void)s; (void)t; }
#else
struct F { int i; F(int); F(const F&); void operator()(); };
void fn();
void ops(F& f) { auto s = itlib::make_sentry(f); auto t = itlib::make_sentry(fn); auto u = itlib::make_sentry([&f] { f(); }); (void)s; (void)t; (void)u; }
#endif
#elif defined(H_make_ptr)
#include <itlib/make_ptr.hpp>
#include <itlib/atomic_shared_ptr_storage.hpp>
#if defined(N_MOVE)
void ops(M& m) { auto s = itlib::make_shared(std::move(m)); auto u = itlib::make_unique(std::move(m)); s->i = u->i; auto t = itlib::make_shared(D()); (void)t; itlib::atomic_shared_ptr_storage<M> a(s), b; a.store(std::move(s)); s = a.load(); s = a.exchange(std::move(s)); a.compare_exchange(s, std::move(s)); }
#else
struct No; std::shared_ptr<No> no();
void ops(const C& c) { auto s = itlib::make_shared(c); auto u = itlib::make_unique(c); int i = s->i + u->i; (void)i; itlib::atomic_shared_ptr_storage<No> a(no()); a.store(no()); no() = a.exchange(no()); }
#endif
#elif defined(H_generator)
#include <itlib/generator.hpp>
#if defined(N_MOVE)
itlib::generator<M> g() { co_yield M(1); M m(2); co_yield std::move(m); }
itlib::generator<M&> r(M& m) { co_yield m; }
itlib::generator<std::unique_ptr<int>> p() { co_yield std::unique_ptr<int>(); }
int ops() { int s = 0; for (auto&& m : g()) s += m.i; auto x = g(); while (auto v = x.next()) { s += v->i; M t(std::move(*v)); s += t.i; } M q(3); for (auto& m : r(q)) m.i = s; auto z = std::move(x); x = std::move(z); return s; }
#else
itlib::generator<C> g(C c) { co_yield c; co_yield C(1); }
itlib::generator<const Q&> r(const Q& q) { co_yield q; }
itlib::generator<long> w() { co_yield 1; co_yield 'c'; }
int ops(const Q& q) { int s = 0; for (auto&& c : g(C(1))) s += c.i; for (auto& x : r(q)) s += x.i; for (auto i : w()) s += int(i); return s; }
#endif
#elif defined(H_pmr)
#include <itlib/pmr_allocator.hpp>
#if defined(N_MOVE)
void ops(itlib::pmr_allocator<>& a) { M* m = a.new_object<M>(l(), R()); a.delete_object(m); m = a.new_object<M>(3); D* d = a.new_object<D>(); a.delete_object(d); M* n = a.allocate_object<M>(2); a.deallocate_object(n, 2); auto p = a.new_object<std::unique_ptr<int>>(new int); a.delete_object(p); itlib::pmr_allocator<M> b = a; M* q = b.allocate(2); b.construct(q, l(), R()); b.deallocate(q, 2); }
#else
void ops(itlib::pmr_allocator<>& a, const C& c) { auto p = a.new_object<C>(c); a.delete_object(p); auto q = a.new_object<Q>(3); a.delete_object(q); }
#endif
#elif defined(H_umap)
#include <itlib/transparent_umap.hpp>
#include <functional>
#if defined(N_MOVE)
struct H { using is_transparent = void; size_t operator()(const K&) const; size_t operator()(const KL&) const; size_t operator()(int) const; }; struct Eq { using is_transparent = void; template <class A, class B> bool operator()(const A&, const B&) const; };
void ops(itlib::transparent_umap<K, D, H, Eq>& m, const KL& k) { m[5].i = 3; m[K(1)].i = 4; m.at(k).i = 3; m.at(5).i = 4; m.try_emplace(5); m.try_emplace(K(1)); m.find(k); m.count(k); m.contains(k); auto n = std::move(m); m = std::move(n); }
void ops_m(itlib::transparent_umap<K, M, H, Eq>& m) { m.try_emplace(5, l(), R()); m.try_emplace(K(1), l(), R()); m.try_emplace(m.begin(), 5, l(), R()); m.at(5).i = 2; }
#else
struct H { using is_transparent = void; size_t operator()(const C&) const; size_t operator()(int) const; }; struct Eq { using is_transparent = void; template <class A, class B> bool operator()(const A&, const B&) const; };
void ops(itlib::transparent_umap<C, int, H, Eq>& m, const C& c) { m[c] = 3; m[5] = 3; m.at(c) = 4; m.try_emplace(c, 4); m.try_emplace(5, 4); itlib::transparent_umap<C, int, H, Eq> n(m); m = n; }
#endif
#elif defined(H_qalgorithm)
#include <itlib/qalgorithm.hpp>
#include <itlib/small_vector.hpp>
#include <vector>
#include <list>
#if defined(N_MOVE)
struct P { std::unique_ptr<int> p; bool operator()(const M&); bool operator()(M&); };   // a predicate with state (copied by standard algorithms)
bool by(const M&); bool operator==(const M&, const KL&);
void ops(std::vector<M>& v, const std::vector<M>& c, itlib::small_vector<M, 3>& s, const KL& k) { itlib::qfind(v, k)->i = 3; itlib::qfind(c, k); itlib::qfind_if(v, by); itlib::qfind_if(c, by); itlib::pfind(v, k)->i = 4; itlib::pfind_if(v, by); itlib::pfind(c, k); itlib::erase_first(v, k); itlib::erase_first_if(v, by); itlib::erase_all(v, k); itlib::erase_all_if(v, by); itlib::qany_of(c, by); itlib::qall_of(c, by); itlib::qnone_of(c, by); itlib::erase_all(s, k); itlib::erase_first(s, k); itlib::pfind(s, k); }
#else
void ops(std::list<int>& l, const std::list<int>& c, std::initializer_list<int> i) { itlib::qfind(l, 3); itlib::qfind(c, 3L); itlib::qfind(i, 3); itlib::erase_first(l, 3); itlib::qall_of(l); itlib::qnone_of(c); }
#endif
#elif defined(H_spans)
#include <itlib/span.hpp>
#include <itlib/stride_span.hpp>
#include <itlib/poly_span.hpp>
#include <itlib/memory_view.hpp>
#include <vector>
#include <array>
#if defined(N_MOVE)
struct Der : public M { int j; };
int ops(std::vector<M>& v, M (&a)[3], const M* p) { itlib::span<M> s(v), t(a), u(v.data(), 2); itlib::span<const M> c(s), d(p, 2), e(v); s = t; int i = s[0].i + s.front().i + s.back().i + s.begin()->i + s.subspan(1).size() + s.first(1)[0].i + s.last(1)[0].i; (void)u; (void)d; (void)e; for (auto& m : s) i += m.i; for (auto& m : c) i += m.i;
    auto q = itlib::make_span(v); auto q2 = itlib::make_span(a); i += q[0].i + q2[0].i; itlib::memory_view<M> mv(a, 3); itlib::const_memory_view<M> cv(mv); i += mv[0].i + cv[0].i; return i; }
#else
int ops(const std::vector<C>& v, std::array<C, 2>& a, const std::array<C, 2>& ca) { itlib::span<const C> c(v), d(ca); itlib::span<C> e(a); auto f = itlib::make_span(v); return c[0].i + d[0].i + e[0].i + f[0].i; }
#endif
#elif defined(H_utility)
#include <itlib/utility.hpp>
#include <itlib/type_traits.hpp>
#include <itlib/atomic.hpp>
#include <itlib/shared_from.hpp>
#if defined(N_MOVE)
M f(M& m) { return itlib::force_move(m); }
struct O { int a; M m; }; const O* g(M& m) { return itlib::owner_from_member(m, &O::m); }
#else
struct No; struct S : public itlib::enable_shared_from { int i; };
itlib::type_identity<No>* f(); No* g() { return itlib::make_nullptr<No>(); }
struct T : public itlib::enable_shared_from { M m; std::shared_ptr<M> f() { return shared_from(&m); } std::weak_ptr<T> w() { return weak_from(this); } std::shared_ptr<const T> c() const { return shared_from(this); } };
#endif
#elif defined(H_throw_ex)
#include <itlib/throw_ex.hpp>
#include <stdexcept>
#include <ostream>
#if defined(N_MOVE)
std::ostream& operator<<(std::ostream&, const M&); std::ostream& operator<<(std::ostream&, const L&);
struct Ex : public std::exception { explicit Ex(const std::string&); };
void f(L& x) { itlib::throw_ex<Ex>() << M(1) << x << "text" << 5; }
#else
std::ostream& operator<<(std::ostream&, const C&);
void f(const C& c) { itlib::throw_ex<std::runtime_error>() << c << 'c' << std::string("x"); }
#endif
#endif
