// Drivers shared by small_vector and static_vector: one per public operation, from an arbitrary
// valid state (any size and capacity), stating the std::vector meaning of the operation.
// The including file defines: V (type), E (element), PRE(v,n), inv(v), ROOM(total).
#define LEN(x) size_t x = vp_size(#x)
#define SRC(p, n) E* p = vp_make<E>(n, #p)
#define UNCHANGED(v, n) VP_CONTENT(v.size() == n, #v " keeps its size"); vp_seq(v.data(), n, #v, 0, #v " keeps its elements")
#define SIZE(v, n) VP_CONTENT(v.size() == (n), "resulting size")
#define GUARDED(...) try { __VA_ARGS__; } catch (...) {}

extern "C" {
// ---- construction
void d_ctor_default() { V v; SIZE(v, 0); VP_CONTENT(v.empty(), "default constructed vector is empty"); inv(v); }
void d_ctor_count() { LEN(n); ROOM(n); V v(n); SIZE(v, n); vp_default(v.data(), n, "count constructor value-initialises"); inv(v); }
void d_ctor_fill() { LEN(n); ROOM(n); E x; vp_label(&x, 1, "x"); V v(n, x); SIZE(v, n); vp_const(v.data(), n, "x", 0, "fill constructor copies the value"); inv(v); vp_const(&x, 1, "x", 0, "fill constructor leaves the value"); }
void d_ctor_range() { LEN(n); ROOM(n); SRC(src, n); V v(src, src + n); SIZE(v, n); vp_seq(v.data(), n, "src", 0, "range constructor copies the range"); inv(v); vp_seq(src, n, "src", 0, "range constructor leaves the range"); }
void d_ctor_ilist() { LEN(n); ROOM(n); SRC(src, n); V v(vp_ilist<E>(src, n)); SIZE(v, n); vp_seq(v.data(), n, "src", 0, "list constructor copies the list"); inv(v); vp_seq(src, n, "src", 0, "list constructor leaves the list"); }
void d_ctor_copy() { PRE(o, n); V v(o); SIZE(v, n); vp_seq(v.data(), n, "o", 0, "copy has the elements"); UNCHANGED(o, n); inv(v); inv(o); }
void d_ctor_move() { PRE(o, n); V v(std::move(o)); SIZE(v, n); vp_seq(v.data(), n, "o", 0, "move construction transfers the elements"); VP_CONTENT(o.size() == 0, "moved-from vector is empty"); inv(v); inv(o); }
// ---- assignment
void d_copy_assign() { PRE(v, n); PRE(o, m); V& r = (v = o); VP_CONTENT(&r == &v, "assignment returns the vector"); SIZE(v, m); vp_seq(v.data(), m, "o", 0, "copy assignment copies the elements"); UNCHANGED(o, m); inv(v); inv(o); }
void d_copy_assign_self() { PRE(v, n); V& r = v; v = r; UNCHANGED(v, n); inv(v); }
void d_move_assign() { PRE(v, n); PRE(o, m); V& r = (v = std::move(o)); VP_CONTENT(&r == &v, "assignment returns the vector"); SIZE(v, m); vp_seq(v.data(), m, "o", 0, "move assignment transfers the elements"); VP_CONTENT(o.size() == 0, "moved-from vector is empty"); inv(v); inv(o); }
void d_move_assign_self() { PRE(v, n); V& r = v; v = std::move(r); inv(v); }
void d_assign_fill() { PRE(v, n); LEN(m); ROOM(m); E x; vp_label(&x, 1, "x"); v.assign(m, x); SIZE(v, m); vp_const(v.data(), m, "x", 0, "assign(n,val)"); inv(v); vp_const(&x, 1, "x", 0, "assign leaves the value"); }
void d_assign_range() { PRE(v, n); LEN(m); ROOM(m); SRC(src, m); v.assign(src, src + m); SIZE(v, m); vp_seq(v.data(), m, "src", 0, "assign(first,last)"); inv(v); vp_seq(src, m, "src", 0, "assign leaves the range"); }
void d_assign_ilist() { PRE(v, n); LEN(m); ROOM(m); SRC(src, m); v.assign(vp_ilist<E>(src, m)); SIZE(v, m); vp_seq(v.data(), m, "src", 0, "assign(list)"); inv(v); vp_seq(src, m, "src", 0, "assign leaves the list"); }
// ---- access
void d_access() { PRE(v, n); LEN(i); vp_assume(i < n); const V& c = v; const E* d = v.data();
    VP_CONTENT(&v.at(i) == d + i && &c.at(i) == d + i && &v[i] == d + i && &c[i] == d + i, "at(i) and [i] are element i");
    VP_CONTENT(&v.front() == d && &c.front() == d, "front() is element 0");
    VP_CONTENT(&v.back() == d + (n - 1) && &c.back() == d + (n - 1), "back() is the last element"); UNCHANGED(v, n); }
void d_iter() { PRE(v, n); const V& c = v; const E* d = v.data();
    VP_CONTENT(c.data() == d && v.begin() == d && c.begin() == d && v.cbegin() == d && c.cbegin() == d, "begin() is data()");
    VP_CONTENT(v.end() == d + n && c.end() == d + n && v.cend() == d + n, "end() is data()+size()");
    VP_CONTENT(v.rbegin().base() == d + n && c.rbegin().base() == d + n && v.crbegin().base() == d + n, "rbegin() is reversed end()");
    VP_CONTENT(v.rend().base() == d && c.rend().base() == d && v.crend().base() == d, "rend() is reversed begin()");
    VP_CONTENT(v.size() == n && c.empty() == (n == 0), "size() and empty()"); UNCHANGED(v, n); }
// ---- modifiers
void d_clear() { PRE(v, n); v.clear(); SIZE(v, 0); inv(v); }
#define INSERTED(k, what) VP_CONTENT(v.size() == n + (k), "insertion grows the size by the count"); VP_CONTENT(it == v.begin() + i, "insertion returns the position of the first inserted element"); \
    vp_seq(v.data(), i, "v", 0, what ": prefix is kept"); vp_seq(v.data() + i + (k), n - i, "v", i, what ": suffix is shifted"); inv(v)
void d_insert_copy() { PRE(v, n); ROOM(n + 1); E x; vp_label(&x, 1, "x"); LEN(i); vp_assume(i <= n); const E& cx = x; auto it = v.insert(v.begin() + i, cx);
    vp_const(v.data() + i, 1, "x", 0, "insert(const&): value"); vp_const(&x, 1, "x", 0, "insert(const&) leaves the argument"); INSERTED(1, "insert(const&)"); }
void d_insert_move() { PRE(v, n); ROOM(n + 1); E x; vp_label(&x, 1, "x"); LEN(i); vp_assume(i <= n); auto it = v.insert(v.begin() + i, std::move(x));
    vp_const(v.data() + i, 1, "x", 0, "insert(&&): value"); vp_const(&x, 1, "moved", 0, "insert(&&) moves from the argument"); INSERTED(1, "insert(&&)"); }
void d_insert_fill() { PRE(v, n); LEN(k); ROOM(n + k); E x; vp_label(&x, 1, "x"); LEN(i); vp_assume(i <= n); auto it = v.insert(v.begin() + i, k, x);
    vp_const(v.data() + i, k, "x", 0, "insert(n,val): values"); vp_const(&x, 1, "x", 0, "insert(n,val) leaves the argument"); INSERTED(k, "insert(n,val)"); }
void d_insert_range() { PRE(v, n); LEN(k); ROOM(n + k); SRC(src, k); LEN(i); vp_assume(i <= n); auto it = v.insert(v.begin() + i, src, src + k);
    vp_seq(v.data() + i, k, "src", 0, "insert(range): values"); vp_seq(src, k, "src", 0, "insert(range) leaves the range"); INSERTED(k, "insert(range)"); }
void d_insert_ilist() { PRE(v, n); LEN(k); ROOM(n + k); SRC(src, k); LEN(i); vp_assume(i <= n); auto it = v.insert(v.begin() + i, vp_ilist<E>(src, k));
    vp_seq(v.data() + i, k, "src", 0, "insert(list): values"); vp_seq(src, k, "src", 0, "insert(list) leaves the list"); INSERTED(k, "insert(list)"); }
void d_emplace() { PRE(v, n); ROOM(n + 1); int y = vp_int("y"); LEN(i); vp_assume(i <= n); E ref(y); vp_label(&ref, 1, "y"); auto it = v.emplace(v.begin() + i, std::move(ref));
    vp_const(v.data() + i, 1, "y", 0, "emplace: value"); vp_const(&ref, 1, "moved", 0, "emplace forwards rvalues as rvalues"); INSERTED(1, "emplace"); }
void d_emplace_lvalue() { PRE(v, n); ROOM(n + 1); E x; vp_label(&x, 1, "x"); LEN(i); vp_assume(i <= n); auto it = v.emplace(v.begin() + i, x);
    vp_const(v.data() + i, 1, "x", 0, "emplace: value"); vp_const(&x, 1, "x", 0, "emplace forwards lvalues as lvalues"); INSERTED(1, "emplace"); }
void d_insert_own_copy() { PRE(v, n); ROOM(n + 1); LEN(i); vp_assume(i <= n); LEN(j); vp_assume(j < n); const E& x = v[j]; auto it = v.insert(v.begin() + i, x);
    vp_const(v.data() + i, 1, "v", j, "insert of an own element: value"); INSERTED(1, "insert of an own element"); }
void d_insert_own_fill() { PRE(v, n); LEN(k); ROOM(n + k); LEN(i); vp_assume(i <= n); LEN(j); vp_assume(j < n); auto it = v.insert(v.begin() + i, k, v[j]);
    vp_const(v.data() + i, k, "v", j, "insert(n, own element): values"); INSERTED(k, "insert(n, own element)"); }
void d_insert_own_move() { PRE(v, n); ROOM(n + 1); LEN(i); vp_assume(i <= n); LEN(j); vp_assume(j < n); v.insert(v.begin() + i, std::move(v[j]));
    VP_CONTENT(v.size() == n + 1, "insert of a moved own element: size"); vp_const(v.data() + i, 1, "v", j, "insert of a moved own element: value"); inv(v); }
void d_erase() { PRE(v, n); LEN(i); vp_assume(i < n); auto it = v.erase(v.begin() + i); SIZE(v, n - 1); VP_CONTENT(it == v.begin() + i, "erase returns the position");
    vp_seq(v.data(), i, "v", 0, "erase: prefix is kept"); vp_seq(v.data() + i, n - 1 - i, "v", i + 1, "erase: suffix is shifted"); inv(v); }
void d_erase_range() { PRE(v, n); LEN(i); LEN(j); vp_assume(i <= j && j <= n); auto it = v.erase(v.begin() + i, v.begin() + j);
    SIZE(v, n - (j - i)); VP_CONTENT(it == v.begin() + i, "erase(range) returns the position");
    vp_seq(v.data(), i, "v", 0, "erase(range): prefix is kept"); vp_seq(v.data() + i, n - j, "v", j, "erase(range): suffix is shifted"); inv(v); }
void d_push_copy() { PRE(v, n); ROOM(n + 1); E x; vp_label(&x, 1, "x"); const E& cx = x; v.push_back(cx); SIZE(v, n + 1); vp_seq(v.data(), n, "v", 0, "push_back keeps the elements"); vp_const(v.data() + n, 1, "x", 0, "push_back(const&): value"); vp_const(&x, 1, "x", 0, "push_back(const&) leaves the argument"); inv(v); }
void d_push_move() { PRE(v, n); ROOM(n + 1); E x; vp_label(&x, 1, "x"); v.push_back(std::move(x)); SIZE(v, n + 1); vp_seq(v.data(), n, "v", 0, "push_back keeps the elements"); vp_const(v.data() + n, 1, "x", 0, "push_back(&&): value"); vp_const(&x, 1, "moved", 0, "push_back(&&) moves from the argument"); inv(v); }
void d_push_own() { PRE(v, n); ROOM(n + 1); LEN(j); vp_assume(j < n); const E& x = v[j]; v.push_back(x); SIZE(v, n + 1); vp_seq(v.data(), n, "v", 0, "push_back of an own element keeps the elements"); vp_const(v.data() + n, 1, "v", j, "push_back of an own element: value"); inv(v); }
void d_emplace_back() { PRE(v, n); ROOM(n + 1); E x; vp_label(&x, 1, "x"); E& r = v.emplace_back(std::move(x)); SIZE(v, n + 1); VP_CONTENT(&r == v.data() + n, "emplace_back returns the new element"); vp_seq(v.data(), n, "v", 0, "emplace_back keeps the elements"); vp_const(v.data() + n, 1, "x", 0, "emplace_back: value"); vp_const(&x, 1, "moved", 0, "emplace_back forwards rvalues as rvalues"); inv(v); }
void d_emplace_back_int() { PRE(v, n); ROOM(n + 1); E& r = v.emplace_back(7); SIZE(v, n + 1); VP_CONTENT(&r == v.data() + n, "emplace_back returns the new element"); vp_seq(v.data(), n, "v", 0, "emplace_back keeps the elements"); if (!__is_trivially_copyable(E)) vp_const(v.data() + n, 1, "int", 7, "emplace_back constructs from the arguments"); inv(v); }
void d_pop_back() { PRE(v, n); vp_assume(n > 0); v.pop_back(); SIZE(v, n - 1); vp_seq(v.data(), n - 1, "v", 0, "pop_back keeps the others"); inv(v); }
void d_resize() { PRE(v, n); LEN(m); ROOM(m); v.resize(m); SIZE(v, m); if (m <= n) { vp_seq(v.data(), m, "v", 0, "resize keeps the first elements"); } else { vp_seq(v.data(), n, "v", 0, "resize keeps the elements"); vp_default(v.data() + n, m - n, "resize value-initialises new elements"); } inv(v); }
void d_resize_val() { PRE(v, n); LEN(m); ROOM(m); E x; vp_label(&x, 1, "x"); v.resize(m, x); SIZE(v, m); if (m <= n) { vp_seq(v.data(), m, "v", 0, "resize keeps the first elements"); } else { vp_seq(v.data(), n, "v", 0, "resize keeps the elements"); vp_const(v.data() + n, m - n, "x", 0, "resize(n,val) copies val"); } vp_const(&x, 1, "x", 0, "resize leaves the argument"); inv(v); }
void d_resize_own() { PRE(v, n); LEN(m); ROOM(m); LEN(j); vp_assume(j < n && n < m); v.resize(m, v[j]); SIZE(v, m); vp_seq(v.data(), n, "v", 0, "resize keeps the elements"); vp_const(v.data() + n, m - n, "v", j, "resize(n, own element) copies it"); inv(v); }
// ---- element constructors and allocation may throw
#define T_COPY vp_throws("copy,default,value,alloc")
void d_t_ctor_count() { T_COPY; LEN(n); ROOM(n); GUARDED(V v(n); SIZE(v, n); inv(v)); }
void d_t_ctor_fill() { LEN(n); ROOM(n); E x; T_COPY; GUARDED(V v(n, x); SIZE(v, n); inv(v)); }
void d_t_ctor_range() { LEN(n); ROOM(n); SRC(src, n); T_COPY; GUARDED(V v((const E*)src, (const E*)src + n); SIZE(v, n); inv(v)); }
void d_t_ctor_ilist() { LEN(n); ROOM(n); SRC(src, n); T_COPY; GUARDED(V v(vp_ilist<E>(src, n)); SIZE(v, n); inv(v)); }
void d_t_ctor_copy() { PRE(o, n); T_COPY; GUARDED(V v(o); SIZE(v, n); inv(v)); UNCHANGED(o, n); }
void d_t_copy_assign() { PRE(v, n); PRE(o, m); T_COPY; GUARDED(v = o); inv(v); UNCHANGED(o, m); }
void d_t_assign_fill() { PRE(v, n); LEN(m); ROOM(m); E x; T_COPY; GUARDED(v.assign(m, x)); inv(v); }
void d_t_assign_range() { PRE(v, n); LEN(m); ROOM(m); SRC(src, m); T_COPY; GUARDED(v.assign((const E*)src, (const E*)src + m)); inv(v); }
void d_t_assign_ilist() { PRE(v, n); LEN(m); ROOM(m); SRC(src, m); T_COPY; GUARDED(v.assign(vp_ilist<E>(src, m))); inv(v); }
void d_t_insert_copy() { PRE(v, n); ROOM(n + 1); E x; LEN(i); vp_assume(i <= n); T_COPY; GUARDED(v.insert(v.begin() + i, (const E&)x)); inv(v); vp_seq(v.data(), i, "v", 0, "a failed insert keeps the elements before the position"); }
void d_t_insert_fill() { PRE(v, n); LEN(k); ROOM(n + k); E x; LEN(i); vp_assume(i <= n); T_COPY; GUARDED(v.insert(v.begin() + i, k, x)); inv(v); vp_seq(v.data(), i, "v", 0, "a failed insert keeps the elements before the position"); }
void d_t_insert_range() { PRE(v, n); LEN(k); ROOM(n + k); SRC(src, k); LEN(i); vp_assume(i <= n); T_COPY; GUARDED(v.insert(v.begin() + i, (const E*)src, (const E*)src + k)); inv(v); }
void d_t_insert_ilist() { PRE(v, n); LEN(k); ROOM(n + k); SRC(src, k); LEN(i); vp_assume(i <= n); T_COPY; GUARDED(v.insert(v.begin() + i, vp_ilist<E>(src, k))); inv(v); }
void d_t_emplace() { PRE(v, n); ROOM(n + 1); LEN(i); vp_assume(i <= n); T_COPY; GUARDED(v.emplace(v.begin() + i, 3)); inv(v); }
#define STRONG(op, what) bool ok = false; GUARDED(op; ok = true); if (ok) { SIZE(v, n + 1); } else { VP_CONTENT(v.size() == n, what " which throws keeps the size"); } vp_seq(v.data(), n, "v", 0, what " which throws keeps the elements"); inv(v)
void d_t_push_copy() { PRE(v, n); ROOM(n + 1); E x; T_COPY; STRONG(v.push_back((const E&)x), "push_back"); }
void d_t_push_own() { PRE(v, n); ROOM(n + 1); LEN(j); vp_assume(j < n); T_COPY; STRONG(v.push_back((const E&)v[j]), "push_back"); }
void d_t_emplace_back() { PRE(v, n); ROOM(n + 1); T_COPY; STRONG(v.emplace_back(3), "emplace_back"); }
void d_t_resize() { PRE(v, n); LEN(m); ROOM(m); T_COPY; GUARDED(v.resize(m)); inv(v); }
void d_t_resize_val() { PRE(v, n); LEN(m); ROOM(m); E x; T_COPY; GUARDED(v.resize(m, x)); inv(v); }
void d_t_move() { PRE(v, n); PRE(o, m); T_COPY; v = std::move(o); V w(std::move(v)); w.clear(); inv(v); inv(o); inv(w); }
}
