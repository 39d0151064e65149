#include "vp.hpp"
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0   // analyse the bodies of std::basic_streambuf
#include <itlib/mem_streambuf.hpp>
#include <itlib/small_vector.hpp>
#include <itlib/static_vector.hpp>
#include <vector>
#include <algorithm>
using namespace itlib;
// a contiguous container with an internal buffer (like std::string), or without one (like std::vector)
#ifndef SSO
#define SSO 16
#endif
template <class T> struct VpCont {
    using value_type = T;
    VpCont() : p(in()), n(0), cap(SSO) {}
    VpCont(const VpCont& o) : VpCont() { resize(o.n); std::copy(o.p, o.p + o.n, p); }
    VpCont(VpCont&& o) noexcept : VpCont() { swap(o); }
    VpCont& operator=(const VpCont& o) { if (this != &o) { resize(o.n); std::copy(o.p, o.p + o.n, p); } return *this; }
    ~VpCont() { if (p != in()) delete[] p; }
    T* data() { return p; } const T* data() const { return p; }
    size_t size() const { return n; } size_t capacity() const { return cap; }
    void clear() { n = 0; }
    void reserve(size_t c) { if (c > cap) { if (c < 2 * cap) c = 2 * cap; T* q = new T[c]; std::copy(p, p + n, q); if (p != in()) delete[] p; p = q; cap = c; } }
    void resize(size_t m) { reserve(m); if (m > n) __builtin_memset(p + n, 0, (m - n) * sizeof(T)); n = m; }
    void swap(VpCont& o) {
        VpCont t;
        move(t, *this); move(*this, o); move(o, t);
    }
private:
    T* in() { return SSO ? b : nullptr; }
    static void move(VpCont& d, VpCont& s) { if (s.p == s.in()) { d.p = d.in(); __builtin_memcpy(d.b, s.b, SSO * sizeof(T)); } else d.p = s.p; d.n = s.n; d.cap = s.cap; s.p = s.in(); s.n = 0; s.cap = SSO; }
    T* p; size_t n, cap; T b[SSO + 1] = {};
};
#ifndef CONT
#define CONT VpCont<char>
#endif
using C = CONT;
using OB = mem_ostreambuf<C>;
using T = C::value_type;
using IB = mem_istreambuf<T>;
using Int = std::char_traits<T>::int_type;
#define END std::char_traits<T>::eof()
#define LEN(x) size_t x = vp_size(#x)
#define SRC(p, n) T* p = vp_make<T>(n, #p)
#define OUT(c, msg) VP_CONTENT(c, msg)
// a buffer to which n elements have been written
#define PRE(b, n) OB b(vp_bool("reserve_" #b) ? vp_size("res_" #b) : 0); LEN(n); { T* p_ = vp_make<T>(n, #b); OUT(b.sputn(p_, n) == (long)n, "sputn writes everything"); }
#define HAS(b, i, n, lab, j) vp_seq(b.peek_container().data() + (i), n, lab, j, "the container holds what was written, where it was written")
#define ROOM(b) const size_t room_##b = b.peek_container().size()
#define FITS(b, k) if ((k) <= room_##b) { OUT(b.peek_container().size() == room_##b, "writing in the space already reserved takes no more of it"); }
#define AT(b, n) OUT(b.poff() == (n), "the put offset"); OUT(b.poff() <= b.peek_container().size(), "the put offset is inside the container")
static long any_seek(OB& b, size_t at, bool& ok) {
    long off = vp_long("off"), target; size_t size = b.peek_container().size(); int way = vp_int("way"); long r;
    if (way == 0) { target = off; r = b.pubseekoff(off, std::ios_base::beg, std::ios_base::out); }
    else if (way == 1) { if (__builtin_add_overflow(long(at), off, &target)) target = -1; r = b.pubseekoff(off, std::ios_base::cur, std::ios_base::out); }
    else if (way == 2) { if (__builtin_add_overflow(long(size), off, &target)) target = -1; r = b.pubseekoff(off, std::ios_base::end, std::ios_base::out); }
    else { target = off; r = b.pubseekpos(off, std::ios_base::out); }
    ok = target >= 0 && size_t(target) <= size;
    OUT(r == (ok ? target : -1), "a seek inside the buffer gives the new position, any other fails");
    OUT(b.poff() == (ok ? size_t(target) : at), "a seek moves the put position, a failed one doesn't");
    return ok ? target : long(at);
}
extern "C" {
void d_new() { OB b; AT(b, 0); }
void d_new_reserve() { LEN(r); OB b(r); AT(b, 0); OUT(b.peek_container().size() >= r, "the space is reserved"); }
void d_write() { PRE(b, n); AT(b, n); HAS(b, 0, n, "b", 0); LEN(m); SRC(q, m); ROOM(b); OUT(b.sputn(q, m) == (long)m, "sputn writes everything"); FITS(b, n + m); AT(b, n + m); HAS(b, 0, n, "b", 0); HAS(b, n, m, "q", 0); }
void d_write_get() { PRE(b, n); LEN(m); SRC(q, m); b.sputn(q, m); C c = b.get_container(); OUT(c.size() == n + m, "get_container gives exactly what was written"); vp_seq(c.data(), n, "b", 0, "get_container gives what was written"); vp_seq(c.data() + n, m, "q", 0, "get_container gives what was written"); AT(b, 0); }
void d_putc() { PRE(b, n); SRC(x, 2); ROOM(b); b.sputc(x[0]); FITS(b, n + 1); b.sputc(x[1]); AT(b, n + 2); HAS(b, 0, n, "b", 0); HAS(b, n, 2, "x", 0); }
void d_get_putc() { PRE(b, n); C c = b.get_container(); SRC(x, 1); b.sputc(x[0]); AT(b, 1); HAS(b, 0, 1, "x", 0); vp_seq(c.data(), n, "b", 0, "later writes don't touch the container given away"); }
void d_get_write() { PRE(b, n); C c = b.get_container(); LEN(m); SRC(q, m); b.sputn(q, m); AT(b, m); HAS(b, 0, m, "q", 0); vp_seq(c.data(), n, "b", 0, "later writes don't touch the container given away"); C d = b.get_container(); OUT(d.size() == m, "get_container gives exactly what was written since"); vp_seq(d.data(), m, "q", 0, "get_container gives what was written since"); }
void d_get_twice() { PRE(b, n); b.get_container(); C c = b.get_container(); OUT(c.size() == 0, "a second get_container is empty"); }
void d_get_seek() { PRE(b, n); b.get_container(); bool ok; any_seek(b, 0, ok); }
void d_clear() { PRE(b, n); b.clear(); AT(b, 0); LEN(m); SRC(q, m); b.sputn(q, m); AT(b, m); HAS(b, 0, m, "q", 0); C c = b.get_container(); OUT(c.size() == m, "clear forgets what was written"); }
void d_clear_putc() { PRE(b, n); b.clear(); SRC(x, 1); b.sputc(x[0]); AT(b, 1); HAS(b, 0, 1, "x", 0); }
void d_seek() { PRE(b, n); bool ok; any_seek(b, n, ok); HAS(b, 0, n, "b", 0); }
void d_seek_write() { PRE(b, n); bool ok; size_t k = any_seek(b, n, ok); vp_assume(k <= n); LEN(m); SRC(q, m); ROOM(b); OUT(b.sputn(q, m) == (long)m, "sputn writes everything"); FITS(b, k + m); AT(b, k + m); HAS(b, 0, k, "b", 0); HAS(b, k, m, "q", 0); if (k + m < n) { HAS(b, k + m, n - k - m, "b", k + m); } }
void d_seek_write_far() { PRE(b, n); bool ok; size_t k = any_seek(b, n, ok); LEN(m); SRC(q, m); b.sputn(q, m); AT(b, k + m); HAS(b, k, m, "q", 0); HAS(b, 0, k < n ? k : n, "b", 0); }
void d_seek_putc() { PRE(b, n); bool ok; size_t k = any_seek(b, n, ok); SRC(x, 1); b.sputc(x[0]); AT(b, k + 1); HAS(b, k, 1, "x", 0); HAS(b, 0, k < n ? k : n, "b", 0); }
void d_seek_get() { PRE(b, n); bool ok; size_t k = any_seek(b, n, ok); C c = b.get_container(); OUT(c.size() == k, "get_container ends at the put position"); vp_seq(c.data(), k < n ? k : n, "b", 0, "get_container gives what was written"); AT(b, 0); }
void d_copy() { PRE(a, n); OB b(a); AT(b, n); AT(a, n); LEN(m); SRC(q, m); ROOM(b); b.sputn(q, m); FITS(b, n + m); AT(b, n + m); AT(a, n); HAS(b, 0, n, "a", 0); HAS(b, n, m, "q", 0); HAS(a, 0, n, "a", 0); }
void d_copy_putc() { PRE(a, n); OB b(a); SRC(x, 2); a.sputc(x[0]); b.sputc(x[1]); HAS(a, n, 1, "x", 0); HAS(b, n, 1, "x", 1); HAS(a, 0, n, "a", 0); HAS(b, 0, n, "a", 0); }
void d_copy_assign() { PRE(a, n); PRE(b, k); b = a; AT(b, n); LEN(m); SRC(q, m); ROOM(b); b.sputn(q, m); FITS(b, n + m); AT(b, n + m); AT(a, n); HAS(b, 0, n, "a", 0); HAS(b, n, m, "q", 0); HAS(a, 0, n, "a", 0); }
void d_self_assign() { PRE(a, n); OB& b = a; a = b; AT(a, n); HAS(a, 0, n, "a", 0); SRC(x, 1); a.sputc(x[0]); AT(a, n + 1); HAS(a, n, 1, "x", 0); }
void d_write_throw() { PRE(b, n); LEN(m); SRC(q, m); bool threw = false; vp_throws("alloc"); try { b.sputn(q, m); } catch (...) { threw = true; } vp_throws(""); AT(b, threw ? n : n + m); HAS(b, 0, n, "b", 0); b.sputn(q, m); HAS(b, b.poff() - m, m, "q", 0); }
}
// input
#define IPRE(b, n, k) LEN(n); SRC(a, n); IB b(a, n); size_t k = vp_size(#k); vp_assume(k <= n); OUT(b.pubseekpos(k, std::ios_base::in) == (long)k, "a seek inside the buffer gives the new position"); IAT(b, n, k)
#define IAT(b, n, k) OUT(b.size() == (n), "the size"); OUT(b.goff() == (k), "the get offset"); KEPT(n)
#define KEPT(n) vp_seq(a, n, "a", 0, "the memory given is never modified")
extern "C" {
void d_in_new() { LEN(n); SRC(a, n); IB b(a, n); IAT(b, n, 0); }
void d_in_default() { IB b; OUT(b.size() == 0 && b.goff() == 0, "a default buffer is empty"); T x; OUT(b.sgetn(&x, 1) == 0, "nothing to read"); OUT(b.sgetc() == END && b.sbumpc() == END, "nothing to read"); }
void d_in_read() { IPRE(b, n, k); size_t c = vp_size("c"); T* d = static_cast<T*>(vp_buffer(c * sizeof(T), "d")); long r = b.sgetn(d, c); size_t left = n - k, e = c < left ? c : left; OUT(r == (long)e, "reads as much as there is"); vp_seq(d, e, "a", k, "reads what is at the get position"); IAT(b, n, k + e); }
void d_in_read_twice() { IPRE(b, n, k); size_t c = vp_size("c"), c2 = vp_size("c2"); T* d = static_cast<T*>(vp_buffer(c * sizeof(T), "d")); T* d2 = static_cast<T*>(vp_buffer(c2 * sizeof(T), "d2")); size_t e = b.sgetn(d, c); vp_assume(e == c); size_t left = n - k - c, e2 = c2 < left ? c2 : left; OUT(b.sgetn(d2, c2) == (long)e2, "reads as much as there is"); vp_seq(d2, e2, "a", k + c, "reads on from the get position"); IAT(b, n, k + c + e2); }
void d_in_getc() { IPRE(b, n, k); Int c = b.sgetc(); OUT(c == END ? k == n || sizeof(T) > 1 : k < n, "sgetc fails only at the end"); if (k < n) { OUT(T(c) == a[k], "sgetc gives what is at the get position"); } IAT(b, n, k); }
void d_in_bumpc() { IPRE(b, n, k); Int c = b.sbumpc(); OUT(c == END ? k == n || sizeof(T) > 1 : k < n, "sbumpc fails only at the end"); if (k < n) { OUT(T(c) == a[k], "sbumpc gives what is at the get position"); } IAT(b, n, k < n ? k + 1 : k); }
void d_in_unget() { IPRE(b, n, k); Int c = b.sungetc(); OUT(c == END ? k == 0 || sizeof(T) > 1 : k > 0, "sungetc fails only at the start"); IAT(b, n, k ? k - 1 : 0); }
void d_in_seek() {
    IPRE(b, n, k);
    long off = vp_long("off"), target; int way = vp_int("way"); long r;
    if (way == 0) { target = off; r = b.pubseekoff(off, std::ios_base::beg, std::ios_base::in); }
    else if (way == 1) { if (__builtin_add_overflow(long(k), off, &target)) target = -1; r = b.pubseekoff(off, std::ios_base::cur, std::ios_base::in); }
    else if (way == 2) { if (__builtin_add_overflow(long(n), off, &target)) target = -1; r = b.pubseekoff(off, std::ios_base::end, std::ios_base::in); }
    else { target = off; r = b.pubseekpos(off, std::ios_base::in); }
    bool ok = target >= 0 && size_t(target) <= n;
    OUT(r == (ok ? target : -1), "a seek inside the buffer gives the new position, any other fails");
    IAT(b, n, ok ? size_t(target) : k);
    size_t p = b.goff(); T x; long e = b.sgetn(&x, 1); OUT(e == (p < n ? 1 : 0), "reads after a seek stay in the buffer"); if (e) vp_seq(&x, 1, "a", p, "reads on from the position sought");
}
void d_in_reset() { IPRE(b, n, k); LEN(m); SRC(q, m); b.reset(q, m); OUT(b.size() == m && b.goff() == 0, "reset starts over with the new memory"); size_t c = vp_size("c"); T* d = static_cast<T*>(vp_buffer(c * sizeof(T), "d")); size_t e = c < m ? c : m; OUT(b.sgetn(d, c) == (long)e, "reads as much as there is"); vp_seq(d, e, "q", 0, "reads the new memory"); KEPT(n); }
void d_in_copy() { IPRE(b, n, k); IB c(b); T x; OUT(c.goff() == k && c.size() == n, "a copy is at the same position"); long e = c.sgetn(&x, 1); OUT(e == (k < n ? 1 : 0), "a copy reads the same memory"); OUT(b.goff() == k, "a copy is independent"); }
}
// ---- growth: room for a number of characters in proportion to the size, so that writing n characters copies O(n) characters
extern "C" {
#define FULL PRE(b, n); vp_assume(n == b.peek_container().size() && n >= 16 && n > SSO); const size_t oc = n
#define GROWN vp_check(b.peek_container().size() >= oc + oc / 8, "growth", "a full buffer grows by a part of its size")
void d_g_putc() { FULL; b.sputc(T('x')); GROWN; }
void d_g_put() { FULL; T c = T('x'); b.sputn(&c, 1); GROWN; }
}
