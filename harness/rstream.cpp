#include "vp.hpp"
#include <istream>
#include <type_traits>
// a stream over n chars "src" with the semantics of std::istringstream for what a read stream may use
struct Str {
    using char_type = char; using traits_type = std::char_traits<char>; using pos_type = std::streampos; using off_type = std::streamoff; using int_type = int;
    const char* src; std::streamoff n, pos; bool f, e, b;
    Str& read(char* out, std::streamsize c) { if (f || e || b) { f = true; return *this; }
        std::streamsize k = c; if (k > n - pos) { k = n - pos; e = f = true; } if (k > 0) __builtin_memcpy(out, src + pos, k); pos += k; return *this; }
    bool fail() const { return f || b; } bool bad() const { return b; } bool eof() const { return e; } bool good() const { return !f && !e && !b; }
    explicit operator bool() const { return !fail(); } bool operator!() const { return fail(); }
    std::ios_base::iostate rdstate() const { return (f ? std::ios_base::failbit : std::ios_base::goodbit) | (e ? std::ios_base::eofbit : std::ios_base::goodbit) | (b ? std::ios_base::badbit : std::ios_base::goodbit); }
    void clear(std::ios_base::iostate s = std::ios_base::goodbit) { f = s & std::ios_base::failbit; e = s & std::ios_base::eofbit; b = s & std::ios_base::badbit; }
    void setstate(std::ios_base::iostate s) { clear(rdstate() | s); }
    std::streampos tellg() { if (e) f = true; return fail() ? std::streampos(-1) : std::streampos(pos); }
    Str& seekg(std::streampos p) { e = false; if (fail()) return *this; std::streamoff o = p; if (o < 0 || o > n) f = true; else pos = o; return *this; }
    Str& seekg(std::streamoff o, std::ios_base::seekdir d) { if (d == std::ios_base::cur) o += pos; if (d == std::ios_base::end) o += n; return seekg(std::streampos(o)); }
    int get() { char c; return read(&c, 1).fail() ? -1 : c; }
};
inline Str& operator>>(Str& s, long& t) { vp_ghost_inc("shr"); t = vp_long("extracted"); vp_ghost_set("got", t); return s; }
#if defined SHR
#define ITLIB_RSTREAM_OVERLOAD_RSHIFT 1
#endif
#include <itlib/rstream.hpp>
using R = itlib::basic_rstream<Str>; using RR = itlib::basic_redirect_rstream<Str>;
static_assert(std::is_same<itlib::rstream, itlib::basic_rstream<std::istream>>::value && std::is_same<itlib::redirect_rstream, itlib::basic_redirect_rstream<std::istream>>::value, "rstream and redirect_rstream read std::istreams");
static_assert(std::is_base_of<R, RR>::value && std::is_convertible<RR*, R*>::value && std::has_virtual_destructor<R>::value, "a redirect_rstream is an rstream and can be destroyed as one");
static_assert(std::is_constructible<bool, const R&>::value && !std::is_convertible<const R&, bool>::value, "rstream is explicitly convertible to bool");
template <class T, class = void> struct Seeks : std::false_type {};
template <class T> struct Seeks<T, decltype(void(std::declval<T&>().seekg(std::streampos())))> : std::true_type {};
template <class T, class = void> struct Tells : std::false_type {};
template <class T> struct Tells<T, decltype(void(std::declval<T&>().tellg()))> : std::true_type {};
template <class T, class = void> struct Shr : std::false_type {};
template <class T> struct Shr<T, decltype(void(std::declval<T&>() >> std::declval<long&>()))> : std::true_type {};
static_assert(Seeks<Str>::value && Tells<Str>::value && !Seeks<R>::value && !Tells<R>::value && !Seeks<RR>::value, "read streams can't seek");
#if defined SHR
static_assert(Shr<R>::value, "operator>> is available on demand");
#else
static_assert(!Shr<R>::value, "operator>> is available on demand only");
#endif
#define RD(c, msg) vp_check((c), "stream", msg)
// a good stream of any length at any position
#define STR(s) Str s; s.n = (std::streamoff)vp_size("n"); char* buf_##s = (char*)vp_buffer(s.n, "srcbuf"); vp_label(buf_##s, s.n, "src"); s.src = buf_##s; s.pos = (std::streamoff)vp_size("p"); vp_assume(s.pos <= s.n); s.f = s.e = s.b = false;
#define OUT(o, c) size_t c = vp_size("c"); char* o = (char*)vp_buffer(c, "out");
extern "C" {
void d_read() { STR(s) OUT(o, c) vp_assume((std::streamoff)c <= s.n - s.pos); size_t p = s.pos; R r(s); auto& x = r.read(o, c); RD(&x == &r, "read returns the stream"); vp_seq(o, c, "src", p, "read gives the next elements of the wrapped stream"); RD(s.pos == (std::streamoff)(p + c), "reads advance the wrapped stream"); RD(r.good() && !r.fail() && !r.eof() && bool(r), "the state of the stream"); }
void d_read_twice() { STR(s) OUT(o, c) size_t d = vp_size("d"); vp_assume(d <= c && (std::streamoff)c <= s.n - s.pos); size_t p = s.pos; R r(s); r.read(o, d).read(o + d, c - d); vp_seq(o, c, "src", p, "reads are sequential"); }
void d_read_short() { STR(s) OUT(o, c) vp_assume((std::streamoff)c > s.n - s.pos); size_t p = s.pos, k = s.n - s.pos; R r(s); r.read(o, c); vp_seq(o, k, "src", p, "a short read gives what is left"); RD(!r.good() && r.fail() && r.eof() && !r, "a short read sets the state of the stream"); }
void d_wrap() { STR(s) OUT(o, c) size_t before = s.pos; { R r(s); } RD(s.pos == (std::streamoff)before && s.good(), "wrapping doesn't move the stream"); }
void d_state() { STR(s) s.f = vp_bool("f"); s.e = vp_bool("e"); s.b = vp_bool("b"); const R r(s); RD(r.fail() == (s.f || s.b), "fail() of the wrapped stream"); RD(r.eof() == s.e, "eof() of the wrapped stream"); RD(r.good() == (!s.f && !s.e && !s.b), "good() of the wrapped stream"); RD(bool(r) == !(s.f || s.b), "truth of the wrapped stream"); }
void d_read_state() { STR(s) OUT(o, c) s.f = vp_bool("f"); s.e = vp_bool("e"); s.b = vp_bool("b"); size_t p = s.pos, left = s.n - s.pos; bool ok = s.good(); bool f0 = s.f, e0 = s.e, b0 = s.b; R r(s); r.read(o, c); size_t k = !ok ? 0 : c < left ? c : left; RD(s.pos == (std::streamoff)(p + k), "a stream which is not good gives nothing"); vp_seq(o, k, "src", p, "a read gives what is left"); RD(r.fail() == (!ok || c > left) && r.eof() == (e0 || (ok && c > left)), "a read sets the state of the stream"); (void)f0; (void)b0; }
void d_redirect() { STR(s) OUT(o, c) size_t q = vp_size("q"); vp_assume((std::streamoff)q <= s.n && c <= s.n - q); std::streamoff p = s.pos; { RR r(s, std::streampos((std::streamoff)q)); r.read(o, c); RD(r.good(), "the state of the stream"); } vp_seq(o, c, "src", q, "a redirected stream reads from its position"); RD(s.pos == p && s.good(), "the original position is restored"); }
void d_redirect_nested() { STR(s) OUT(o, c) size_t q = vp_size("q"), q2 = vp_size("q2"); vp_assume((std::streamoff)q <= s.n && c <= s.n - q && (std::streamoff)q2 <= s.n); std::streamoff p = s.pos; { RR r(s, std::streampos((std::streamoff)q)); { RR i(s, std::streampos((std::streamoff)q2)); char x; if ((std::streamoff)q2 < s.n) i.read(&x, 1); } r.read(o, c); } vp_seq(o, c, "src", q, "redirects nest"); RD(s.pos == p && s.good(), "the original position is restored"); }
void d_redirect_throw() { STR(s) size_t q = vp_size("q"); vp_assume((std::streamoff)q <= s.n); std::streamoff p = s.pos; try { RR r(s, std::streampos((std::streamoff)q)); throw 1; } catch (int) {} RD(s.pos == p && s.good(), "the original position is restored when the scope is left by an exception"); }
void d_redirect_base() { STR(s) size_t q = vp_size("q"); vp_assume((std::streamoff)q <= s.n); std::streamoff p = s.pos; R* r = new RR(s, std::streampos((std::streamoff)q)); RD(s.pos == (std::streamoff)q, "a redirected stream starts at its position"); delete r; RD(s.pos == p && s.good(), "the original position is restored on destruction through the base"); }
void d_redirect_past_end() { STR(s) OUT(o, c) size_t q = vp_size("q"); vp_assume((std::streamoff)q <= s.n && c > s.n - q); std::streamoff p = s.pos; { RR r(s, std::streampos((std::streamoff)q)); r.read(o, c); RD(r.fail() && r.eof(), "a short read sets the state of the stream"); } vp_seq(o, s.n - q, "src", q, "a short read gives what is left"); RD(s.pos == p, "the original position is restored after a read past the end"); }
#if defined SHR
void d_shr() { STR(s) long t = 0; vp_ghost_set("shr", 0); R r(s); auto& x = (r >> t); RD(&x == &r && vp_ghost_get("shr") == 1 && t == vp_ghost_get("got"), "operator>> extracts from the wrapped stream"); }
#endif
}
