#include "vp.hpp"
#include "stdall.hpp"
// A recording string stream: str() gives a string which stands for the text inserted so far.
namespace std {
struct vp_text { long id; vp_text() noexcept : id(0) {} explicit vp_text(long i) : id(i) {}
    // text through a C string ends at its first null character
    vp_text(const char* c) : id(c ? -2 : -3) {} const char* c_str() const { return ""; } const char* data() const { return ""; } };
struct vp_os {
    long hash; vp_os() : hash(0) {} vp_os(const vp_os&) = delete; vp_os(vp_os&&) = default; virtual ~vp_os() {}
    void put(long what) { vp_ghost_inc("puts"); hash = hash * 10 + what; }
};
struct vp_oss : vp_os {
    vp_oss() {} explicit vp_oss(int) {}
    vp_oss(const vp_oss&) = delete; vp_oss(vp_oss&&) = default; ~vp_oss() override { vp_ghost_inc("ossdead"); }
    vp_text str() const { return vp_text(hash); }
};
}
struct A1 { int tag; }; struct B2 {};
namespace std {
inline vp_os& operator<<(vp_os& o, const ::A1& a) { o.put(a.tag); return o; }
inline vp_os& operator<<(vp_os& o, const ::B2&) { o.put(2); return o; }
inline vp_os& operator<<(vp_os& o, const char* s) { o.put(s == nullptr ? 9 : s[0] - '0'); return o; }
}
#define ostringstream vp_oss
#define stringstream vp_oss
#define ostream vp_os
#define string vp_text
#include <itlib/throw_ex.hpp>
#undef ostringstream
#undef stringstream
#undef ostream
#undef string
struct Ex { long id; VpE e; explicit Ex(const std::vp_text& t) : id(t.id) { vp_ghost_inc("made"); } Ex(const Ex&) = default; };
struct Ex2 { long id; explicit Ex2(std::vp_text t) : id(t.id) {} };
using T = itlib::throw_ex<Ex>;
#define TX(c, msg) vp_check((c), "content", msg)
#define T_START vp_ghost_set("made", 0); vp_ghost_set("puts", 0); vp_ghost_set("ossdead", 0); long got = -1;
#define T_END(text) TX(got == (text), "throws the exception with the text inserted"); TX(vp_ghost_get("made") == 1, "throws one exception"); TX(vp_ghost_get("ossdead") == 1, "the stream is destroyed");
static_assert(!noexcept(std::declval<T&>().~T()), "the destructor throws");
extern "C" {
void d_empty() { T_START try { T(); vp_fail("content", "execution continues after throw_ex"); } catch (const Ex& e) { got = e.id; } T_END(0) }
void d_one() { T_START try { T() << A1{7}; vp_fail("content", "execution continues after throw_ex"); } catch (const Ex& e) { got = e.id; } T_END(7) }
void d_many() { T_START A1 a{3}; const B2 b{}; try { T() << a << b << "5" << A1{1} << b; vp_fail("content", "execution continues after throw_ex"); } catch (const Ex& e) { got = e.id; } T_END(32512) TX(vp_ghost_get("puts") == 5, "every insertion goes to the text once"); }
void d_lit() { T_START const char* s = "4"; char arr[2] = {'6', 0}; try { T() << "8" << s << arr; vp_fail("content", "execution continues after throw_ex"); } catch (const Ex& e) { got = e.id; } T_END(846) }
void d_named() { T_START try { T t; T& r = (t << A1{1}); TX(&r == &t, "insertion returns the stream"); T& q = (t << "2"); TX(&q == &t, "insertion returns the stream"); TX(vp_ghost_get("made") == 0, "nothing is thrown before the end of the life of throw_ex"); } catch (const Ex& e) { got = e.id; } T_END(12) }
void d_other() { long got = -1; try { itlib::throw_ex<Ex2>() << A1{4} << "2"; vp_fail("content", "execution continues after throw_ex"); } catch (const Ex2& e) { got = e.id; } TX(got == 42, "throws the exception with the text inserted"); }
void d_nested_handler() { T_START try { try { throw 1; } catch (int) { T() << A1{5}; vp_fail("content", "execution continues after throw_ex"); } } catch (const Ex& e) { got = e.id; } T_END(5) }
}
