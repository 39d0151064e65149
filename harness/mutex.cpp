#include "vp.hpp"
#include <itlib/mutex.hpp>
using M = itlib::strong_try_rec_mutex;
#define LK(c, msg) vp_check((c), "lock", msg)
// one operation of a thread: its own critical section, all locks released
static bool try_(M& m, int t) { vp_thread(t); vp_op(); bool r = m.try_lock(); LK(vp_acquisitions() == 1 && vp_locks_held() == 0, "an operation is one critical section of the internal mutex"); return r; }
static void unl(M& m, int t) { vp_thread(t); vp_op(); m.unlock(); LK(vp_acquisitions() == 1 && vp_locks_held() == 0, "an operation is one critical section of the internal mutex"); }
#define THREADS int a = vp_int("thread_a"), b = vp_int("thread_b"), c = vp_int("thread_c"); vp_assume(a > 0 && b > 0 && c > 0 && a != b && a != c && b != c)
extern "C" {
void d_free() { THREADS; M m; vp_shared(&m, sizeof(m)); LK(try_(m, a), "a free mutex can be locked"); LK(!try_(m, b), "a mutex owned by another thread can't be locked"); LK(!try_(m, c), "a mutex owned by another thread can't be locked"); unl(m, a); LK(try_(m, b), "a mutex unlocked as often as locked is free"); LK(!try_(m, a), "a mutex owned by another thread can't be locked"); unl(m, b); vp_unshared(); }
void d_recursive() { THREADS; M m; vp_shared(&m, sizeof(m)); LK(try_(m, a), "a free mutex can be locked"); LK(try_(m, a), "the owner can lock again"); LK(try_(m, a), "the owner can lock again"); LK(!try_(m, b), "a mutex owned by another thread can't be locked"); unl(m, a); LK(!try_(m, b), "a mutex not unlocked as often as locked stays owned"); unl(m, a); LK(!try_(m, b), "a mutex not unlocked as often as locked stays owned"); unl(m, a); LK(try_(m, b), "a mutex unlocked as often as locked is free"); unl(m, b); vp_unshared(); }
// any number of locks by the owner
void d_depth() { THREADS; size_t n = vp_size("n"); vp_assume(n > 0 && n < 1000000); M m; vp_shared(&m, sizeof(m)); for (size_t i = 0; i < n; ++i) { vp_thread(a); if (!m.try_lock()) vp_fail("lock", "the owner can lock again"); }
    LK(!try_(m, b), "a mutex owned by another thread can't be locked");
    for (size_t i = 1; i < n; ++i) { vp_thread(a); m.unlock(); }
    LK(!try_(m, b), "a mutex not unlocked as often as locked stays owned"); unl(m, a); LK(try_(m, b), "a mutex unlocked as often as locked is free"); vp_unshared(); }
// one operation from the state where thread a holds the mutex n times (any n >= 0), observed through what follows
static void hold(M& m, int a, size_t n) { for (size_t i = 0; i < n; ++i) { vp_thread(a); if (!m.try_lock()) vp_fail("lock", "the owner can lock again"); } }
static void drop(M& m, int a, size_t n) { for (size_t i = 0; i < n; ++i) { vp_thread(a); m.unlock(); } }
static void is_held(M& m, int a, int b, size_t n) { if (n) { LK(!try_(m, b), "a mutex owned by another thread can't be locked"); drop(m, a, n - 1); LK(!try_(m, b), "a mutex not unlocked as often as locked stays owned"); unl(m, a); } LK(try_(m, b), "a mutex unlocked as often as locked is free"); LK(!try_(m, a), "a mutex owned by another thread can't be locked"); unl(m, b); LK(try_(m, a), "a mutex unlocked as often as locked is free"); }
#define PRE(n) THREADS; size_t n = vp_size("n"); vp_assume(n < 1000000); M m; vp_shared(&m, sizeof(m)); hold(m, a, n)
void d_step_lock() { PRE(n); LK(try_(m, a), "the owner can lock again"); is_held(m, a, b, n + 1); vp_unshared(); }
void d_step_refuse() { PRE(n); vp_assume(n > 0); LK(!try_(m, b), "a mutex owned by another thread can't be locked"); LK(!try_(m, c), "a mutex owned by another thread can't be locked"); is_held(m, a, b, n); vp_unshared(); }
void d_step_unlock() { PRE(n); vp_assume(n > 0); unl(m, a); is_held(m, a, c, n - 1); vp_unshared(); }
}
