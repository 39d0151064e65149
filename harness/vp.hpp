// Markers understood by the abstract interpreter (engine/models.py). They have no bodies: the
// drivers are never linked or executed, only compiled to IR and analysed.
#pragma once
#include <cstddef>
#include <new>
#include <utility>
extern "C" {
size_t vp_size(const char* name);       // any value in [0, 2^40]
size_t vp_anysize(const char* name);    // any size_t
int vp_int(const char* name);
long vp_long(const char* name);
bool vp_bool(const char* name);
size_t vp_pick(const char* name, int lo, int hi);       // each value of [lo, hi], one by one
// bit provenance: words of sequences labelled "bits.*" are tracked bit by bit
void vp_bits();
bool vp_bit(const char* label, size_t pos);
void vp_check_bits_(const void* words, size_t word_bytes, size_t off, size_t len, const char* label, size_t pos, const char* cat, const char* msg);
void vp_unroll();                       // loops are unrolled (sizes are bounded by the driver)
void vp_assume(bool);
void vp_check(bool, const char* cat, const char* msg);
void vp_fail(const char* cat, const char* msg);
void vp_reached(const char* cat, const char* msg);
void vp_stop();
void vp_throws(const char* kinds);
int vp_heap_count();
void vp_label_(const void* p, size_t n, size_t es, const char* label, const char* et);
void vp_check_seq_(const void* p, size_t n, size_t es, const char* label, size_t i0, const char* cat, const char* msg);
void vp_check_const_(const void* p, size_t n, size_t es, const char* label, size_t i0, const char* cat, const char* msg);
void vp_check_raw_(const void* p, size_t n, size_t es, const char* cat, const char* msg);
void vp_check_live_(const void* p, size_t n, size_t es, const char* cat, const char* msg);
bool vp_is_live_(const void* p, size_t es);
void vp_freeze(const void* p);          // from here on nothing may write to the object or block
void vp_thaw();
bool vp_same_block(const void*, const void*);
size_t vp_block_size(const void*);
bool vp_is_heap(const void*);
bool vp_in_object(const void* p, const void* obj, size_t n);
void vp_ghost_inc(const char*);
long vp_ghost_get(const char*);
void vp_ghost_set(const char*, long);
void* vp_buffer(size_t bytes, const char* name);
void vp_trace(const char* msg, ...);
void vp_terminate_ok();
void vp_shared(const void* p, size_t n);   // from here on other threads use the object
void vp_unshared();
void vp_nolocks();                         // no shared atomic is a spinlock
void vp_op();                              // one operation starts
int vp_acquisitions();                     // locks taken since vp_op
int vp_locks_held();
int vp_at_loads(); int vp_at_stores(); int vp_at_rmws();   // atomic accesses to shared objects since vp_op
void vp_interfere(); void vp_quiet();      // start/end of an operation: between its atomic accesses another thread may change the shared object
long vp_mods();                            // modifications of shared objects since vp_interfere
long vp_mod_old(); long vp_mod_new();      // the value replaced by and given by the last one
long vp_seen();                            // the value the last atomic load or read-modify-write found
void vp_thread(int id);                    // the calling thread
}
template <class T> struct vp_name_of;
template <> struct vp_name_of<wchar_t> { static const char* get() { return "i32"; } };
template <class T> void vp_label(const T* p, size_t n, const char* label) { vp_label_(p, n, sizeof(T), label, vp_name_of<T>::get()); }
template <class T> void vp_seq(const T* p, size_t n, const char* label, size_t i0, const char* msg) { vp_check_seq_(p, n, sizeof(T), label, i0, "content", msg); }
template <class T> void vp_const(const T* p, size_t n, const char* label, size_t i0, const char* msg) {
    if (__is_trivially_copyable(T) && label[0] == 'm' && label[1] == 'o') return; // a move of these is a copy
    vp_check_const_(p, n, sizeof(T), label, i0, "content", msg); }
template <class T> void vp_default(const T* p, size_t n, const char* msg) { vp_check_const_(p, n, sizeof(T), __is_trivially_copyable(T) ? "zero" : "default", 0, "content", msg); }
template <class T> void vp_raw(const T* p, size_t n, const char* msg) { if (!__is_trivially_copyable(T)) vp_check_raw_(p, n, sizeof(T), "lifetime", msg); }
template <class T> void vp_live(const T* p, size_t n, const char* msg) { if (!__is_trivially_copyable(T)) vp_check_live_(p, n, sizeof(T), "lifetime", msg); }
// a single object
template <class T> void vp_name(const T& x, const char* label) { vp_label(&x, 1, label); }
template <class T> void vp_is(const T& x, const char* label, const char* msg) { vp_const(&x, 1, label, 0, msg); }
template <class T> void vp_dead(const T& x, const char* msg) { vp_raw(&x, 1, msg); }
#define VP_CONTENT(c, msg) vp_check((c), "content", msg)

// opaque element archetypes: every special member is external
#define VP_ELEM(N, SZ, MOVE_NOEXCEPT) \
struct N { \
    N(); N(int); N(int, int); N(const N&); N(N&&) noexcept(MOVE_NOEXCEPT); ~N(); \
    N& operator=(const N&); N& operator=(N&&) noexcept(MOVE_NOEXCEPT); \
private: char pad[SZ]; }; \
bool operator==(const N&, const N&); bool operator!=(const N&, const N&); bool operator<(const N&, const N&); \
template <> struct vp_name_of<N> { static const char* get() { return #N; } };
VP_ELEM(VpE, 24, true)      // ordinary element
VP_ELEM(VpF, 40, true)      // a second, unrelated type
VP_ELEM(VpT, 24, false)     // moves may throw
// what std::pair<VpE, VpF> consists of: an opaque element with two member elements
struct VpP {
    VpP(); VpP(const VpE&, const VpF&); VpP(const VpE&, VpF&&); VpP(VpE&&, const VpF&); VpP(VpE&&, VpF&&); VpP(const VpP&); VpP(VpP&&) noexcept; ~VpP();
    VpP& operator=(const VpP&); VpP& operator=(VpP&&) noexcept;
private: char pad[64]; };
bool operator==(const VpP&, const VpP&); bool operator!=(const VpP&, const VpP&);
template <> struct vp_name_of<VpP> { static const char* get() { return "VpP"; } };
// constructible from VpE
struct VpC {
    VpC(); VpC(const VpE&); VpC(VpE&&); VpC(const VpC&); VpC(VpC&&) noexcept; ~VpC();
    VpC& operator=(const VpC&); VpC& operator=(VpC&&) noexcept;
private: char pad[32]; };
template <> struct vp_name_of<VpC> { static const char* get() { return "VpC"; } };
// trivially copyable element
struct VpPod { int a, b, c; };
struct VpTriv { int a, b, c; VpTriv() = default; VpTriv(int i) : a(i), b(i), c(i) {} VpTriv(int i, int j) : a(i), b(j), c(i) {} };
template <> struct vp_name_of<VpTriv> { static const char* get() { return "VpTriv"; } };
template <> struct vp_name_of<VpPod> { static const char* get() { return "VpPod"; } };
extern "C" {
void* vp_make_(size_t n, size_t es, const char* label, const char* et);
void* vp_alloc(size_t bytes, int id);
void vp_dealloc(void* p, size_t bytes, int id);
}
template <class T> T* vp_make(size_t n, const char* label) { return static_cast<T*>(vp_make_(n, sizeof(T), label, vp_name_of<T>::get())); }
// stateful allocator: a block must be released through an allocator with the identity that allocated it
template <class T> struct VpAlloc {
    using value_type = T;
    int id;
    explicit VpAlloc(int i = 0) : id(i) {}
    template <class U> VpAlloc(const VpAlloc<U>& o) : id(o.id) {}
    T* allocate(size_t n) { return static_cast<T*>(vp_alloc(n * sizeof(T), id)); }
    void deallocate(T* p, size_t n) noexcept { vp_dealloc(p, n * sizeof(T), id); }
    VpAlloc select_on_container_copy_construction() const { return VpAlloc(id + 1000); }
    friend bool operator==(const VpAlloc& a, const VpAlloc& b) { return a.id == b.id; }
    friend bool operator!=(const VpAlloc& a, const VpAlloc& b) { return a.id != b.id; }
};
// pod_vector style allocator primitives: blocks remember the identity of their allocator
extern "C" {
void* vp_pmalloc(size_t bytes, int id);
void vp_pfree(void* p, int id);
void* vp_prealloc(void* p, size_t bytes, int id);
bool vp_pexpand(void* p, size_t bytes, int id);  // in place, or fails
}
// memory-resource style allocator: size, alignment and identity must match on release
extern "C" {
void* vp_balloc(size_t bytes, size_t align, int id);
void vp_bdealloc(void* p, size_t bytes, size_t align, int id);
}
struct VpBytes {
    int id;
    VpBytes(int i = 0) : id(i) {}
    void* allocate_bytes(size_t n, size_t a) { return vp_balloc(n, a, id); }
    void deallocate_bytes(void* p, size_t n, size_t a) { vp_bdealloc(p, n, a, id); }
    friend bool operator==(const VpBytes& a, const VpBytes& b) { return a.id == b.id; }
    friend bool operator!=(const VpBytes& a, const VpBytes& b) { return a.id != b.id; }
};
// move-only element
struct VpM { VpM(); VpM(VpM&&) noexcept; ~VpM(); VpM& operator=(VpM&&) noexcept; private: char pad[16]; };
template <> struct vp_name_of<VpM> { static const char* get() { return "VpM"; } };
using vp_u8 = unsigned char;
struct VpOver { alignas(64) int a[16]; };
template <> struct vp_name_of<VpOver> { static const char* get() { return "VpOver"; } };
template <> struct vp_name_of<int> { static const char* get() { return "i4"; } };
template <> struct vp_name_of<unsigned char> { static const char* get() { return "u1"; } };
template <> struct vp_name_of<char> { static const char* get() { return "u1"; } };
#include <initializer_list>
template <class T> std::initializer_list<T> vp_ilist(const T* p, size_t n) {
    static_assert(sizeof(std::initializer_list<T>) == 16, "");
    struct { const T* p; size_t n; } raw = { p, n };
    std::initializer_list<T> il;
    __builtin_memcpy(static_cast<void*>(&il), &raw, 16);
    return il;
}
