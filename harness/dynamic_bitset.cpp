#include "vp.hpp"
#include <itlib/dynamic_bitset.hpp>
#ifndef WORD
#define WORD unsigned char
#endif
using W = WORD;
template <> struct vp_name_of<unsigned short> { static const char* get() { return "i2"; } };
template <> struct vp_name_of<unsigned long> { static const char* get() { return "i8"; } };
template <> struct vp_name_of<unsigned> { static const char* get() { return "i4"; } };
using B = itlib::dynamic_bitset<std::vector<W>>;
static const size_t N = sizeof(W) * 8;
#define BITS(c, msg) vp_check((c), "bits", msg)
#define SIZE(c, msg) vp_check((c), "size", msg)

// an arbitrary bitset of n bits
static void any_bits(B& b, const char* label) { if (b.word_size()) vp_label(b.data(), b.word_size(), label); }
static void sizes(const B& b, size_t n) {
    SIZE(b.size() == n, "number of bits");
    SIZE(b.word_size() == (n + N - 1) / N, "number of words");
    SIZE(b.empty() == (n == 0), "empty");
    SIZE(b.byte_size() == (n + 7) / 8, "number of bytes");
    SIZE(b.buffer().size() == b.word_size(), "size of the buffer");
}
#define ANY(b, n, label) vp_bits(); size_t n = vp_size("n"); B b(n); any_bits(b, label)

extern "C" {
void d_default() {
    B b;
    sizes(b, 0);
    BITS(!b.any() && b.none(), "an empty bitset has no set bit");
}
void d_ctor() {
    vp_bits();
    size_t n = vp_size("n");
    W v; vp_label(&v, 1, "bits.v");
    B b(n, v);
    sizes(b, n);
    size_t j = vp_size("j"); vp_assume(j < n);
    BITS(b.test(j) == vp_bit("bits.v", j % N), "bit of the initial word");
}
void d_ctor0() {
    vp_bits();
    size_t n = vp_size("n");
    B b(n);
    sizes(b, n);
    size_t j = vp_size("j"); vp_assume(j < n);
    BITS(!b.test(j), "bits are zero initially");
}
void d_static() {
    vp_bits();
    size_t i = vp_size("i");
    SIZE(B::word_size(i) == (i + N - 1) / N, "words for a number of bits");
    SIZE(B::word_index(i) == i / N, "word of a bit");
    SIZE(B::bit_index(i) == i % N, "bit within the word");
    SIZE(B::word_mask(i) == W(W(1) << (i % N)), "mask of a bit");
}
void d_test() {
    ANY(b, n, "bits.a");
    const B& c = b;
    size_t i = vp_size("i"); vp_assume(i < n);
    bool e = vp_bit("bits.a", i);
    BITS(b.test(i) == e, "test");
    BITS(c[i] == e, "const operator[]");
    BITS(bool(b[i]) == e, "operator[]");
    BITS(b[i].test() == e, "bitref::test");
    BITS(*(c.begin() + ptrdiff_t(i)) == e, "const iterator");
    BITS(bool(*(b.begin() + ptrdiff_t(i))) == e, "iterator");
    sizes(b, n);
}
static void modified(B& b, size_t n, size_t i, bool now) {
    sizes(b, n);
    size_t j = vp_size("j"); vp_assume(j < n);
    if (j == i) BITS(b.test(j) == now, "the bit has the new value");
    else BITS(b.test(j) == vp_bit("bits.a", j), "other bits are untouched");
}
#define MOD(name, expr, val) void name() { ANY(b, n, "bits.a"); size_t i = vp_size("i"); vp_assume(i < n); expr; modified(b, n, i, val); }
MOD(d_set, b.set(i), true)
MOD(d_reset, b.reset(i), false)
MOD(d_setv, bool v = vp_bool("v"); b.set(i, v), v)
MOD(d_flip, b.flip(i), !vp_bit("bits.a", i))
MOD(d_ref_set, b[i].set(), true)
MOD(d_ref_reset, b[i].reset(), false)
MOD(d_ref_setv, bool v = vp_bool("v"); b[i].set(v), v)
MOD(d_ref_flip, b[i].flip(), !vp_bit("bits.a", i))
MOD(d_ref_assign, bool v = vp_bool("v"); b[i] = v, v)
MOD(d_iter_assign, bool v = vp_bool("v"); *(b.begin() + ptrdiff_t(i)) = v, v)
MOD(d_iter_end_assign, bool v = vp_bool("v"); *(b.end() - ptrdiff_t(n - i)) = v, v)
void d_iter() {
    ANY(b, n, "bits.a");
    const B& c = b;
    size_t i = vp_size("i"); vp_assume(i < n);
    SIZE(b.end() - b.begin() == ptrdiff_t(n), "distance");
    SIZE(c.end() - c.begin() == ptrdiff_t(n), "distance");
    auto it = b.begin() + ptrdiff_t(i);
    SIZE(it - b.begin() == ptrdiff_t(i), "advance");
    SIZE((it != b.end()) && !(it == b.end()), "not the end");
    auto jt = it++;
    SIZE(jt - b.begin() == ptrdiff_t(i) && it - b.begin() == ptrdiff_t(i) + 1, "post-increment");
    BITS(bool(*jt) == vp_bit("bits.a", i), "post-increment returns the old position");
    auto kt = it--;
    SIZE(kt - b.begin() == ptrdiff_t(i) + 1 && it - b.begin() == ptrdiff_t(i), "post-decrement");
    ++it; SIZE(it - b.begin() == ptrdiff_t(i) + 1, "pre-increment");
    --it; SIZE(it == jt, "pre-decrement");
    B::const_iterator ci = it;
    SIZE(ci - c.begin() == ptrdiff_t(i), "conversion to a const iterator");
    auto cj = ci++; SIZE(ci - cj == 1, "post-increment");
    auto ck = ci--; SIZE(ck - ci == 1, "post-decrement");
    SIZE(++ci == ck, "pre-increment"); SIZE(--ci == cj, "pre-decrement");
    SIZE((ci + 1) - 1 == ci, "arithmetic");
}
// ---------------------------------------------------------------- size changes
void d_resize() {
    ANY(b, n, "bits.a");
    size_t m = vp_size("m");
    b.resize(m);
    sizes(b, m);
    size_t j = vp_size("j"); vp_assume(j < m);
    if (j < n) BITS(b.test(j) == vp_bit("bits.a", j), "resize keeps the bits");
    else BITS(!b.test(j), "resize adds zeros");
}
void d_resize_again() {
    ANY(b, n, "bits.a");
    size_t m = vp_size("mq") * N + vp_pick("mr", 0, int(N) - 1), k = vp_size("k");
    vp_assume(m <= n); vp_assume(m <= k);
    b.resize(m);
    b.resize(k);
    sizes(b, k);
    size_t j = vp_size("j"); vp_assume(j < k);
    if (j < m) BITS(b.test(j) == vp_bit("bits.a", j), "resize keeps the bits");
    else BITS(!b.test(j), "what was cut off does not come back");
}
void d_resize_throw() {
    ANY(b, n, "bits.a");
    size_t m = vp_size("m");
    vp_throws("alloc");
    try { b.resize(m); sizes(b, m); }
    catch (...) {
        sizes(b, n);
        size_t j = vp_size("j"); vp_assume(j < n);
        BITS(b.test(j) == vp_bit("bits.a", j), "a failed resize leaves the bits");
    }
}
void d_push() {
    ANY(b, n, "bits.a");
    bool v = vp_bool("v");
    b.push_back(v);
    sizes(b, n + 1);
    size_t j = vp_size("j"); vp_assume(j < n + 1);
    if (j < n) BITS(b.test(j) == vp_bit("bits.a", j), "push_back keeps the bits");
    else BITS(b.test(j) == v, "push_back adds the bit");
}
void d_push_cut() {
    ANY(b, n, "bits.a");
    size_t m = vp_size("m"); vp_assume(m <= n);
    b.resize(m);
    bool v = vp_bool("v");
    b.push_back(v);
    sizes(b, m + 1);
    BITS(b.test(m) == v, "push_back sets the bit, whatever was there before");
}
void d_push_throw() {
    ANY(b, n, "bits.a");
    vp_throws("alloc");
    try { b.push_back(true); sizes(b, n + 1); }
    catch (...) {
        sizes(b, n);
        size_t j = vp_size("j"); vp_assume(j < n);
        BITS(b.test(j) == vp_bit("bits.a", j), "a failed push_back leaves the bits");
    }
}
void d_reserve() {
    ANY(b, n, "bits.a");
    size_t m = vp_size("m");
    b.reserve(m);
    sizes(b, n);
    SIZE(b.buffer().capacity() * N >= m, "capacity after reserve");
    size_t j = vp_size("j"); vp_assume(j < n);
    BITS(b.test(j) == vp_bit("bits.a", j), "reserve keeps the bits");
}
void d_reserve_push() {
    ANY(b, n, "bits.a");
    size_t m = vp_size("m"); vp_assume(n < m);
    b.reserve(m);
    const W* p = b.data();
    b.push_back(true);
    SIZE(b.data() == p, "no reallocation within the reserved size");
}
// ---------------------------------------------------------------- whole objects
static void same(const B& b, size_t n, const char* label, const char* msg) {
    sizes(b, n);
    size_t j = vp_size("j"); vp_assume(j < n);
    BITS(b.test(j) == vp_bit(label, j), msg);
}
void d_copy_ctor() { ANY(b, n, "bits.a"); B c(b); vp_bool("which") ? same(c, n, "bits.a", "a copy has the same bits") : same(b, n, "bits.a", "copying leaves the source"); }
void d_copy_independent() {
    ANY(b, n, "bits.a");
    B c(b);
    size_t i = vp_size("i"); vp_assume(i < n);
    c.flip(i);
    same(b, n, "bits.a", "a copy is independent");
}
void d_move_ctor() { ANY(b, n, "bits.a"); B c(std::move(b)); if (vp_bool("which")) same(c, n, "bits.a", "a move transfers the bits"); else { SIZE(b.size() == 0 && b.empty(), "the source of a move is empty"); b.push_back(true); sizes(b, 1); BITS(b.test(0), "the source of a move can be used again"); } }
void d_copy_assign() { ANY(b, n, "bits.a"); size_t m = vp_size("m"); B c(m); any_bits(c, "bits.b"); c = b; vp_bool("which") ? same(c, n, "bits.a", "copy assignment copies the bits") : same(b, n, "bits.a", "copying leaves the source"); }
void d_self_assign() { ANY(b, n, "bits.a"); B& r = b; b = r; same(b, n, "bits.a", "self-assignment leaves the bits"); }
void d_move_assign() { ANY(b, n, "bits.a"); size_t m = vp_size("m"); B c(m); any_bits(c, "bits.b"); c = std::move(b); if (vp_bool("which")) same(c, n, "bits.a", "move assignment transfers the bits"); else { SIZE(b.size() == 0 && b.empty(), "the source of a move is empty"); b.push_back(true); sizes(b, 1); } }
void d_assign() {
    ANY(b, n, "bits.b");
    size_t k = vp_size("k");
    std::vector<W> v(k); if (k) vp_label(v.data(), k, "bits.a");
    b.assign(v);
    same(b, k * N, "bits.a", "the bits of the words assigned");
}
// ---------------------------------------------------------------- append
#ifndef WORDS
#define WORDS 2
#endif
static size_t some(const char* q, const char* r) { size_t x = vp_size(q); vp_assume(x <= WORDS); return x * N + vp_pick(r, 0, int(N) - 1); }
static void bits_are(const B& b, size_t off, size_t len, const char* label, size_t pos, const char* msg) { vp_check_bits_(b.data(), sizeof(W), off, len, label, pos, "bits", msg); }
static void appended(B& b, size_t n, size_t m, const char* lb) {
    sizes(b, n + m);
    bits_are(b, 0, n, "bits.a", 0, "append keeps the bits");
    bits_are(b, n, m, lb, 0, "append adds the bits of the other bitset");
}
void d_append() {
    vp_bits(); vp_unroll();
    size_t n = vp_pick("n", 0, (WORDS + 1) * N), m = vp_pick("m", 0, (WORDS + 1) * N + 1);
    B b(n); any_bits(b, "bits.a");
    B c(m); any_bits(c, "bits.b");
    b.append(c);
    appended(b, n, m, "bits.b");
    sizes(c, m);
    bits_are(c, 0, m, "bits.b", 0, "append leaves the source");
}
void d_append_wide() {
    vp_bits(); vp_unroll();
    size_t n = N + vp_pick("n", 0, int(N) - 1), m = N + vp_pick("m", 0, 2) * (N / 2 - 1);
    B b(n); any_bits(b, "bits.a");
    B c(m); any_bits(c, "bits.b");
    b.append(c);
    appended(b, n, m, "bits.b");
}
void d_append_aligned() {
    vp_bits();
    size_t q = vp_size("nq"), n = q * N;
    B b(n); any_bits(b, "bits.a");
    size_t m = vp_size("m");
    B c(m); any_bits(c, "bits.b");
    b.append(c);
    sizes(b, n + m);
    size_t j = vp_size("j"); vp_assume(j < n + m);
    if (j < n) BITS(b.test(j) == vp_bit("bits.a", j), "append keeps the bits");
    else BITS(b.test(j) == vp_bit("bits.b", j - n), "append adds the bits of the other bitset");
}
void d_append_self() {
    vp_bits(); vp_unroll();
    size_t n = vp_pick("n", 0, (WORDS + 1) * N);
    B b(n); any_bits(b, "bits.a");
    b.append(b);
    appended(b, n, n, "bits.a");
}
void d_append_grow() {
    vp_bits(); vp_unroll();
    size_t n = some("nq", "nr");
    B b(n); any_bits(b, "bits.a");
    size_t m = vp_size("m"); vp_assume(m <= 2 * N);
    B c(m); any_bits(c, "bits.b");
    b.append(c);
    b.push_back(false);
    sizes(b, n + m + 1);
    BITS(!b.test(n + m), "a bit pushed after append");
}
void d_append_throw() {
    vp_bits(); vp_unroll();
    size_t n = some("nq", "nr");
    B b(n); any_bits(b, "bits.a");
    size_t m = vp_size("m"); vp_assume(m <= N);
    B c(m); any_bits(c, "bits.b");
    vp_throws("alloc");
    try { b.append(c); sizes(b, n + m); }
    catch (...) { same(b, n, "bits.a", "a failed append leaves the bits"); }
}
// ---------------------------------------------------------------- queries
#define QUERY(name, init, step, query, msg) void name() { \
    vp_bits(); vp_unroll(); \
    size_t n = some("nq", "nr"); B b(n); any_bits(b, "bits.a"); \
    bool e = init; for (size_t j = 0; j < n; ++j) { bool x = vp_bit("bits.a", j); if (x == step) { e = !(init); break; } } \
    BITS(b.query() == e, msg); sizes(b, n); }
QUERY(d_all, n != 0, false, all, "all() is true iff every bit is set, and there are bits")
QUERY(d_any, false, true, any, "any() is true iff some bit is set")
QUERY(d_none, true, true, none, "none() is true iff no bit is set")
// ---------------------------------------------------------------- copy
#ifndef CW
#define CW 2
#endif
static void copied(size_t f, size_t len, size_t s) {
    size_t n = f + len + (vp_bool("rest") ? N - 1 : 0);
    B b(n); any_bits(b, "bits.a");
    B c(s + len); any_bits(c, "bits.b");
    const B& cc = c;
    b.copy(b.begin() + ptrdiff_t(f), b.begin() + ptrdiff_t(f + len), cc.begin() + ptrdiff_t(s));
    sizes(b, n); sizes(c, s + len);
    bits_are(c, 0, s + len, "bits.b", 0, "copy leaves the source");
    bits_are(b, 0, f, "bits.a", 0, "copy leaves the bits before");
    bits_are(b, f, len, "bits.b", s, "copy copies the bits");
    bits_are(b, f + len, n - f - len, "bits.a", f + len, "copy leaves the bits after");
}
static void copies(size_t f) {
    vp_bits(); vp_unroll();
    bool few = f && N - f > 4;          // each bit before the first whole word doubles the number of paths
    size_t len = vp_pick("len", 0, few ? int(N + 2) : int(CW * N));
    size_t s = few ? vp_pick("src", 0, 2) * 3 + 1 : vp_pick("src", 0, int(N) - 1);  // first bit read
    copied(f, len, s);
}
// wide words: fewer positions
void d_copy_wide() { vp_bits(); vp_unroll(); copied(vp_bool("from") ? N - 2 : 0, 2 * N + vp_pick("len", 0, 1) * 7, vp_pick("src", 0, int(N) - 1)); }
// the first bit written is in the first word
void d_copy_0() { copies(0); }
void d_copy_1() { copies(1); }
void d_copy_2() { copies(2); }
void d_copy_3() { copies(3); }
void d_copy_4() { copies(N / 2); }
void d_copy_5() { copies(N - 3); }
void d_copy_6() { copies(N - 2); }
void d_copy_7() { copies(N - 1); }
}
