#include "vp.hpp"
#include <itlib/generator.hpp>
using namespace itlib;
#ifndef ET
#define ET VpE
#endif
#define GEN(c, msg) vp_check((c), "generator", msg)
// coroutines in an arbitrary history: at every step they yield, return or throw, as the analysis chooses
static void lab(const ET& e, int i) { if (i == 0) vp_name(e, "y0"); else if (i == 1) vp_name(e, "y1"); else vp_name(e, "y2"); }
static generator<ET> vals() {
    vp_ghost_inc("ran");
    ET frame;
    for (int i = 0; i < 3; ++i) {
        int k = vp_int("step"); if (k == 0) { vp_ghost_set("end", 1); co_return; } if (k == 1) { vp_ghost_set("end", 2); throw 1; }
        ET e; lab(e, i);
        co_yield std::move(e);
        GEN(vp_ghost_get("stop") == 0, "a destroyed generator doesn't run on");
        vp_is(e, "moved", "yield moves the value in");
    }
    vp_ghost_set("end", 1);
}
static generator<ET&> refs(ET* a) {
    vp_ghost_inc("ran");
    ET frame;
    for (int i = 0; i < 3; ++i) {
        int k = vp_int("step"); if (k == 0) { vp_ghost_set("end", 1); co_return; } if (k == 1) { vp_ghost_set("end", 2); throw 1; }
        co_yield a[i];
    }
    vp_ghost_set("end", 1);
}
#define START vp_ghost_set("ran", 0); vp_ghost_set("end", 0); vp_ghost_set("stop", 0)
#define END vp_ghost_get("end")
static const char* nm(int i) { return i == 0 ? "y0" : i == 1 ? "y1" : "y2"; }
// one step with next(): true if there is a value
static bool step(generator<ET>& g, int i) {
    bool threw = false;
    try {
        auto v = g.next();
        if (v) {
            GEN(END == 0, "a value is only given when one was yielded"); GEN(!g.done(), "not done after a value");
            if (i == 0) vp_is(*v, "y0", "next gives the value yielded"); else if (i == 1) vp_is(*v, "y1", "next gives the value yielded"); else vp_is(*v, "y2", "next gives the value yielded");
            return true;
        }
        GEN(END == 1, "next is empty only when the coroutine has returned");
    } catch (int) { threw = true; GEN(END == 2, "next throws only what the coroutine threw"); }
    GEN(threw == (END == 2), "an exception of the coroutine leaves next");
    GEN(g.done(), "done after the coroutine ended");
    auto w = g.next();
    GEN(!w && g.done(), "next after the end is empty");
    return false;
}
static bool step(generator<ET&>& g, int i, ET* a) {
    bool threw = false;
    try {
        auto v = g.next();
        if (v) {
            GEN(END == 0, "a value is only given when one was yielded"); GEN(!g.done(), "not done after a value");
            GEN(&*v == a + i, "next leads to the object yielded");
            return true;
        }
        GEN(END == 1, "next is empty only when the coroutine has returned");
    } catch (int) { threw = true; GEN(END == 2, "next throws only what the coroutine threw"); }
    GEN(threw == (END == 2), "an exception of the coroutine leaves next");
    GEN(g.done(), "done after the coroutine ended");
    auto w = g.next();
    GEN(!w && g.done(), "next after the end is empty");
    return false;
}
static void run(generator<ET>& g, int from) { for (int i = from; i < 4; ++i) if (!step(g, i)) return; GEN(false, "the coroutine ends"); }
// a generator after any number of steps
#define PRE(g, n) int n = vp_int(#n); vp_assume(n >= 0 && n <= 2); n = n == 0 ? 0 : n == 1 ? 1 : 2; auto g = vals(); for (int i_ = 0; i_ < n; ++i_) if (!step(g, i_)) { n = 4; break; }
extern "C" {
void d_lazy() { START; { auto g = vals(); GEN(vp_ghost_get("ran") == 0, "nothing runs before the first value is asked for"); GEN(static_cast<bool>(g), "a new generator is valid"); GEN(vp_heap_count() == 1, "the coroutine frame is the only allocation"); } GEN(vp_ghost_get("ran") == 0, "destroying an unstarted generator runs nothing"); GEN(vp_heap_count() == 0, "the frame is released"); }
void d_next() { START; { auto g = vals(); run(g, 0); GEN(vp_ghost_get("ran") == 1, "the coroutine is run once"); } GEN(vp_heap_count() == 0, "the frame is released"); }
void d_destroy() { START; { PRE(g, n); vp_ghost_set("stop", 1); } GEN(vp_heap_count() == 0, "the frame is released"); }
void d_reset() { START; PRE(g, n); vp_ghost_set("stop", 1); g.reset(); GEN(!g, "reset empties the generator"); GEN(vp_heap_count() == 0, "reset releases the frame"); g.reset(); GEN(!g, "reset of an empty generator"); }
void d_move() { START; { PRE(g, n); generator<ET> h(std::move(g)); GEN(!g && h, "a move empties the source"); if (n < 3) run(h, n); else GEN(h.done() && !h.next(), "the end moves too"); } GEN(vp_heap_count() == 0, "the frame is released"); }
void d_move_assign() { START; { PRE(h, m); START; PRE(g, n); h = std::move(g); GEN(!g && h, "a move empties the source"); GEN(vp_heap_count() == 1, "move assignment destroys the old coroutine"); if (n < 3) run(h, n); else GEN(h.done() && !h.next(), "the end moves too"); } GEN(vp_heap_count() == 0, "the frame is released"); }
void d_move_assign_empty() { START; { PRE(g, n); generator<ET> h(std::move(g)); h = std::move(g); GEN(!g && !h, "assigning an empty generator empties the target"); GEN(vp_heap_count() == 0, "the frame is released"); } }
void d_move_assign_to_empty() { START; { PRE(g, n); generator<ET> h(std::move(g)); g = std::move(h); GEN(g && !h, "an empty generator can be assigned to"); if (n < 3) run(g, n); } GEN(vp_heap_count() == 0, "the frame is released"); }
void d_self_move() { START; { PRE(g, n); generator<ET>& r = g; g = std::move(r); if (g) { if (n < 3) run(g, n); } } GEN(vp_heap_count() == 0, "the frame is released"); }
void d_range() { START; { auto g = vals(); int i = 0; bool threw = false; try { for (auto& v : g) { const char* l = nm(i); (void)l; if (i == 0) vp_is(v, "y0", "the loop sees the values yielded"); else if (i == 1) vp_is(v, "y1", "the loop sees the values yielded"); else vp_is(v, "y2", "the loop sees the values yielded"); ++i; GEN(END == 0 && i <= 3, "the loop ends with the coroutine"); } GEN(END == 1, "the loop ends with the coroutine"); } catch (int) { threw = true; } GEN(threw == (END == 2), "an exception of the coroutine leaves the loop"); GEN(g.done() && !g.next(), "next after the end is empty"); } GEN(vp_heap_count() == 0, "the frame is released"); }
void d_iter() { START; { auto g = vals(); auto e = g.end(); try { auto it = g.begin(); if (it != e) { GEN(!(it == e) && !(e == it) && e != it, "comparisons with end agree"); ET& a = *it; ET& b = *it; GEN(&a == &b, "dereferencing twice leads to the same value"); vp_is(*it, "y0", "* leads to the value yielded"); auto& r = ++it; GEN(&r == &it, "increment returns the iterator"); if (it != e) vp_is(*it, "y1", "* leads to the value yielded"); else GEN(END == 1 && e == it && !(e != it), "end is reached when the coroutine returns"); } else GEN(END == 1 && e == it && !(e != it), "end is reached when the coroutine returns"); } catch (int) { GEN(END == 2, "an exception of the coroutine leaves the iteration"); } } GEN(vp_heap_count() == 0, "the frame is released"); }
void d_iter_next() { START; { auto g = vals(); try { auto it = g.begin(); if (it != g.end()) { vp_is(*it, "y0", "* leads to the value yielded"); auto v = g.next(); if (v) vp_is(*v, "y1", "next continues after the iteration"); else GEN(END == 1, "next is empty only when the coroutine has returned"); } } catch (int) { GEN(END == 2, "an exception of the coroutine leaves the iteration"); } } GEN(vp_heap_count() == 0, "the frame is released"); }
void d_ref() { START; ET a[3]; vp_label(a, 3, "a"); { auto g = refs(a); for (int i = 0; i < 4; ++i) if (!step(g, i, a)) break; } vp_seq(a, 3, "a", 0, "yielded references are not copied or moved from"); GEN(vp_heap_count() == 0, "the frame is released"); }
void d_ref_range() { START; ET a[3]; vp_label(a, 3, "a"); { auto g = refs(a); int i = 0; try { for (auto& v : g) { GEN(&v == a + i, "the loop sees the objects yielded"); ++i; } GEN(END == 1, "the loop ends with the coroutine"); } catch (int) { GEN(END == 2, "an exception of the coroutine leaves the loop"); } } vp_seq(a, 3, "a", 0, "yielded references are not copied or moved from"); }
}
