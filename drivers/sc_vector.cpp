// scenarios for Vector: C01 C04 C05 C06 C31 C34
#include "an.hpp"
using V = dstruct::Vector<Elem, TA>;
// an arbitrary vector: n elements (the first n of sequence s), any capacity >= n, built through the API
static long mk(V &v, int s) {
    long n = an_int(0, LIM), c = an_int(0, LIM); an_assume(n <= c);
    if (c > 0) v.resize(c);
    for (long i = 0; i < n; i++) v.push_back(an_seq(s, i));
    return n;
}
// v holds exactly the first n elements of sequence s
static void same(V &v, int s, long n) {
    const V &w = v;
    an_check(w.size() == n, "size"); an_check(w.empty() == (n == 0), "empty"); an_check(w.capacity() >= w.size(), "capacity below size");
    if (n > 0) {
        long j = an_int(0, LIM); an_assume(j < n);
        an_check(an_is(w[(int)j], s, j), "element at index"); an_check(an_is(v[(int)(j - n)], s, j), "element at negative index");
        an_check(&v[(int)j] == &w[(int)j] && &w[(int)(j - n)] == &w[(int)j], "const and mutable indexing agree");
        an_check(an_is(w.front(), s, 0), "front"); an_check(an_is(w.back(), s, n - 1), "back");
    }
}
static void walk(V &v, int s, long n) {
    long i = 0;
    for (auto it = v.begin(); it != v.end(); ++it) { an_check(i < n, "iteration yields too many elements"); an_check(an_is(*it, s, i), "iteration order"); i++; }
    an_check(i == n, "iteration yields too few elements");
    const V &w = v; i = 0;
    for (auto it = w.begin(); it != w.end(); it++) { an_check(an_is(*it, s, i), "const iteration order"); i++; }
    an_check(i == n, "const iteration count");
}
API void t_C01_pushes() {
    V v; long n = an_int(0, LIM);
    for (long i = 0; i < n; i++) v.push_back(S0(i));
    same(v, 0, n);
}
API void t_C01_push() { V v; long n = mk(v, 0); v.push_back(S0(n)); same(v, 0, n + 1); }
API void t_C01_push2() { V v; long n = mk(v, 0); v.push(S0(n)); v.push(S0(n + 1)); same(v, 0, n + 2); }
API void t_C01_walk() { V v; long n = mk(v, 0); walk(v, 0, n); }
API void t_C01_pop() { V v; long n = mk(v, 0); an_assume(n > 0); v.pop_back(); same(v, 0, n - 1); }
API void t_C01_pops() { V v; long n = mk(v, 0); an_assume(n >= 3); v.pop(); v.pop_back(); v.pop(); same(v, 0, n - 3); }
API void t_C01_poppush() { V v; long n = mk(v, 0); an_assume(n > 0); v.pop_back(); v.push_back(S0(n - 1)); v.push_back(S0(n)); same(v, 0, n + 1); }
API void t_C01_resize() {
    V v; long n = mk(v, 0); long m = an_int(0, LIM); v.resize(m);
    an_check(v.capacity() == m, "resize sets the capacity"); same(v, 0, m < n ? m : n);
}
API void t_C01_resizefill() {
    V v; long n = mk(v, 0); long m = an_int(0, LIM); v.resize(m, an_seq(1, 0));
    if (m <= n) { same(v, 0, m); return; }
    an_check(v.size() == m, "size after resize(n, e)"); long j = an_int(0, LIM); an_assume(j < m);
    if (j < n) an_check(an_is(v[(int)j], 0, j), "old element after resize(n, e)"); else an_check(an_is(v[(int)j], 1, 0), "new element after resize(n, e)");
}
API void t_C01_assign() {
    V v; long n = mk(v, 0); long j = an_int(0, LIM), k = an_int(0, LIM); an_assume(j < n && k < n);
    v[(int)j] = an_seq(1, 0); an_check(v.size() == n, "size after assignment");
    if (j == k) an_check(an_is(v[(int)k], 1, 0), "assigned element"); else an_check(an_is(v[(int)k], 0, k), "other element after assignment");
}
API void t_C01_fill() {
    long n = an_int(1, LIM); V v(n, an_seq(1, 0)); an_check(v.size() == n, "size of V(n, e)");
    an_check(v.capacity() >= v.size(), "capacity of V(n, e)"); long j = an_int(0, LIM); an_assume(j < n); an_check(an_is(v[(int)j], 1, 0), "element of V(n, e)");
}
// the iterator protocol at an arbitrary position
template <class C> static void iters() { V v; long n = mk(v, 0), p = an_int(0, LIM), q = an_int(0, LIM); an_assume(p < n); an_assume(q <= n); C &w = v; auto b = w.begin(), e = w.end(), it = b + (int) p;
    an_check(it == it && !(it != it), "an iterator equals itself"); an_check(it.operator->() == &*it, "-> and * agree"); an_check(an_is(*it, 0, p), "advanced by p"); auto c = it; auto old = it++; an_check(old == c && old != it && an_is(*old, 0, p), "post-increment gives the old position");
    auto &r = ++c; an_check(&r == &c && c == it, "pre-increment"); an_check((it == e) == (p + 1 == n), "the end follows the last position"); if (p + 1 < n) an_check(an_is(*it, 0, p + 1), "next position");
    auto old2 = it--; an_check(old2 == c && it == old, "post-decrement"); auto &r2 = --c; an_check(&r2 == &c && c == it, "pre-decrement"); an_check(e - (int) (n - p) == it && e + (int) (p - n) == it && b - (int) -p == it, "going back from the end");
    an_check(dstruct::distance(b, it) == p && dstruct::distance(it, e) == n - p && dstruct::distance(b, e) == n, "distance"); an_check((b + (int) q == it) == (p == q), "different positions differ"); c = e; an_check(c == w.end(), "assigned iterator"); }
API void t_C01_iter() { iters<V>(); }
API void t_C01_iterc() { iters<const V>(); }
API void t_C01_clear() { V v; mk(v, 0); v.clear(); same(v, 0, 0); v.push_back(S0(0)); v.push_back(S0(1)); v.push_back(S0(2)); same(v, 0, 3); }
API void t_C04_copy() { V v; long n = mk(v, 0); V w(v); same(w, 0, n); same(v, 0, n); }
API void t_C04_copy_then() {
    V v; long n = mk(v, 0); an_assume(n > 0); V w(v); w.push_back(S0(n)); w[0] = an_seq(1, 0); v.pop_back();
    an_check(v.size() == n - 1 && w.size() == n + 1, "sizes after changing source and copy");
    if (n > 1) { an_check(an_is(v[0], 0, 0), "source affected by the copy"); an_check(an_is(w[(int)n - 1], 0, n - 1), "copy affected by the source"); }
    an_check(an_is(w[0], 1, 0), "copy lost an assignment");
}
API void t_C04_assign() { V v, w; long n = mk(v, 0); mk(w, 1); w = v; same(w, 0, n); same(v, 0, n); }
API void t_C04_self() { V v; long n = mk(v, 0); const V &r = v; v = r; same(v, 0, n); }
API void t_C05_move() { V v; long n = mk(v, 0); V w(dstruct::move(v)); same(w, 0, n); same(v, 0, 0); v.push_back(S0(0)); same(v, 0, 1); }
API void t_C05_assign() { V v, w; long n = mk(v, 0); mk(w, 1); w = dstruct::move(v); same(w, 0, n); same(v, 0, 0); v.push_back(S0(0)); v.clear(); }
API void t_C05_self() { V v; long n = mk(v, 0); V &r = v; v = dstruct::move(r); same(v, 0, n); }
API void t_C06_push() { V v; long n = mk(v, 0); long j = an_int(0, LIM); an_assume(j < n); v.push_back(v[(int)j]);
    an_check(v.size() == n + 1, "size"); an_check(an_is(v[(int)n], 0, j), "pushed own element"); an_check(an_is(v[(int)j], 0, j), "own element after push"); }
API void t_C06_resize() { V v; long n = mk(v, 0); long j = an_int(0, LIM), m = an_int(1, LIM); an_assume(j < n); v.resize(m, v[(int)j]);
    an_check(v.size() == m, "size"); if (m > n) an_check(an_is(v[(int)m - 1], 0, j), "own element used to fill"); }
API void t_C06_assign() { V v; long n = mk(v, 0); long j = an_int(0, LIM), k = an_int(0, LIM); an_assume(j < n && k < n); v[(int)k] = v[(int)j]; an_check(an_is(v[(int)k], 0, j), "assign own element"); }
API void t_C31_index() { V v; long n = mk(v, 0); long i = an_int(0, 2 * LIM); an_assume(i >= n); an_stop_on(); Elem &e = v[(int)i]; an_unreachable("operator[] at or beyond size does not stop"); }
API void t_C31_cindex() { V v; long n = mk(v, 0); long i = an_int(0, 2 * LIM); an_assume(i >= n); an_stop_on(); const V &w = v; const Elem &e = w[(int)i]; an_unreachable("const operator[] at or beyond size does not stop"); }
API void t_C31_back() { V v; mk(v, 0); an_assume(v.size() == 0); an_stop_on(); v.back(); an_unreachable("back of an empty Vector does not stop"); }
API void t_C31_pop() { V v; mk(v, 0); an_assume(v.size() == 0); an_stop_on(); v.pop_back(); an_unreachable("pop_back of an empty Vector does not stop"); }
API void t_C34_push() {
    V v; long n = mk(v, 0); long c = v.capacity(); const Elem *b = v.begin().operator->();
    v.push_back(S0(n));
    if (n == c) an_check(v.capacity() >= 2 * c && v.capacity() >= 1, "a full Vector grows by less than a factor of two");
    else { an_check(v.capacity() == c, "push_back reallocates although there is room"); an_check(v.begin().operator->() == b, "push_back moves the storage although there is room"); }
}
API void t_C34_pop() {
    V v; long n = mk(v, 0); an_assume(n > 0); long c = v.capacity(); v.pop_back();
    an_check(v.capacity() >= n - 1, "pop_back leaves no room for the remaining elements");
    if (v.capacity() != c) an_check(3 * (n - 1) < c, "pop_back gives back storage although a third is used");
    if (n - 1 < c / 3) an_check(v.capacity() < c, "pop_back keeps storage of which less than a third is used");
    an_check(v.capacity() <= c, "pop_back grows the storage");
}
// two operations after one another, from an arbitrary vector: each must leave a vector that the other can work on
struct Push { static long run(V &v, long n) { v.push_back(S0(n)); return n + 1; } };
struct Pop { static long run(V &v, long n) { if (n == 0) { v.push_back(S0(0)); n = 1; } v.pop_back(); return n - 1; } };
struct Resize { static long run(V &v, long n) { long m = an_int(0, LIM); v.resize(m); an_check(v.capacity() == m, "resize sets the capacity"); return m < n ? m : n; } };
struct Zero { static long run(V &v, long) { v.resize(0); return 0; } };
struct Fill { static long run(V &v, long n) { long m = an_int(0, LIM); an_assume(m <= n + 1); v.resize(m, S0(n)); return m; } };
struct Fill0 { static long run(V &v, long) { v.resize(0, an_seq(1, 0)); return 0; } };
struct Clear { static long run(V &v, long) { v.clear(); return 0; } };
struct Copy { static long run(V &v, long n) { V w(v); v.clear(); v = w; w.clear(); return n; } };
struct Move { static long run(V &v, long n) { V w(dstruct::move(v)); same(v, 0, 0); v.push_back(an_seq(1, 0)); v = dstruct::move(w); return n; } };
struct Write { static long run(V &v, long n) { if (n == 0) { v.push_back(an_seq(1, 1)); n = 1; } long j = an_int(0, LIM); an_assume(j < n); v[(int) j] = an_seq(1, 0); v[(int) (j - n)] = S0(j); return n; } };
template <class O, class P> static void two() { V v; long n = mk(v, 0); n = O::run(v, n); n = P::run(v, n); same(v, 0, n); }
#define TWO1(a, O) API void t_C01_2##a##1() { two<O, Push>(); } API void t_C01_2##a##2() { two<O, Pop>(); } API void t_C01_2##a##3() { two<O, Resize>(); } API void t_C01_2##a##4() { two<O, Fill>(); } \
    API void t_C01_2##a##5() { two<O, Zero>(); } API void t_C01_2##a##6() { two<O, Fill0>(); } API void t_C01_2##a##7() { two<O, Clear>(); } API void t_C04_2##a() { two<O, Copy>(); } API void t_C05_2##a() { two<O, Move>(); } API void t_C01_2##a##8() { two<O, Write>(); }
TWO1(push, Push) TWO1(pop, Pop) TWO1(resize, Resize) TWO1(fill, Fill) TWO1(zero, Zero) TWO1(fillz, Fill0) TWO1(clear, Clear) TWO1(copy, Copy) TWO1(move, Move)
