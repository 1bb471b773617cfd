// scenarios for Heap: C14 C15 (and C04, C05)
#include "an.hpp"
using V = dstruct::Vector<Elem, TA>;
template <class C> using H = dstruct::Heap<Elem, C, TA>;
static bool same(const Elem &a, const Elem &b) { return !(a < b) && !(b < a); }
template <class C> static bool before(const Elem &a, const Elem &b) { return C()(a, b) && !same(a, b); }
// what a heap should hold: elements m[0..n) of sequence 0
struct M {
    long m[40], n; M() : n(0) { }
    void add(long i) { m[n++] = i; }
    long which(const Elem &e) const { for (long i = 0; i < n; i++) if (an_is(e, 0, m[i])) return i; return -1; }
    void drop(long i) { m[i] = m[--n]; }
    template <class C> void top(const H<C> &h) const {
        an_check(h.size() == n, "size"); an_check(h.empty() == (n == 0), "empty"); if (n == 0) return;
        Elem t = h.top(); an_check(which(t) >= 0, "top is an element of the heap"); for (long i = 0; i < n; i++) an_check(!before<C>(S0(m[i]), t), "no element precedes the top");
    }
    template <class C> void all(const H<C> &h) const {
        top<C>(h); M r = *this;
        for (auto it = h.begin(); it != h.end(); ++it) { long k = r.which(*it); an_check(k >= 0, "every element in the heap was pushed and not delivered"); r.drop(k); }
        an_check(r.n == 0, "no element is lost");
    }
    template <class C> void pop(H<C> &h) { long k = which(h.top()); an_check(k >= 0, "top is an element of the heap"); h.pop(); drop(k); }
    template <class C> void drain(H<C> &h) { while (n > 0) { pop<C>(h); top<C>(h); } }
};
template <class C> static void from(V &v, M &m, long n) { for (long i = 0; i < n; i++) { v.push_back(S0(i)); m.add(i); } }
// every history of pushes and pops of up to K operations with arbitrary elements
template <class C> static void history(int K) {
    an_unroll(60); an_unordered(0); H<C> h; M m; m.all<C>(h);
    for (int k = 0; k < K; k++) { if (m.n == 0 || an_oracle()) { h.push(S0(k)); m.add(k); } else m.pop<C>(h); m.all<C>(h); }
}
// any n elements pushed, then all delivered
template <class C> static void pushes(int n) { an_unroll(60); an_unordered(0); H<C> h; M m; for (int k = 0; k < n; k++) { h.push(S0(k)); m.add(k); m.top<C>(h); } m.all<C>(h); m.drain<C>(h); h.push(S0(n)); m.add(n); m.all<C>(h); }
// a heap built from any n elements
template <class C> static void range(int n) { an_unroll(60); an_unordered(0); V v; M m; from<C>(v, m, n); H<C> h(v.begin(), v.end()); m.all<C>(h); for (long i = 0; i < n; i++) an_check(an_is(v[i], 0, i), "the range is untouched"); m.drain<C>(h); }
// a bigger heap in any arrangement of distinct elements (parents before children), then one operation
template <class C> static void big(H<C> &h, M &m, long n) { an_unroll(80); an_unordered(0); for (long i = 1; i <= n; i++) { if (i > 1) an_assume(before<C>(S0(i / 2), S0(i))); } for (long i = 1; i <= n; i++) { h.push(S0(i)); m.add(i); } }
template <class C> static void bigpush(long n) { H<C> h; M m; big<C>(h, m, n); m.all<C>(h); h.push(S0(0)); m.add(0); m.all<C>(h); m.pop<C>(h); m.all<C>(h); m.pop<C>(h); m.top<C>(h); }
template <class C> static void bigpop(long n) { H<C> h; M m; big<C>(h, m, n); m.pop<C>(h); m.all<C>(h); if (n > an_pick(10, 100)) return; m.pop<C>(h); m.all<C>(h); m.pop<C>(h); m.top<C>(h); }
using L = dstruct::less<Elem>; using G = dstruct::greater<Elem>;
API void t_C14_minhist() { history<L>(an_pick(6, 7)); }
API void t_C14_maxhist() { history<G>(an_pick(6, 7)); }
API void t_C14_minpush4() { pushes<L>(4); }
API void t_C14_maxpush4() { pushes<G>(4); }
API void t_C14_minpush5() { pushes<L>(5); }
API void t_C14_range2() { range<L>(2); }
API void t_C14_range3() { range<L>(3); }
API void t_C14_range4() { range<L>(4); }
API void t_C14_range5() { range<L>(5); }
API void t_C14_maxrange4() { range<G>(4); }
API void t_C14_maxrange5() { range<G>(5); }
API void t_C14_range01() { range<L>(0); H<L> h; h.push(S0(1)); range<L>(1); }
API void t_C14_bigpush7() { bigpush<L>(7); }
API void t_C14_bigpush8() { bigpush<G>(8); }
API void t_C14_bigpop7() { bigpop<L>(7); }
API void t_C14_bigpop8() { bigpop<G>(8); }
API void t_C14_bigpush15() { bigpush<L>(15); }
API void t_C14_bigpush16() { bigpush<G>(16); }
API void t_C14_bigpop15() { bigpop<L>(15); }
API void t_C14_bigpop16() { bigpop<G>(16); }
API void t_C14_push6() { pushes<L>(an_pick(5, 6)); }
API void t_C14_range6() { range<L>(an_pick(5, 6)); }
// sorting and rearranging any n elements
template <class C> static void sorts(long n) {
    an_unroll(60); an_unordered(0); V v; M m; from<C>(v, m, n); H<C>::sort(v.begin(), v.end()); an_check(v.size() == n, "size after sort");
    for (long i = 0; i < n; i++) { long k = m.which(v[i]); an_check(k >= 0, "sort keeps exactly the elements of the range"); m.drop(k); if (i > 0) an_check(!before<C>(v[i], v[i - 1]), "sort orders the range"); }
}
template <class C> static void builds(long n) {
    an_unroll(60); an_unordered(0); V v; M m; from<C>(v, m, n); H<C> h = H<C>::build(v.begin(), v.end()); an_check(v.size() == n, "size after build"); m.all<C>(h);
    for (long i = 0; i < n; i++) { long k = m.which(v[i]); an_check(k >= 0, "build keeps exactly the elements of the range"); m.drop(k); if (i > 0) an_check(!before<C>(v[i], v[0]), "build puts the extreme first"); }
}
API void t_C15_sort01() { sorts<L>(0); sorts<L>(1); }
API void t_C15_sort2() { sorts<L>(2); sorts<G>(2); }
API void t_C15_sort3() { sorts<L>(3); }
API void t_C15_sort4() { sorts<L>(4); }
API void t_C15_maxsort4() { sorts<G>(4); }
API void t_C15_sort5() { sorts<L>(5); }
API void t_C15_maxsort5() { sorts<G>(an_pick(4, 5)); }
API void t_C15_sort6() { sorts<L>(an_pick(5, 6)); }
API void t_C15_maxsort6() { sorts<G>(an_pick(5, 6)); }
// longer ranges that are already in order, or in the opposite order, up to ties
template <class C> static void runs(long n, bool up) {
    an_unroll(120); an_unordered(0); for (long i = 1; i < n; i++) { if (up) an_assume(before<C>(S0(i - 1), S0(i))); else an_assume(before<C>(S0(i), S0(i - 1))); }
    V v; M m; from<C>(v, m, n); H<C>::sort(v.begin(), v.end()); for (long i = 0; i < n; i++) an_check(an_is(v[i], 0, up ? i : n - 1 - i), "sort orders the range");
}
API void t_C15_up() { runs<L>(17, true); }
API void t_C15_down() { runs<L>(17, false); }
API void t_C15_maxup() { runs<G>(16, true); }
API void t_C15_maxdown() { runs<G>(16, false); }
API void t_C15_build01() { builds<L>(0); builds<L>(1); }
API void t_C15_build2() { builds<L>(2); builds<G>(2); }
API void t_C15_build4() { builds<L>(4); }
API void t_C15_maxbuild4() { builds<G>(4); }
API void t_C15_build5() { builds<L>(5); }
// sorting a part of a Vector leaves the rest alone
API void t_C15_part() { an_unroll(60); an_unordered(0); V v; M m; from<L>(v, m, 5); H<L>::sort(v.begin() + 1, v.begin() + 4); an_check(an_is(v[0], 0, 0) && an_is(v[4], 0, 4), "sort touches only its range"); an_check(!before<L>(v[2], v[1]) && !before<L>(v[3], v[2]), "sort orders the range"); for (long i = 0; i < 5; i++) { long k = m.which(v[i]); an_check(k >= 0, "sort keeps exactly the elements of the range"); m.drop(k); } }
// copies and moves
template <class C> static void copies() { an_unroll(60); an_unordered(0); H<C> a; M m; for (long i = 0; i < 3; i++) { a.push(S0(i)); m.add(i); } H<C> b(a), c; c.push(S0(7)); c = a; M mb = m, mc = m; m.all<C>(a); mb.all<C>(b); mc.all<C>(c); b.push(S0(3)); mb.add(3); m.pop<C>(a); m.all<C>(a); mb.all<C>(b); mc.all<C>(c); mc.drain<C>(c); m.all<C>(a); }
template <class C> static void moves() { an_unroll(60); an_unordered(0); H<C> a; M m; for (long i = 0; i < 3; i++) { a.push(S0(i)); m.add(i); } H<C> b(dstruct::move(a)); M z; z.all<C>(a); m.all<C>(b); a.push(S0(4)); z.add(4); z.all<C>(a); H<C> c; c.push(S0(5)); c = dstruct::move(b); m.all<C>(c); M y; y.all<C>(b); b.push(S0(6)); y.add(6); y.all<C>(b); H<C> &r = c; c = dstruct::move(r); m.all<C>(c); }
API void t_C04_heap() { copies<L>(); }
API void t_C05_heap() { moves<G>(); }
// reading an empty heap stops
API void t_C31_heaptop() { H<L> h; an_stop_on(); h.top(); an_unreachable("top of an empty heap does not stop"); }
API void t_C31_heaptop2() { an_unroll(60); H<L> h; h.push(S0(0)); h.pop(); an_stop_on(); h.top(); an_unreachable("top of a drained heap does not stop"); }
API void t_C31_heappop() { H<L> h; an_stop_on(); h.pop(); an_unreachable("pop of an empty heap does not stop"); }
API void t_C31_heappop2() { an_unroll(60); H<L> h; h.push(S0(0)); h.push(S0(1)); h.pop(); h.pop(); an_stop_on(); h.pop(); an_unreachable("pop of a drained heap does not stop"); }
// every operation uses the comparison the heap was given
using HT = dstruct::Heap<Elem, Tag, TA>;
static void three(HT &h, M &m) { for (long i = 0; i < 3; i++) { h.push(S0(i)); m.add(i); } }
static void rest(HT &h, M m) { h.push(S0(3)); m.add(3); while (m.n > 0) { Elem t = h.top(); long k = m.which(t); an_check(k >= 0, "top is an element of the heap"); for (long i = 0; i < m.n; i++) an_check(!before<L>(S0(m.m[i]), t), "no element precedes the top"); h.pop(); m.drop(k); an_check(h.size() == m.n, "size"); } }
API void t_C14_cmp() { an_unroll(60); an_unordered(0); HT h{Tag(7)}; M m; three(h, m); rest(h, m); m.n = 0; three(h, m); rest(h, m); }
API void t_C04_heapcmp() { an_unroll(60); an_unordered(0); HT h{Tag(7)}; M m; three(h, m); HT c(h); rest(c, m); rest(h, m); }
API void t_C04_heapcmpa() { an_unroll(60); an_unordered(0); HT h{Tag(7)}; M m; three(h, m); HT c; c = h; rest(c, m); rest(h, m); }
API void t_C05_heapcmp() { an_unroll(60); an_unordered(0); HT h{Tag(7)}; M m; three(h, m); HT c(dstruct::move(h)); rest(c, m); }
API void t_C05_heapcmpa() { an_unroll(60); an_unordered(0); HT h{Tag(7)}; M m; three(h, m); HT c; c = dstruct::move(h); rest(c, m); HT &r = c; c = dstruct::move(r); c.push(S0(1)); c.push(S0(2)); c.pop(); }
// pushing an element of the heap itself
template <class C> static void alias(long n) { an_unroll(60); an_unordered(0); H<C> h; M m; for (long i = 0; i < n; i++) { h.push(S0(i)); m.add(i); } for (int k = 0; k < 3; k++) { auto it = h.begin(); if (n > 1 && an_oracle()) ++it; long w = m.which(*it); long id = m.m[w]; h.push(*it); m.add(id); m.all<C>(h); } m.drain<C>(h); }
API void t_C06_heap1() { alias<L>(1); alias<G>(1); }
API void t_C06_heap2() { alias<L>(2); }
API void t_C06_heap3() { alias<G>(3); }
API void t_C06_heapidx() { an_unroll(60); an_unordered(0); H<L> h; M m; for (int k = 0; k < 3; k++) { h.push(S0(k)); m.add(k); long id = m.m[m.which(h[1])]; h.push(h[1]); m.add(id); m.all<L>(h); } }
