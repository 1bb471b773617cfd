// scenarios for Array, Stack over Vector, algorithm, default orderings: C07 C12 C32 C33
#include "an.hpp"
template <int N> using A = dstruct::Array<Elem, N>;
template <int N> static void fill(A<N> &a, int s) { for (int i = 0; i < N; i++) a[i] = an_seq(s, i); }
template <int N> static void same(A<N> &a, int s) {
    const A<N> &w = a;
    an_check(w.size() == N && w.capacity() == N && w.empty() == (N == 0), "size");
    long j = an_int(0, LIM); an_assume(j < N);
    an_check(an_is(a[(int)j], s, j), "element at index"); an_check(an_is(w[(int)j], s, j), "const element at index");
    an_check(an_is(a[(int)(j - N)], s, j), "element at negative index"); an_check(an_is(w[(int)(j - N)], s, j), "const element at negative index");
    an_check(an_is(w.front(), s, 0), "front"); an_check(an_is(w.back(), s, N - 1), "back");
    long i = 0;
    for (auto it = a.begin(); it != a.end(); ++it) { an_check(i < N, "iteration yields too many"); an_check(an_is(*it, s, i), "iteration order"); i++; }
    an_check(i == N, "iteration yields too few"); i = 0;
    for (auto it = w.begin(); it != w.end(); it++) { an_check(i < N, "const iteration yields too many"); an_check(an_is(*it, s, i), "const iteration order"); i++; }
    an_check(i == N, "const iteration yields too few");
    an_check(dstruct::distance(w.begin(), w.end()) == N, "distance");
}
template <int N> static void value() {
    A<N> a(an_seq(1, 0)); long j = an_int(0, LIM); an_assume(j < N); an_check(an_is(a[(int)j], 1, 0), "value construction");
}
template <int N> static void assign() {
    A<N> a; fill<N>(a, 0); long j = an_int(0, LIM), k = an_int(-LIM, LIM); an_assume(j < N && k < N && k >= -N);
    a[(int)k] = an_seq(1, 0);
    if (j == k || j == k + N) an_check(an_is(a[(int)j], 1, 0), "assigned element"); else an_check(an_is(a[(int)j], 0, j), "other element after assignment");
}
template <int N> static void copies() { A<N> a; fill<N>(a, 0); A<N> b(a); same<N>(b, 0); same<N>(a, 0); A<N> c; fill<N>(c, 1); c = a; same<N>(c, 0); same<N>(a, 0); c[0] = an_seq(2, 0); same<N>(a, 0); a = a; same<N>(a, 0); }
template <int N> static void moves() { A<N> a; fill<N>(a, 0); A<N> b(dstruct::move(a)); same<N>(b, 0); A<N> c; fill<N>(c, 1); c = dstruct::move(b); same<N>(c, 0); fill<N>(b, 2); same<N>(b, 2); }
#define ARR(N) API void t_C07_fill##N() { A<N> a; fill<N>(a, 0); same<N>(a, 0); } API void t_C07_value##N() { value<N>(); } API void t_C07_assign##N() { assign<N>(); } \
    API void t_C07_copy##N() { copies<N>(); } API void t_C07_move##N() { moves<N>(); }
API void t_C07_fill1() { A<1> a; fill<1>(a, 0); same<1>(a, 0); }
API void t_C07_fill7() { A<7> a; fill<7>(a, 0); same<7>(a, 0); }
API void t_C07_fill100() { A<100> a; fill<100>(a, 0); same<100>(a, 0); }
API void t_C07_value7() { value<7>(); }
API void t_C07_value100() { value<100>(); }
API void t_C07_assign1() { assign<1>(); }
API void t_C07_assign7() { assign<7>(); }
API void t_C07_assign100() { assign<100>(); }
API void t_C07_copy7() { copies<7>(); }
API void t_C07_copy100() { copies<100>(); }
API void t_C07_move7() { moves<7>(); }
API void t_C07_move100() { moves<100>(); }
API void t_C07_zero() { A<0> a; an_check(a.empty() && a.size() == 0, "empty Array"); long n = 0; for (auto it = a.begin(); it != a.end(); ++it) n++; an_check(n == 0, "iterating an empty Array"); }
// ---- Stack over Vector
using S = dstruct::adapter::Stack<Elem, dstruct::Vector<Elem, TA>>;
static long mk(S &v, int s) { long n = an_int(0, LIM); for (long i = 0; i < n; i++) v.push(an_seq(s, i)); return n; }
static void same(S &v, int s, long n) {
    const S &w = v; an_check(w.size() == n, "Stack size"); an_check(w.empty() == (n == 0), "Stack empty");
    if (n > 0) { an_check(an_is(w.top(), s, n - 1), "Stack top"); }
    long i = 0;
    for (auto it = v.begin(); it != v.end(); ++it) { an_check(i < n, "Stack iteration yields too many"); an_check(an_is(*it, s, i), "Stack iteration is oldest first"); i++; }
    an_check(i == n, "Stack iteration yields too few"); i = 0;
    for (auto it = w.begin(); it != w.end(); ++it) { an_check(an_is(*it, s, i), "Stack const iteration"); i++; }
    an_check(i == n, "Stack const iteration count");
}
API void t_C12_spush() { S v; long n = mk(v, 0); v.push(S0(n)); same(v, 0, n + 1); }
API void t_C12_spop() { S v; long n = mk(v, 0); an_assume(n > 0); v.pop(); same(v, 0, n - 1); v.push(an_seq(0, n - 1)); v.push(an_seq(0, n)); same(v, 0, n + 1); }
API void t_C12_spop2() { S v; long n = mk(v, 0); an_assume(n > 1); v.pop(); v.pop(); same(v, 0, n - 2); }
API void t_C12_sclear() { S v; mk(v, 0); v.clear(); same(v, 0, 0); v.push(S0(0)); same(v, 0, 1); }
API void t_C04_stack() { S v, w; long n = mk(v, 0); mk(w, 1); S x(v); w = v; same(x, 0, n); same(w, 0, n); same(v, 0, n); w.push(S0(n)); same(v, 0, n); same(w, 0, n + 1); }
API void t_C05_stack() { S v, w; long n = mk(v, 0); mk(w, 1); S x(dstruct::move(v)); same(x, 0, n); same(v, 0, 0); w = dstruct::move(x); same(w, 0, n); same(x, 0, 0); x.push(S0(0)); same(x, 0, 1); }
API void t_C06_stack() { S v; long n = mk(v, 0), p = an_int(0, LIM); an_assume(p < n); v.push(*(v.begin() + (int) p)); an_check(v.size() == n + 1 && an_is(v.top(), 0, p), "pushing an element of the Stack itself"); v.pop(); same(v, 0, n); }
API void t_C31_stop() { S v; an_stop_on(); v.top(); an_unreachable("top of an empty Stack does not stop"); }
API void t_C31_spop() { S v; an_stop_on(); v.pop(); an_unreachable("pop of an empty Stack does not stop"); }
API void t_C31_spop2() { S v; v.push(S0(0)); v.pop(); an_stop_on(); v.pop(); an_unreachable("pop of a drained Stack does not stop"); }
// ---- algorithms over Vector and Array ranges
using V = dstruct::Vector<Elem, TA>;
static void fillv(V &v, long n) { if (n > 0) v.resize(n); for (long i = 0; i < n; i++) v.push_back(S0(i)); }
struct Count { long *i; int s; void operator()(const Elem &e) const { an_check(an_is(e, s, *i), "for_each order"); (*i)++; } };
struct Write { void operator()(Elem &e) const { e = an_seq(1, 0); } };
API void t_C32_foreach() { V v; long n = an_int(0, LIM); fillv(v, n); long i = 0; Count c{&i, 0}; dstruct::algorithm::for_each(v.begin(), v.end(), c); an_check(i == n, "for_each count"); }
API void t_C32_part() {
    V v; long n = an_int(0, LIM), a = an_int(0, LIM), b = an_int(0, LIM); an_assume(a <= b && b <= n); fillv(v, n);
    long i = a; Count c{&i, 0}; dstruct::algorithm::for_each(v.begin() + (int)a, v.begin() + (int)b, c); an_check(i == b, "for_each over a part of a range");
    an_check(dstruct::distance(v.begin() + (int)a, v.begin() + (int)b) == b - a, "distance");
}
API void t_C32_write() {
    V v; long n = an_int(0, LIM), a = an_int(0, LIM), b = an_int(0, LIM); an_assume(a <= b && b <= n); fillv(v, n);
    dstruct::algorithm::for_each(v.begin() + (int)a, v.begin() + (int)b, Write());
    long j = an_int(0, LIM); an_assume(j < n);
    if (j >= a && j < b) an_check(an_is(v[(int)j], 1, 0), "for_each skips an element"); else an_check(an_is(v[(int)j], 0, j), "for_each touches an element outside the range");
}
API void t_C32_find() {
    V v; long n = an_int(0, LIM), p = an_int(0, LIM); an_match(0, 1, p); fillv(v, n);
    auto it = dstruct::algorithm::find(v.begin(), v.end(), an_seq(1, 0));
    if (p < n) an_check(it == v.begin() + (int)p, "find does not return the first equal element"); else an_check(it == v.end(), "find of an absent element");
}
API void t_C32_findpart() {
    V v; long n = an_int(0, LIM), a = an_int(0, LIM), b = an_int(0, LIM), p = an_int(0, LIM); an_assume(a <= b && b <= n && p >= a); an_match(0, 1, p); fillv(v, n);
    auto e = v.begin() + (int)b; auto it = dstruct::algorithm::find(v.begin() + (int)a, e, an_seq(1, 0));
    if (p < b) an_check(it == v.begin() + (int)p, "find in a part of a range"); else an_check(it == e, "find of an element outside the range");
}
API void t_C32_array() { A<20> a; fill<20>(a, 0); long i = 0; Count c{&i, 0}; dstruct::algorithm::for_each(a.begin(), a.end(), c); an_check(i == 20, "for_each over an Array"); dstruct::algorithm::for_each(a.end(), a.end(), c); an_check(i == 20, "for_each over an empty range"); }
// ---- orderings
template <class C, bool Less> static void order() {
    C c; void *x = an_xptr(1), *y = an_xptr(2), *z = an_xptr(3); char *p = (char *)x, *q = (char *)y, *r = (char *)z;
    an_check(!c(p, p), "irreflexive"); an_check(!(c(p, q) && c(q, p)), "asymmetric"); an_check(!(c(p, q) && c(q, r)) || c(p, r), "transitive");
    an_check(c(p, q) || c(q, p) || p == q, "total on pointers");
    if (p == nullptr && q != nullptr) { an_check(c(p, q) == Less, "null ordered before (less) or after (greater) every other pointer"); an_check(c(q, p) == !Less, "null ordered before (less) or after (greater) every other pointer"); }
    if (p != nullptr && q != nullptr) an_check(c(p, q) == (Less ? p < q : p > q), "order of addresses");
}
API void t_C33_less() { order<dstruct::less<char *>, true>(); }
API void t_C33_greater() { order<dstruct::greater<char *>, false>(); }
API void t_C33_value() {
    dstruct::less<Elem> l; dstruct::greater<Elem> g; long i = an_int(0, LIM), j = an_int(0, LIM);
    an_check(l(S0(i), S0(j)) == (i < j), "less on values"); an_check(g(S0(i), S0(j)) == (i > j), "greater on values"); an_check(l(S0(i), S0(j)) == g(S0(j), S0(i)), "mirror images");
}
API void t_C33_ints() {
    dstruct::less<int> l; dstruct::greater<int> g; int i = an_int(-LIM, LIM), j = an_int(-LIM, LIM);
    an_check(l(i, j) == (i < j), "less on ints"); an_check(g(i, j) == (i > j), "greater on ints");
    an_check(dstruct::max<long>(i, j) == (i > j ? i : j), "max"); an_check(dstruct::abs<long>(i) == (i >= 0 ? i : -i), "abs");
}
API void t_C33_swap() { Elem a(S0(0)), b(S0(1)); dstruct::swap(a, b); an_check(an_is(a, 0, 1) && an_is(b, 0, 0), "swap"); }
API void t_C33_reftypes() {
    dstruct::less<const char *> l; dstruct::greater<const char *> g; void *x = an_xptr(1), *y = an_xptr(2); const char *p = (const char *)x, *q = (const char *)y;
    if (p != nullptr && q != nullptr) an_check(l(p, q) == g(q, p), "less and greater are mirror images");
    an_check(!(l(p, q) && l(q, p)) && !(g(p, q) && g(q, p)), "asymmetric on const pointers");
}
