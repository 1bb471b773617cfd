// one long history each, followed step by step: more blocks, levels and entries than the other scenarios reach (C11 C12 C14 C16 C17 C18 C21 C22)
#include "an.hpp"
template <class Q> static void ends(const Q &d, long b, long e) { an_check(d.size() == e - b, "size"); an_check(d.empty() == (b == e), "empty"); if (b < e) { an_check(an_is(d.front(), 0, b), "front"); an_check(an_is(d.back(), 0, e - 1), "back"); } }
template <class Q> static void walk(const Q &d, long b, long e) { long i = b; for (auto it = d.begin(); it != d.end(); ++it) { an_check(i < e, "iteration yields too many elements"); an_check(an_is(*it, 0, i), "iteration order"); i++; } an_check(i == e, "iteration yields too few elements"); }
const long START = 100000;
template <int A> static void deque(long n) {
    an_unroll(1000000); dstruct::DoubleEndedQueue<Elem, A, TA> d; long b = START, e = START;
    for (long i = 0; i < n; i++) { d.push_back(S0(e)); e++; ends(d, b, e); } walk(d, b, e);
    for (long i = 0; i < n; i++) { d.push_front(S0(b - 1)); b--; ends(d, b, e); } walk(d, b, e);
    for (long i = 0; i < 2 * n - 3; i++) { if (i % 4 < 2) { d.pop_front(); b++; } else { d.pop_back(); e--; } ends(d, b, e); } walk(d, b, e);
    for (long i = 0; i < n; i++) { d.push_back(S0(e)); e++; d.pop_front(); b++; ends(d, b, e); } walk(d, b, e);      // a queue that never holds more than a few
}
API void t_C11_long1() { deque<1>(an_pick(270, 540)); }
API void t_C11_long4() { deque<4>(an_pick(150, 600)); }
API void t_C11_long32() { deque<32>(an_pick(150, 600)); }
// a permutation of 0..n-1 (n prime): none of the monotone orders
static long mix(long i, long n) { return (i * i % n * i + 3) % n; }      // n = 2 mod 3
using L = dstruct::less<Elem>; using G = dstruct::greater<Elem>;
template <class C> static void heap(int order, long n) {
    an_unroll(1000000); dstruct::Heap<Elem, C, TA> h; const bool min = C()(S0(0), S0(1)); long best = -1;
    for (long i = 0; i < n; i++) { long x = order == 0 ? i : order == 1 ? n - 1 - i : mix(i, n); h.push(S0(x)); if (best < 0 || (min ? x < best : x > best)) best = x; an_check(an_is(h.top(), 0, best), "top of a growing heap"); }
    an_check(h.size() == n, "size"); 
    for (long i = 0; i < n; i++) { an_check(an_is(h.top(), 0, min ? i : n - 1 - i), "a heap delivers in order"); h.pop(); } an_check(h.empty(), "empty");
}
API void t_C14_longasc() { heap<L>(0, an_pick(300, 900)); }
API void t_C14_longdesc() { heap<L>(1, an_pick(300, 900)); }
API void t_C14_longmix() { heap<G>(2, an_pick(293, 983)); }
template <class T> static void in(const T &t, long lo, long hi) { an_check(t.size() == hi - lo, "size"); long i = lo; for (auto it = t.begin(); it != t.end(); ++it) { an_check(i < hi, "iteration yields too many elements"); an_check(an_is(*it, 0, i), "the elements come in order"); i++; } an_check(i == hi, "iteration yields too few elements"); }
template <bool Bal> struct H { template <class T> static long of(const T &) { return 0; } }; template <> struct H<true> { template <class T> static long of(const T &t) { return t.height(); } };
static long lg(long n) { long r = 0; while (n) { r++; n /= 2; } return r; }
template <class T, bool Bal> static void tree(int order, long n) {
    an_unroll(1000000); T t; long k = 0;
    for (long i = 0; i < n; i++) { long x = order == 0 ? i : order == 1 ? n - 1 - i : mix(i, n); t.push(S0(x)); if (Bal) an_check(2 * H<Bal>::of(t) <= 3 * lg(i + 1), "height beyond one and a half times the logarithm"); }
    in(t, 0, n); for (long i = 0; i < n; i++) an_check(an_is(*t.find(S0(i)), 0, i), "find");
    for (long i = 0; i < n / 2; i++) { long x = order == 0 ? i : n - 1 - i; if (i & 1) t.pop(S0(x)); else t.erase(t.find(S0(x))); an_check(t.find(S0(x)) == t.end(), "found after its removal"); if (Bal) an_check(2 * H<Bal>::of(t) <= 3 * lg(n - i - 1) + 1, "height beyond one and a half times the logarithm"); }
    in(t, order == 0 ? n / 2 : 0, order == 0 ? n : n - n / 2);
}
using A = dstruct::AVLTree<Elem, L, TA>; using B = dstruct::tree::BinarySearchTree<Elem, L, TA>;
API void t_C17_longasc() { tree<A, false>(0, an_pick(140, 400)); }
API void t_C17_longmix() { tree<A, false>(2, an_pick(137, 401)); }
API void t_C18_longasc() { tree<A, true>(0, an_pick(140, 400)); }
API void t_C18_longdesc() { tree<A, true>(1, an_pick(140, 400)); }
API void t_C18_longmix() { tree<A, true>(2, an_pick(137, 401)); }
API void t_C16_longasc() { tree<B, false>(0, an_pick(30, 60)); }
API void t_C16_longmix() { tree<B, false>(2, an_pick(137, 401)); }
// disjoint sets: pairs, pairs of pairs and so on, then everything is one class
API void t_C21_long() {
    an_unroll(1000000); const long n = an_pick(256, 1024); dstruct::DisjointSet<TA> u(n); long c = n; an_check(u.count() == n, "classes at first");
    for (long w = 1; w < n; w *= 2) for (long i = 0; i + w < n; i += 2 * w) { u.connect(i, i + 2 * w - 1); c--; if (i % 32 == 0) an_check(u.connected(i + w - 1, i + w) && !(w < n / 2 && u.connected(0, n - 1)), "connected exactly when linked"); }
    an_check(c == 1 && u.count() == 1, "one class at last"); for (long i = 0; i < n; i++) an_check(u.connected(0, i), "connected when linked");
}
// the static memory: many blocks of many sizes, returned in mixed order and asked for again
#include "sma.hpp"
template <int M, int X> static void memory(long k) {
    using B = dstruct::StaticMemAllocator<M, X>; an_unroll(1000000); char *p[200]; long z[200]; long left = M;
    for (long round = 0; round < 3; round++) {
        long n = 0;
        while (n < k) { long s = 1 + (n * 37 + round * 11) % (2 * X + 9), r = (s + 7) / 8 * 8; char *q = static_cast<char *>(B::allocate(s)); an_check(q != nullptr, "there is room"); an_own(q, r); left -= r; an_check(B::free_mem_size() == left, "free size after a request"); p[n] = q; z[n++] = s; }
        for (long i = 0; i < n; i += 2) { long r = (z[i] + 7) / 8 * 8; an_disown(p[i], r); an_check(B::deallocate(p[i], z[i]), "a block is accepted"); left += r; }
        an_check(B::free_mem_size() == left, "free size after returning every other block"); B::dump();
        for (long i = 0; i < n; i += 2) { long r = (z[i] + 7) / 8 * 8; char *q = static_cast<char *>(B::allocate(z[i])); an_check(q != nullptr, "a size just returned can be had again"); an_own(q, r); left -= r; p[i] = q; }
        if (round == 1) B::memory_merge();
        for (long i = 0; i < n; i++) { long j = (i * i % n * i + 3) % n, r = (z[j] + 7) / 8 * 8; an_disown(p[j], r); an_check(B::deallocate(p[j], z[j]), "a block is accepted"); left += r; }
        an_check(left == M && B::free_mem_size() == M, "everything has been returned"); B::dump(); B::memory_merge(); an_check(B::max_free_mblock_size() == M, "as one block");
    }
    char *q = static_cast<char *>(B::allocate(M)); an_check(q != nullptr && B::free_mem_size() == 0, "the whole memory can be allocated again");
}
API void t_C35_long() { memory<1 << 16, 64>(an_pick(41, 101)); }
API void t_C35_longb() { memory<1 << 20, 128>(an_pick(41, 101)); }
// the stacks that know their extreme: rising, falling, equal and mixed pushes, then all popped again
template <class C> static void xstack(int order, long n) {
    an_unroll(1000000); dstruct::stack::XValueStack<Elem, C, dstruct::adapter::Stack<Elem, dstruct::Vector<Elem, TA>>> s; const bool min = C()(S0(0), S0(1)); long x[1024], best[1024];
    for (long i = 0; i < n; i++) { x[i] = order == 0 ? i : order == 1 ? n - 1 - i : order == 2 ? 5 : mix(i, n); best[i] = i && (min ? best[i - 1] < x[i] : best[i - 1] > x[i]) ? best[i - 1] : x[i]; s.push(S0(x[i])); an_check(an_is(s.top(), 0, x[i]) && an_is(s.getXValue(), 0, best[i]), "top and extreme of a growing stack"); }
    for (long i = n; i-- > 0; ) { an_check(an_is(s.top(), 0, x[i]) && an_is(s.getXValue(), 0, best[i]), "top and extreme of a shrinking stack"); s.pop(); } an_check(s.empty(), "empty");
}
API void t_C13_longasc() { xstack<L>(0, an_pick(300, 900)); }
API void t_C13_longdesc() { xstack<L>(1, an_pick(300, 900)); }
API void t_C13_longsame() { xstack<G>(2, an_pick(300, 900)); }
API void t_C13_longmix() { xstack<G>(3, an_pick(293, 983)); }
// sorting a long range
template <class C> static void sorted(int order, long n) {
    an_unroll(1000000); dstruct::Vector<Elem, TA> v; const bool up = C()(S0(0), S0(1)); for (long i = 0; i < n; i++) v.push_back(S0(order == 0 ? i : order == 1 ? n - 1 - i : mix(i, n)));
    dstruct::Heap<Elem, C, TA>::sort(v.begin(), v.end()); an_check(v.size() == n, "size after sort"); for (long i = 0; i < n; i++) an_check(an_is(v[i], 0, up ? i : n - 1 - i), "sort orders the range");
}
API void t_C15_longasc() { sorted<L>(0, an_pick(150, 600)); }
API void t_C15_longdesc() { sorted<L>(1, an_pick(150, 600)); }
API void t_C15_longmix() { sorted<G>(2, an_pick(149, 599)); }
// walking a large tree in each order, by iterator and by traversal
struct At { long *k, *n; const Elem *const *e; void operator()(const Elem &x) const { an_check(*k < *n, "traversal yields too many elements"); an_check(&x == e[*k], "traversal and iteration agree"); ++*k; } };
API void t_C20_long() {
    an_unroll(1000000); const long n = an_pick(137, 401); B t; for (long i = 0; i < n; i++) t.push(S0(mix(i, n))); in(t, 0, n);
    const Elem *e[512]; long k;
#define WALK(O) k = 0; for (auto it = t.begin(B::O); it != t.end(); ++it) { an_check(k < n, "iteration yields too many elements"); e[k++] = &*it; } an_check(k == n, "iteration yields too few elements"); { long j = 0, m = n; t.traversal(At{&j, &m, e}, B::O); an_check(j == n, "traversal yields too few elements"); }
    WALK(PreOrder) an_check(an_is(*e[0], 0, mix(0, n)), "the root comes first"); WALK(InOrder) for (long i = 0; i < n; i++) an_check(an_is(*e[i], 0, i), "in order"); WALK(PostOrder) an_check(an_is(*e[n - 1], 0, mix(0, n)), "the root comes last");
}
// a large map
API void t_C19_long() {
    an_unroll(1000000); const long n = an_pick(137, 401); dstruct::Map<Elem, Elem, L, dstruct::AVLTree<dstruct::KeyValue<const Elem, Elem>, dstruct::KVCMPKey<dstruct::KeyValue<const Elem, Elem>, L>, TA>> m;
    for (long i = 0; i < n; i++) m[S0(mix(i, n))] = an_seq(1, mix(i, n)); an_check(m.size() == n, "size");
    for (long i = 0; i < n; i += 3) m[S0(i)] = an_seq(2, i); for (long i = 0; i < n; i++) an_check(an_is(m[S0(i)], i % 3 ? 1 : 2, i), "the last value assigned");
    for (long i = 0; i < n; i += 2) { m.pop(S0(i)); an_check(m.find(S0(i)) == m.end(), "absent once removed"); } an_check(m.size() == n / 2, "size"); long k = 1; for (auto it = m.begin(); it != m.end(); ++it) { an_check(k < n && an_is(it->key, 0, k) && an_is(it->value, k % 3 ? 1 : 2, k), "iteration"); k += 2; }
}
// a heap made of a long range
template <class C> static void ranged(int order, long n) {
    an_unroll(1000000); dstruct::Vector<Elem, TA> v; const bool min = C()(S0(0), S0(1)); for (long i = 0; i < n; i++) v.push_back(S0(order == 1 ? i : order == 0 ? n - 1 - i : mix(i, n)));
    dstruct::Heap<Elem, C, TA> h(v.begin(), v.end()); an_check(h.size() == n, "size"); for (long i = 0; i < 20; i++) { an_check(an_is(h.top(), 0, min ? i : n - 1 - i), "a heap delivers in order"); h.pop(); } an_check(h.size() == n - 20, "size");
}
API void t_C14_longrange() { ranged<L>(0, an_pick(300, 900)); }
API void t_C14_longrange2() { ranged<G>(1, an_pick(300, 900)); }
API void t_C14_longrange3() { ranged<G>(2, an_pick(293, 983)); }
// the cost of operations, in instructions executed along one history: an operation on 512 elements against one on 64 (logarithms 9 and 6), n operations against n / 4
template <class F> static long cost(F f) { long a = an_steps(); f(); return an_steps() - a; }
static void logs(long at64, long at512, const char *) { an_check(at512 <= 3 * at64 + 40, "an operation costs more than a multiple of the logarithm of the size"); }
template <class T, class F> static long most(T &t, long n, F f) { long m = 0; for (long i = 0; i < 5; i++) { long c = cost([&] { f(t, n, i); }); if (c > m) m = c; } return m; }
template <class F> static void avl(int order, F f) {
    an_unroll(1000000); const long n = 512; A t; long m64 = 0;
    for (long i = 0; i < n; i++) { t.push(S0(2 * (order == 0 ? i : order == 1 ? n - 1 - i : mix(i, 509) + (i >= 509 ? i - mix(i, 509) : 0)))); if (i == 63) { A u(t); m64 = most(u, 64, f); } }
    logs(m64, most(t, n, f), "");
}
struct Find { template <class T> void operator()(T &t, long n, long i) const { t.find(S0(2 * (i * n / 5))); } };
struct FindAbs { template <class T> void operator()(T &t, long n, long i) const { t.find(S0(2 * (i * n / 5) + 1)); } };
struct Push { template <class T> void operator()(T &t, long n, long i) const { t.push(S0(2 * (i * n / 5) + 1)); } };
struct PopF { template <class T> void operator()(T &t, long, long) const { t.pop(*t.begin()); } };
struct EraseF { template <class T> void operator()(T &t, long, long) const { t.erase(t.begin()); } };
API void t_C37_costfind() { avl(0, Find()); }
API void t_C37_costfindabs() { avl(1, FindAbs()); }
API void t_C37_costpush() { avl(0, Push()); }
API void t_C37_costpop() { avl(1, PopF()); }
API void t_C37_costerase() { avl(0, EraseF()); }
API void t_C37_costmix() { avl(2, Push()); }
template <class C> static void heapcost(int order) {
    an_unroll(1000000); dstruct::Heap<Elem, C, TA> h; long push64 = 0, pop64 = 0, top64 = 0; const long n = 512;
    for (long i = 1; i <= n; i++) { h.push(S0(1000 + (order ? i : -i))); if (i == 60) { push64 = most(h, 0, [](dstruct::Heap<Elem, C, TA> &h, long, long k) { h.push(S0(k < 3 ? k : 3000 + k)); }); pop64 = most(h, 0, [](dstruct::Heap<Elem, C, TA> &h, long, long) { h.pop(); }); top64 = cost([&] { h.top(); }); } }
    an_check(cost([&] { h.top(); }) <= 2 * top64 + 20, "top takes time that grows with the size");
    logs(push64, most(h, 0, [](dstruct::Heap<Elem, C, TA> &h, long, long k) { h.push(S0(k < 3 ? 4 + k : 3010 + k)); }), ""); logs(pop64, most(h, 0, [](dstruct::Heap<Elem, C, TA> &h, long, long) { h.pop(); }), "");
}
API void t_C37_costheap() { heapcost<L>(0); }
API void t_C37_costheap2() { heapcost<G>(0); }
API void t_C37_costheap3() { heapcost<L>(1); }
// after every operation: what i operations have cost together against i / 4
template <class D, class F> static void amortised(F f, long n) {
    an_unroll(1000000); long c[400], base = an_steps(); c[0] = 0; D d; for (long i = 0; i < n; i++) { f(d, i); c[i + 1] = an_steps() - base; if (i >= 95) an_check(c[i + 1] <= 10 * c[(i + 1) / 4] + 400, "n operations cost more than a multiple of n"); }
}
struct Back { template <class D> void operator()(D &d, long i) const { d.push_back(S0(5000 + i)); } };
struct Front { template <class D> void operator()(D &d, long i) const { d.push_front(S0(5000 - i)); } };
struct Alt { template <class D> void operator()(D &d, long i) const { if (i & 1) d.push_front(S0(5000 - i)); else d.push_back(S0(5000 + i)); } };
struct Fifo { template <class D> void operator()(D &d, long i) const { d.push_back(S0(5000 + i)); if (i > 6) d.pop_front(); } };
struct Lifo { template <class D> void operator()(D &d, long i) const { d.push_back(S0(5000 + i)); if (i % 4 == 3) d.pop_back(); } };
struct Pu { template <class D> void operator()(D &d, long i) const { d.push(S0(5000 + i)); } };
using DQ1 = dstruct::DoubleEndedQueue<Elem, 1, TA>; using DQ8 = dstruct::DoubleEndedQueue<Elem, 8, TA>;
API void t_C37_amvec() { amortised<dstruct::Vector<Elem, TA>>(Back(), an_pick(320, 390)); }
API void t_C37_amvec2() { amortised<dstruct::Vector<Elem, TA>>(Lifo(), an_pick(320, 390)); }
API void t_C37_amback1() { amortised<DQ1>(Back(), an_pick(320, 390)); }
API void t_C37_amfront1() { amortised<DQ1>(Front(), an_pick(320, 390)); }
API void t_C37_amback8() { amortised<DQ8>(Back(), an_pick(320, 390)); }
API void t_C37_amfront8() { amortised<DQ8>(Front(), an_pick(320, 390)); }
API void t_C37_amalt8() { amortised<DQ8>(Alt(), an_pick(320, 390)); }
API void t_C37_amfifo() { amortised<DQ1>(Fifo(), an_pick(320, 390)); }
API void t_C37_amfifo8() { amortised<DQ8>(Fifo(), an_pick(320, 390)); }
API void t_C37_amstack() { amortised<dstruct::adapter::Stack<Elem, dstruct::Vector<Elem, TA>>>(Pu(), an_pick(320, 390)); }
API void t_C37_amqueue() { amortised<dstruct::adapter::Queue<Elem, DQ8>>(Pu(), an_pick(320, 390)); }
