// refute: 3 4
// scenarios for the cost of operations: C37 (comparisons made, element and block-table copies)
#include "an.hpp"
struct Less { long *n; Less(long *c = nullptr) : n(c) { } bool operator()(const Elem &a, const Elem &b) const { if (n) ++*n; return a < b; } };
// ---- search trees: comparisons against the height of the tree (which C18 bounds by the logarithm of the size)
using TT = dstruct::AVLTree<Elem, Less, TA>;
struct B : TT {
    using N = Node_;
    static void lay() { an_layout(0, sizeof(N), (long) &((N *) 0)->link.parent, (long) &((N *) 0)->link.left, (long) &((N *) 0)->link.right, (long) &((N *) 0)->data.val, (long) &((N *) 0)->data.height, 1); }
    B(long *c, long lo, long hi) : TT(Less(c)) { lay(); mRootPtr_d = (N *) an_tree(0, 0, lo, hi); mSize_d = hi - lo; }
    B(long *c, long lo, long hi, long lo2, long hi2) : TT(Less(c)) { lay(); mRootPtr_d = (N *) an_tree2(0, 0, lo, hi, lo2, hi2); mSize_d = hi - lo + hi2 - lo2; }
    long h() { return an_height(0, mRootPtr_d); }
    void done(long c, long h) { an_check(c <= 4 * h + 6, "comparisons beyond a multiple of the height"); an_end(0, mRootPtr_d); }
};
#define NP long c = 0, n = an_int(1, LIM), p = an_int(0, LIM); an_assume(p < n)
API void t_C37_find() { NP; B b(&c, 0, n); long h = b.h(); b.find(S0(p)); b.done(c, h); }
API void t_C37_findabs() { NP; B b(&c, 0, p, p + 1, n); long h = b.h(); b.find(S0(p)); b.done(c, h); }
API void t_C37_push() { NP; B b(&c, 0, p, p + 1, n); long h = b.h(); b.push(S0(p)); b.done(c, h); }
API void t_C37_pop() { NP; B b(&c, 0, n); long h = b.h(); b.pop(S0(p)); b.done(c, h); }
API void t_C37_popabs() { NP; B b(&c, 0, p, p + 1, n); long h = b.h(); b.pop(S0(p)); b.done(c, h); }
API void t_C37_erase() { NP; B b(&c, 0, n); long h = b.h(); b.erase(b.find(S0(p))); b.done(c, h); }
// ---- heaps: comparisons against the logarithm of the size
template <int N> static void heap(long lg) {
    an_unroll(400); an_unordered(0); long c = 0; dstruct::Heap<Elem, Less, TA> h((Less(&c))); for (long i = 1; i <= N; i++) { if (i > 1) an_assume(S0(i / 2) < S0(i)); h.push(S0(i)); }
    if (an_oracle()) { c = 0; h.push(S0(0)); an_check(c <= 3 * lg + 4, "comparisons of push beyond a multiple of the logarithm of the size"); an_check(h.size() == N + 1, "size"); }
    else { c = 0; h.pop(); an_check(c <= 4 * lg + 4, "comparisons of pop beyond a multiple of the logarithm of the size"); an_check(h.size() == N - 1, "size"); }
}
API void t_C37_heap8() { heap<8>(4); }
API void t_C37_heap15() { heap<15>(4); }
API void t_C37_heap31() { heap<31>(5); }
// ---- growth is geometric: a reallocation makes room for a proportion of what is held
using V = dstruct::Vector<Elem, TA>;
static long mkv(V &v) { long n = an_int(0, LIM), c = an_int(0, LIM); an_assume(n <= c); if (c > 0) v.resize(c); for (long i = 0; i < n; i++) v.push_back(S0(i)); return n; }
API void t_C37_vpush() { V v; long n = mkv(v), c = v.capacity(); v.push_back(S0(n)); long c2 = v.capacity(); if (c2 != c) { an_check(n == c, "push_back moves the elements although there is room"); an_check(4 * c2 >= 5 * c, "a growing vector makes room for a proportion of its size"); } }
API void t_C37_vpop() { V v; long n = mkv(v), c = v.capacity(); an_assume(n > 0); v.pop_back(); long c2 = v.capacity(); if (c2 != c) { an_check(c2 < c, "pop_back grows the storage"); an_check(8 * (c2 - (n - 1)) >= c2 - 8, "a shrunk vector keeps room for a proportion of its size"); an_check(8 * (n - 1) <= 7 * c, "a nearly full vector gives back storage"); } }
template <int A> static void dq(long max) {
    an_unroll(1000000); dstruct::DoubleEndedQueue<Elem, A, TA> d; long b = 100000, e = b;
    while (true) {
        an_seen(&d, b, e - b); long cap = d.capacity();
        if (an_oracle()) { an_assume(e - b < max); if (an_oracle()) { d.push_back(S0(e)); e++; } else { d.push_front(S0(b - 1)); b--; } if (d.capacity() != cap && cap > 0) an_check(4 * (long) d.capacity() >= 5 * cap, "a growing deque makes room for a proportion of its size"); }
        else if (an_oracle()) { an_assume(e > b); if (an_oracle()) { d.pop_back(); e--; } else { d.pop_front(); b++; } }
        else return;
    }
}
API void t_C37_deque1() { dq<1>(an_pick(11, 16)); }
API void t_C37_deque2() { dq<2>(an_pick(14, 22)); }
