// refute: 3 4
// scenarios for the AVL tree: C17 C18 (and C20, C04, C05, C06, C31)
#include "an.hpp"
using TT = dstruct::AVLTree<Elem, dstruct::less<Elem>, TA>;
template <class T> struct BT : T {
    using N = typename T::Node_; using T::mRootPtr_d; using T::mSize_d; using T::size; using T::height;
    static void lay() { an_layout(0, sizeof(N), (long) &((N *) 0)->link.parent, (long) &((N *) 0)->link.left, (long) &((N *) 0)->link.right, (long) &((N *) 0)->data.val, (long) &((N *) 0)->data.height, 1); }
    BT() { lay(); }
    template <class C> BT(C c, long lo, long hi) : T(c) { lay(); mRootPtr_d = (N *) an_tree(0, 0, lo, hi); mSize_d = hi - lo; }
    BT(long lo, long hi) { lay(); mRootPtr_d = (N *) an_tree(0, 0, lo, hi); mSize_d = hi - lo; }                  // arbitrary balanced tree of elements lo..hi-1
    BT(long lo, long hi, long lo2, long hi2) { lay(); mRootPtr_d = (N *) an_tree2(0, 0, lo, hi, lo2, hi2); mSize_d = hi - lo + hi2 - lo2; }
    void is(long lo, long hi) { an_check(size() == hi - lo, "size"); an_check(an_istree(0, mRootPtr_d, 0, lo, hi), "the tree holds exactly the right elements in order"); }
    void is(long lo, long hi, long lo2, long hi2) { an_check(size() == hi - lo + hi2 - lo2, "size"); an_check(an_istree2(0, mRootPtr_d, 0, lo, hi, lo2, hi2), "the tree holds exactly the right elements in order"); }
    void bal() { an_check(an_balanced(0, mRootPtr_d), "every node is height balanced"); an_check(an_heights(0, mRootPtr_d), "every node stores its true height"); an_check(height() == an_height(0, mRootPtr_d), "the reported height is the true height"); }
    void *root() { return mRootPtr_d; }
    void done() { an_end(0, mRootPtr_d); }
};
using B = BT<TT>;
template <int C> static void fin(B &b) { if (C) b.bal(); }
#define BOTH(name) API void t_C17_##name() { name<0>(); } API void t_C18_##name() { name<1>(); }
template <int C> static void push() { long n = an_int(1, LIM), p = an_int(0, LIM); an_assume(p < n); B b(0, p, p + 1, n); b.push(S0(p)); if (C) { b.bal(); b.done(); } else { b.is(0, n); b.done(); } }
template <int C> static void pop() { long n = an_int(1, LIM), p = an_int(0, LIM); an_assume(p < n); B b(0, n); b.pop(S0(p)); if (C) { b.bal(); b.done(); } else { b.is(0, p, p + 1, n); b.done(); } }
template <int C> static void popabs() { long n = an_int(1, LIM), p = an_int(0, LIM); an_assume(p < n); B b(0, p, p + 1, n); b.pop(S0(p)); if (C) { b.bal(); b.done(); } else { b.is(0, p, p + 1, n); b.done(); } }
template <int C> static void erase() { long n = an_int(1, LIM), p = an_int(0, LIM); an_assume(p < n); B b(0, n); b.erase(b.find(S0(p))); if (C) { b.bal(); b.done(); } else { b.is(0, p, p + 1, n); b.done(); } }
template <int C> static void small() { B b; b.pop(S0(3)); b.is(0, 0); b.push(S0(1)); b.is(1, 2); fin<C>(b); b.push(S0(0)); b.is(0, 2); fin<C>(b); b.pop(S0(1)); b.is(0, 1); fin<C>(b); b.pop(S0(0)); b.is(0, 0); an_check(b.empty(), "empty again"); fin<C>(b); b.push(S0(5)); b.clear(); b.is(0, 0); fin<C>(b); b.push(S0(2)); b.push(S0(3)); b.push(S0(4)); b.is(2, 5); fin<C>(b); b.erase(b.begin()); b.is(3, 5); fin<C>(b); b.erase(b.find(S0(4))); b.is(3, 4); b.erase(b.begin()); b.is(0, 0); an_check(b.height() == 0 && b.begin() == b.end(), "empty tree"); }
// growing from nothing in the two monotone orders and inwards
template <int C> static void asc() { an_depth(10, 10); B b; for (long i = 0; i < 8; i++) b.push(S0(i)); b.is(0, 8); fin<C>(b); an_check(b.height() == 4, "height of 8 elements"); for (long i = 0; i < 8; i++) { b.pop(S0(i)); b.is(i + 1, 8); fin<C>(b); } an_check(b.empty(), "empty"); }
template <int C> static void desc() { an_depth(10, 10); B b; for (long i = 8; i-- > 0; ) b.push(S0(i)); b.is(0, 8); fin<C>(b); for (long i = 8; i-- > 0; ) { b.erase(b.find(S0(i))); b.is(0, i); fin<C>(b); } an_check(b.empty(), "empty"); }
// at either end: the path is known, so deeper trees can be afforded
template <int C> static void popmin() { an_depth(5, 7); long n = an_int(1, LIM); B b(0, n); b.pop(S0(0)); if (C) { b.bal(); b.done(); } else { b.is(1, n); b.done(); } }
template <int C> static void popmax() { an_depth(5, 7); long n = an_int(1, LIM); B b(0, n); b.pop(S0(n - 1)); if (C) { b.bal(); b.done(); } else { b.is(0, n - 1); b.done(); } }
template <int C> static void pushmin() { an_depth(5, 7); long n = an_int(1, LIM); B b(1, n); b.push(S0(0)); if (C) { b.bal(); b.done(); } else { b.is(0, n); b.done(); } }
template <int C> static void pushmax() { an_depth(5, 7); long n = an_int(1, LIM); B b(0, n - 1); b.push(S0(n - 1)); if (C) { b.bal(); b.done(); } else { b.is(0, n); b.done(); } }
template <int C> static void erasemin() { an_depth(5, 7); long n = an_int(1, LIM); B b(0, n); b.erase(b.begin()); if (C) { b.bal(); b.done(); } else { b.is(1, n); b.done(); } }
template <int C> static void erasemax() { an_depth(5, 7); long n = an_int(1, LIM); B b(0, n); b.erase(b.find(S0(n - 1))); if (C) { b.bal(); b.done(); } else { b.is(0, n - 1); b.done(); } }
BOTH(popmin) BOTH(popmax) BOTH(pushmin) BOTH(pushmax) BOTH(erasemin) BOTH(erasemax)
BOTH(push) BOTH(pop) BOTH(popabs) BOTH(erase) BOTH(small) BOTH(asc) BOTH(desc)
API void t_C17_find() { long n = an_int(1, LIM), p = an_int(0, LIM); an_assume(p < n); B b(0, n); auto it = b.find(S0(p)); an_check(it != b.end(), "find reaches a present element"); an_check(an_is(*it, 0, p), "find reaches the right element"); b.is(0, n); b.done(); }
API void t_C17_findabs() { long n = an_int(1, LIM), p = an_int(0, LIM); an_assume(p < n); B b(0, p, p + 1, n); auto it = b.find(S0(p)); an_check(it == b.end(), "find of an absent element"); b.is(0, p, p + 1, n); b.done(); }
API void t_C17_clear() { B b(0, an_int(0, LIM)); b.clear(); b.is(0, 0); an_check(b.empty() && b.height() == 0, "empty after clear"); b.push(S0(1)); b.is(1, 2); }
API void t_C03_avldtor() { B b(0, an_int(0, LIM)); }
API void t_C31_avldup() { long n = an_int(1, LIM), p = an_int(0, LIM); an_assume(p < n); B b(0, n); an_stop_on(); b.push(S0(p)); an_unreachable("inserting a present key does not stop"); }
// iterators
API void t_C20_avlerase() { long n = an_int(1, LIM), p = an_int(0, LIM); an_assume(p < n); B b(0, n); auto it = b.erase(b.find(S0(p))); if (p + 1 < n) an_check(it != b.end() && an_is(*it, 0, p + 1), "erase returns the in-order successor"); else an_check(it == b.end(), "erase of the last element returns end"); b.is(0, p, p + 1, n); b.done(); }
API void t_C20_avlnext() { long n = an_int(1, LIM), p = an_int(0, LIM); an_assume(p < n); B b(0, n); auto it = b.find(S0(p)); auto old = it++; an_check(an_is(*old, 0, p), "post-increment gives the old position"); if (p + 1 < n) { an_check(it != b.end() && an_is(*it, 0, p + 1), "in-order successor"); } else an_check(it == b.end(), "end after the last element"); b.is(0, n); b.done(); }
API void t_C20_avlinorder() { long n = an_int(0, LIM); B b(0, n); long i = 0; for (auto it = b.begin(); it != b.end(); ++it) { an_check(an_is(*it, 0, i), "in-order iteration"); i++; } an_check(i == n, "in-order iteration visits all"); b.done(); }
using NN = B::N; using LL = NN::LinkType; using IT = typename TT::ConstIteratorType;
static void pre(LL *r, IT &it, const IT &end) { if (!r) return; an_check(it != end && &*it == &NN::to_node(r)->data.val, "pre-order iteration"); ++it; pre(r->left, it, end); pre(r->right, it, end); }
static void post(LL *r, IT &it, const IT &end) { if (!r) return; post(r->left, it, end); post(r->right, it, end); an_check(it != end && &*it == &NN::to_node(r)->data.val, "post-order iteration"); it++; }
API void t_C20_avlpre() { B b(0, an_int(0, LIM)); auto it = b.begin(TT::TraversalType::PreOrder), e = b.end(TT::TraversalType::PreOrder); pre((LL *) b._get_root_ptr(), it, e); an_check(it == e, "pre-order iteration ends"); b.done(); }
API void t_C20_avlpost() { B b(0, an_int(0, LIM)); auto it = b.begin(TT::TraversalType::PostOrder), e = b.end(TT::TraversalType::PostOrder); post((LL *) b._get_root_ptr(), it, e); an_check(it == e, "post-order iteration ends"); b.done(); }
// copies and moves
API void t_C04_avl() { long n = an_int(0, LIM); B b(0, n); B c; c = b; c.is(0, n); c.bal(); b.is(0, n); c.push(S0(n)); b.is(0, n); c.is(0, n + 1); an_end2(0, b.root(), c.root()); }
API void t_C04_avl2() { long n = an_int(0, LIM); B b(0, n); B c(b); c.is(0, n); b.is(0, n); b.clear(); c.is(0, n); c.done(); }
API void t_C04_avla() { long n = an_int(0, LIM), m = an_int(0, LIM); B b(0, n), c(n, n + m); c = b; c.is(0, n); b.is(0, n); const B &r = c; c = r; c.is(0, n); an_end2(0, b.root(), c.root()); }
API void t_C05_avl() { long n = an_int(0, LIM); B b(0, n); B c(dstruct::move(b)); c.is(0, n); b.is(0, 0); an_check(b.empty() && b.begin() == b.end() && b.height() == 0, "moved-from tree is empty"); b.push(S0(3)); b.is(3, 4); c.push(S0(n)); c.is(0, n + 1); c.bal(); an_end2(0, b.root(), c.root()); }
API void t_C05_avla() { long n = an_int(0, LIM), m = an_int(0, LIM); B b(0, n), c(n, n + m); c = dstruct::move(b); c.is(0, n); b.is(0, 0); B &r = c; c = dstruct::move(r); c.is(0, n); b.push(S0(3)); b.is(3, 4); an_end2(0, b.root(), c.root()); }
API void t_C06_avl() { long n = an_int(1, LIM), p = an_int(0, LIM); an_assume(p < n); B b(0, n); b.pop(*b.find(S0(p))); b.is(0, p, p + 1, n); b.done(); }
// every operation uses the comparison the tree was given
using TG = dstruct::AVLTree<Elem, Tag, TA>; using BG = BT<TG>;
template <int K> static void stated() { long n = an_int(1, LIM), p = an_int(0, LIM); an_assume(p < n); BG b(Tag(7), 0, n); if (K == 0) { b.push(S0(n)); b.is(0, n + 1); } if (K == 1) { b.pop(S0(p)); b.is(0, p, p + 1, n); } if (K == 2) { an_check(an_is(*b.find(S0(p)), 0, p), "find"); b.is(0, n); } if (K == 3) { b.erase(b.begin()); b.is(1, n); } b.done(); }
API void t_C17_cmppush() { stated<0>(); }
API void t_C17_cmppop() { stated<1>(); }
API void t_C17_cmpfind() { stated<2>(); }
API void t_C17_cmperase() { stated<3>(); }
API void t_C17_cmpclear() { BG b(Tag(7), 0, an_int(0, LIM)); b.clear(); b.push(S0(1)); b.push(S0(0)); b.push(S0(2)); b.pop(S0(1)); b.is(0, 1, 2, 3); b.done(); }
API void t_C04_avlcmp() { long n = an_int(0, LIM); BG b(Tag(7), 0, n); BG c(b); c.push(S0(n)); c.find(S0(n)); c.is(0, n + 1); b.push(S0(n)); b.is(0, n + 1); an_end2(0, b.root(), c.root()); }
API void t_C04_avlcmpa() { long n = an_int(0, LIM), m = an_int(0, LIM); BG b(Tag(7), 0, n), c(Tag(1), n, n + m); c = b; c.push(S0(n)); c.is(0, n + 1); b.push(S0(n)); b.is(0, n + 1); an_end2(0, b.root(), c.root()); }
API void t_C05_avlcmp() { long n = an_int(0, LIM); BG b(Tag(7), 0, n); BG c(dstruct::move(b)); c.push(S0(n)); c.find(S0(n)); c.is(0, n + 1); an_end2(0, b.root(), c.root()); }
API void t_C05_avlcmpa() { long n = an_int(0, LIM), m = an_int(0, LIM); BG b(Tag(7), 0, n), c(Tag(1), n, n + m); c = dstruct::move(b); c.push(S0(n)); c.is(0, n + 1); an_end2(0, b.root(), c.root()); }
API void t_C18_height() { B b(0, an_int(0, LIM)); an_check(dstruct::tree::height((LL *) b._get_root_ptr()) == an_height(0, b.root()), "tree::height counts the nodes of the longest path"); an_check(b.height() == an_height(0, b.root()), "the reported height is the true height"); b.done(); }
API void t_C18_heights() { an_depth(6, 6); B b; an_check(dstruct::tree::height(nullptr) == 0, "height of an empty tree"); b.push(S0(1)); an_check(dstruct::tree::height((LL *) b._get_root_ptr()) == 1, "height of one node"); b.push(S0(0)); an_check(dstruct::tree::height((LL *) b._get_root_ptr()) == 2, "height of two nodes"); b.push(S0(2)); an_check(dstruct::tree::height((LL *) b._get_root_ptr()) == 2, "height of three nodes"); b.push(S0(3)); an_check(dstruct::tree::height((LL *) b._get_root_ptr()) == 3, "height of four nodes"); }
