// scenarios for the binary search tree: C16 (and C20, C04, C05)
// refute: 3 5
#include "an.hpp"
using TT = dstruct::tree::BinarySearchTree<Elem, dstruct::less<Elem>, TA>;
template <class T> struct BT : T {
    using N = typename T::Node_; using T::mRootPtr_d; using T::mSize_d; using T::size;
    static void lay() { an_layout(0, sizeof(N), (long) &((N *) 0)->link.parent, (long) &((N *) 0)->link.left, (long) &((N *) 0)->link.right, (long) &((N *) 0)->data, -1, 0); }
    BT() { lay(); }
    template <class C> BT(C c, long lo, long hi) : T(c) { lay(); mRootPtr_d = (N *) an_tree(0, 0, lo, hi); mSize_d = hi - lo; }
    BT(long lo, long hi) { lay(); mRootPtr_d = (N *) an_tree(0, 0, lo, hi); mSize_d = hi - lo; }                  // arbitrary tree of elements lo..hi-1
    BT(long lo, long hi, long lo2, long hi2) { lay(); mRootPtr_d = (N *) an_tree2(0, 0, lo, hi, lo2, hi2); mSize_d = hi - lo + hi2 - lo2; }
    void is(long lo, long hi) { an_check(size() == hi - lo, "size"); an_check(an_istree(0, mRootPtr_d, 0, lo, hi), "the tree holds exactly the right elements in order"); }
    void is(long lo, long hi, long lo2, long hi2) { an_check(size() == hi - lo + hi2 - lo2, "size"); an_check(an_istree2(0, mRootPtr_d, 0, lo, hi, lo2, hi2), "the tree holds exactly the right elements in order"); }
    void *root() { return mRootPtr_d; }
    void done() { an_end(0, mRootPtr_d); }
};
using B = BT<TT>;
API void t_C16_push() { long n = an_int(1, LIM), p = an_int(0, LIM); an_assume(p < n); B b(0, p, p + 1, n); b.push(S0(p)); b.is(0, n); b.done(); }
API void t_C16_dup() { long n = an_int(1, LIM), p = an_int(0, LIM); an_assume(p < n); B b(0, n); b.push(S0(p)); b.is(0, n); b.done(); }
API void t_C16_pop() { long n = an_int(1, LIM), p = an_int(0, LIM); an_assume(p < n); B b(0, n); b.pop(S0(p)); b.is(0, p, p + 1, n); b.done(); }
API void t_C16_popabs() { long n = an_int(1, LIM), p = an_int(0, LIM); an_assume(p < n); B b(0, p, p + 1, n); b.pop(S0(p)); b.is(0, p, p + 1, n); b.done(); }
API void t_C16_find() { long n = an_int(1, LIM), p = an_int(0, LIM); an_assume(p < n); B b(0, n); auto it = b.find(S0(p)); an_check(it != b.end(), "find reaches a present element"); an_check(an_is(*it, 0, p), "find reaches the right element"); b.is(0, n); b.done(); }
API void t_C16_findabs() { long n = an_int(1, LIM), p = an_int(0, LIM); an_assume(p < n); B b(0, p, p + 1, n); auto it = b.find(S0(p)); an_check(it == b.end(), "find of an absent element"); b.is(0, p, p + 1, n); b.done(); }
API void t_C16_empty() { B b; b.pop(S0(3)); b.is(0, 0); an_check(b.empty() && b.begin() == b.end() && b.find(S0(1)) == b.end(), "empty tree"); b.push(S0(1)); b.is(1, 2); an_check(!b.empty(), "not empty"); b.push(S0(0)); b.is(0, 2); b.pop(S0(1)); b.is(0, 1); b.pop(S0(0)); b.is(0, 0); an_check(b.empty(), "empty again"); b.push(S0(5)); b.is(5, 6); b.clear(); b.is(0, 0); b.push(S0(2)); b.push(S0(3)); b.is(2, 4); }
API void t_C16_twopush() { long n = an_int(2, LIM), p = an_int(0, LIM), q = an_int(0, LIM); an_assume(p < q); an_assume(q < n); B b(0, p, q + 1, n); an_assume(q == p + 1); b.push(S0(q)); b.push(S0(p)); b.is(0, n); b.pop(S0(q)); b.is(0, q, q + 1, n); b.done(); }
API void t_C16_range() { an_depth(6, 6); Elem a[3] = { S0(an_int(0, 2)), S0(an_int(0, 2)), S0(an_int(0, 2)) }; dstruct::PrimitiveIterator<Elem> x(a), y(a + 3); TT t(x, y); for (auto &e : a) { auto it = t.find(e); an_check(it != t.end() && *it == e, "range construction holds every element"); } auto it = t.begin(); long n = 0; Elem last = *it; for (; it != t.end(); ++it) { if (n) an_check(last < *it, "iteration increases"); last = *it; n++; } an_check(n == t.size(), "size counts the distinct elements"); an_check(n == 3 - (a[1] == a[0]) - (a[2] == a[0] || a[2] == a[1]), "number of distinct elements"); }
API void t_C16_clear() { B b(0, an_int(0, LIM)); b.clear(); b.is(0, 0); an_check(b.empty(), "empty after clear"); b.push(S0(1)); b.is(1, 2); }
API void t_C03_bstdtor() { B b(0, an_int(0, LIM)); }
// erasing through an iterator
API void t_C20_erase() { long n = an_int(1, LIM), p = an_int(0, LIM); an_assume(p < n); B b(0, n); auto it = b.erase(b.find(S0(p))); b.is(0, p, p + 1, n); if (p + 1 < n) an_check(it != b.end() && an_is(*it, 0, p + 1), "erase returns the in-order successor"); else an_check(it == b.end(), "erase of the last element returns end"); b.done(); }
API void t_C16_erase() { long n = an_int(1, LIM), p = an_int(0, LIM); an_assume(p < n); B b(0, n); b.erase(b.find(S0(p))); b.is(0, p, p + 1, n); b.push(S0(p)); b.is(0, n); b.done(); }
API void t_C20_eraseall() { long n = an_int(1, LIM); B b(0, n); long i = 0; auto it = b.begin(); while (it != b.end()) { an_check(an_is(*it, 0, i), "erasing all in order"); it = b.erase(it); i++; } an_check(i == n && b.empty(), "erasing all"); b.is(0, 0); b.done(); }
API void t_C20_next() { long n = an_int(1, LIM), p = an_int(0, LIM); an_assume(p < n); B b(0, n); auto it = b.find(S0(p)); auto old = it++; an_check(an_is(*old, 0, p), "post-increment gives the old position"); if (p + 1 < n) { an_check(it != b.end() && an_is(*it, 0, p + 1), "in-order successor"); } else an_check(it == b.end(), "end after the last element"); b.is(0, n); b.done(); }
API void t_C20_first() { long n = an_int(0, LIM); B b(0, n); auto it = b.begin(); if (n == 0) an_check(it == b.end(), "begin of an empty tree"); else an_check(it != b.end() && an_is(*it, 0, 0), "begin is the first element"); b.is(0, n); b.done(); }
API void t_C20_inorder() { long n = an_int(0, LIM); B b(0, n); long i = 0; for (auto it = b.begin(); it != b.end(); ++it) { an_check(an_is(*it, 0, i), "in-order iteration"); i++; } an_check(i == n, "in-order iteration visits all"); b.done(); }
using NN = B::N; using LL = NN::LinkType; using IT = typename TT::ConstIteratorType;
static void pre(LL *r, IT &it, const IT &end) { if (!r) return; an_check(it != end && &*it == &NN::to_node(r)->data, "pre-order iteration"); ++it; pre(r->left, it, end); pre(r->right, it, end); }
static void ino(LL *r, IT &it, const IT &end) { if (!r) return; ino(r->left, it, end); an_check(it != end && &*it == &NN::to_node(r)->data, "in-order iteration"); it++; ino(r->right, it, end); }
static void post(LL *r, IT &it, const IT &end) { if (!r) return; post(r->left, it, end); post(r->right, it, end); an_check(it != end && &*it == &NN::to_node(r)->data, "post-order iteration"); ++it; }
API void t_C20_pre() { B b(0, an_int(0, LIM)); auto it = b.begin(TT::TraversalType::PreOrder), e = b.end(TT::TraversalType::PreOrder); pre((LL *) b._get_root_ptr(), it, e); an_check(it == e, "pre-order iteration ends"); b.done(); }
API void t_C20_ino() { B b(0, an_int(0, LIM)); auto it = b.begin(TT::TraversalType::InOrder), e = b.end(TT::TraversalType::InOrder); ino((LL *) b._get_root_ptr(), it, e); an_check(it == e, "in-order iteration ends"); b.done(); }
API void t_C20_post() { B b(0, an_int(0, LIM)); auto it = b.begin(TT::TraversalType::PostOrder), e = b.end(TT::TraversalType::PostOrder); post((LL *) b._get_root_ptr(), it, e); an_check(it == e, "post-order iteration ends"); b.done(); }
template <int K> static void trav() { B b(0, an_int(0, LIM)); auto k = (TT::TraversalType) K; auto it = b.begin(k), e = b.end(k); b.traversal([&](const Elem &x) { an_check(it != e && &*it == &x, "traversal visits the elements in the order of iteration"); ++it; }, k); an_check(it == e, "traversal visits all"); b.done(); }
API void t_C20_tpre() { trav<0>(); }
API void t_C20_tino() { trav<1>(); }
API void t_C20_tpost() { trav<2>(); }
// copies and moves
API void t_C04_bst() { long n = an_int(0, LIM); B b(0, n); B c; c = b; c.is(0, n); b.is(0, n); c.push(S0(n)); b.is(0, n); c.is(0, n + 1); an_end2(0, b.root(), c.root()); }
API void t_C04_bst2() { long n = an_int(0, LIM); B b(0, n); { TT c(b); an_check(c.size() == n, "size of a copy"); long i = 0; for (auto it = c.begin(); it != c.end(); ++it) { an_check(an_is(*it, 0, i), "element of a copy"); i++; } an_check(i == n, "elements of a copy"); } b.is(0, n); b.done(); }
API void t_C04_bsta() { long n = an_int(0, LIM), m = an_int(0, LIM); B b(0, n), c(n, n + m); c = b; c.is(0, n); b.is(0, n); const B &r = c; c = r; c.is(0, n); an_end2(0, b.root(), c.root()); }
API void t_C05_bst() { long n = an_int(0, LIM); B b(0, n); B c(dstruct::move(b)); c.is(0, n); b.is(0, 0); an_check(b.empty() && b.begin() == b.end(), "moved-from tree is empty"); b.push(S0(3)); b.is(3, 4); c.push(S0(n)); c.is(0, n + 1); an_end2(0, b.root(), c.root()); }
API void t_C05_bsta() { long n = an_int(0, LIM), m = an_int(0, LIM); B b(0, n), c(n, n + m); c = dstruct::move(b); c.is(0, n); b.is(0, 0); B &r = c; c = dstruct::move(r); c.is(0, n); b.push(S0(3)); b.is(3, 4); an_end2(0, b.root(), c.root()); }
API void t_C06_bst() { long n = an_int(1, LIM), p = an_int(0, LIM); an_assume(p < n); B b(0, n); b.pop(*b.find(S0(p))); b.is(0, p, p + 1, n); b.done(); }
API void t_C06_bstpush() { long n = an_int(1, LIM); B b(0, n); b.push(*b.begin()); b.is(0, n); b.done(); }
// a comparison with state: every operation uses the one the tree was given
using TG = dstruct::tree::BinarySearchTree<Elem, Tag, TA>; using BG = BT<TG>;
template <int K> static void stated() { long n = an_int(1, LIM), p = an_int(0, LIM); an_assume(p < n); BG b(Tag(7), 0, n); if (K == 0) { b.push(S0(n)); b.is(0, n + 1); } if (K == 1) { b.pop(S0(p)); b.is(0, p, p + 1, n); } if (K == 2) { an_check(an_is(*b.find(S0(p)), 0, p), "find"); b.is(0, n); } if (K == 3) { b.erase(b.begin()); b.is(1, n); } b.done(); }
API void t_C16_cmppush() { stated<0>(); }
API void t_C16_cmppop() { stated<1>(); }
API void t_C16_cmpfind() { stated<2>(); }
API void t_C16_cmperase() { stated<3>(); }
API void t_C16_cmpclear() { BG b(Tag(7), 0, an_int(0, LIM)); b.clear(); b.push(S0(1)); b.push(S0(0)); b.push(S0(2)); b.pop(S0(1)); b.is(0, 1, 2, 3); b.done(); }
API void t_C04_bstcmp() { long n = an_int(0, LIM); BG b(Tag(7), 0, n); BG c(b); c.push(S0(n)); c.find(S0(n)); c.is(0, n + 1); b.push(S0(n)); b.is(0, n + 1); an_end2(0, b.root(), c.root()); }
API void t_C04_bstcmpa() { long n = an_int(0, LIM), m = an_int(0, LIM); BG b(Tag(7), 0, n), c(Tag(1), n, n + m); c = b; c.push(S0(n)); c.is(0, n + 1); b.push(S0(n)); b.is(0, n + 1); an_end2(0, b.root(), c.root()); }
API void t_C05_bstcmp() { long n = an_int(0, LIM); BG b(Tag(7), 0, n); BG c(dstruct::move(b)); c.push(S0(n)); c.find(S0(n)); c.is(0, n + 1); an_end2(0, b.root(), c.root()); }
API void t_C05_bstcmpa() { long n = an_int(0, LIM), m = an_int(0, LIM); BG b(Tag(7), 0, n), c(Tag(1), n, n + m); c = dstruct::move(b); c.push(S0(n)); c.is(0, n + 1); an_end2(0, b.root(), c.root()); }
