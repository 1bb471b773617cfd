// scenarios for the intrusive lists: C10
#include "an.hpp"
using SN = dstruct::EmbeddedListNode_<Elem, dstruct::SinglyLink_>;
using DN = dstruct::EmbeddedListNode_<Elem, dstruct::DoublyLink_>;
template <class N> static N *mknode(const Elem &e) { N *p = (N *) TA::allocate(sizeof(N)); dstruct::construct(&p->data, e); return p; }
template <class N> static void freenode(N *p) { p->data.~Elem(); TA::deallocate(p, sizeof(N)); }
static void noprev(SN *) {}
template <class N> static void fwd(N *h, long from, long n, int s) {      // n nodes behind h hold elements from.. of s
    long i = 0;
    for (auto l = h->link.next; l != N::to_link(h); l = l->next) { an_check(i < n, "too many nodes"); an_check(an_is(N::to_node(l)->data, s, from + i), "node order"); i++; }
    an_check(i == n, "too few nodes"); an_check(N::empty(h) == (n == 0), "empty");
}
static void bwd(SN *, long, long, int) {}
static void bwd(DN *h, long from, long n, int s) {
    long i = n;
    for (auto l = h->link.prev; l != DN::to_link(h); l = l->prev) { an_check(i > 0, "too many nodes backwards"); i--; an_check(an_is(DN::to_node(l)->data, s, from + i), "backward order"); }
    an_check(i == 0, "too few nodes backwards");
}
static void loose(SN *x) { an_check(x->link.next == nullptr, "del leaves the links of the node null"); }
static void loose(DN *x) { an_check(x->link.next == nullptr && x->link.prev == nullptr, "del leaves the links of the node null"); }
template <class N> static void drop(N *h) { while (!N::empty(h)) { auto l = h->link.next; N::LinkType::del(N::to_link(h), l); freenode(N::to_node(l)); } an_check(h->link.next == N::to_link(h), "empty list after removing everything"); }
// h, then elements 0..n-1 added at the front (last first)
template <class N> static long grow(N *h, int s) { long n = an_int(0, LIM); N::init(h); for (long i = 0; i < n; i++) N::add(h, mknode<N>(an_seq(s, n - 1 - i))); return n; }
// elements 0..n-1 added behind each other; returns the last node
template <class N> static N *append(N *h, long n, int s, long from) { N *t = h; for (long i = 0; i < n; i++) { N *q = mknode<N>(an_seq(s, from + i)); N::add(t, q); t = q; } return t; }
template <class N> static void inits() { N h; N::init(&h); an_check(N::empty(&h), "a fresh list is empty"); an_check(h.link.next == N::to_link(&h), "init links a node to itself"); fwd(&h, 0, 0, 0); bwd(&h, 0, 0, 0);
    N x; N::init(&x); N::add(&h, &x); an_check(!N::empty(&h) && !N::empty(&x), "not empty after add"); an_check(h.link.next == N::to_link(&x) && x.link.next == N::to_link(&h), "two nodes form a ring"); N::del(&h, &x); an_check(N::empty(&h), "empty after del"); N::init(&h); an_check(N::empty(&h), "init makes a list empty"); }
template <class N> static void convert() { N h; an_check(N::to_node(N::to_link(&h)) == &h, "node -> link -> node"); N *p = mknode<N>(S0(0)); auto l = N::to_link(p); an_check(N::to_link(N::to_node(l)) == l, "link -> node -> link"); an_check(&N::to_node(l)->data == &p->data, "data of the node"); an_check(&p->link == l, "link of the node"); freenode(p); }
template <class N> static void fronts() { N h; long n = grow<N>(&h, 0); fwd(&h, 0, n, 0); bwd(&h, 0, n, 0); drop(&h); }
template <class N> static void appends() { N h; N::init(&h); long n = an_int(0, LIM); append<N>(&h, n, 0, 0); fwd(&h, 0, n, 0); bwd(&h, 0, n, 0); drop(&h); }
// a node goes exactly behind the given one: a nodes before, b nodes after
template <class N> static void inserts() { N h; N::init(&h); long a = an_int(0, LIM), b = an_int(0, LIM); N *t = append<N>(&h, a, 0, 0); append<N>(t, b, 0, a + 1);
    N *x = mknode<N>(S0(a)); N::add(t, x); an_check(t->link.next == N::to_link(x), "add places the node directly behind"); fwd(&h, 0, a + b + 1, 0); bwd(&h, 0, a + b + 1, 0); drop(&h); }
template <class N> static void removes() { N h; N::init(&h); long a = an_int(0, LIM), b = an_int(0, LIM); N *t = append<N>(&h, a, 0, 0); N *x = mknode<N>(an_seq(1, 0)); N::add(t, x); append<N>(x, b, 0, a);
    N::del(t, x); an_check(an_is(x->data, 1, 0), "del keeps the data"); loose(x); fwd(&h, 0, a + b, 0); bwd(&h, 0, a + b, 0); 
    N::add(t, x); freenode((N::del(t, x), x)); N *y = mknode<N>(S0(a + b)); if (b == 0) N::add(t, y); else freenode(y); fwd(&h, 0, b == 0 ? a + 1 : a + b, 0); drop(&h); }
template <class N> static void moves() { N h, g; N::init(&g); long n = grow<N>(&h, 0); an_assume(n > 1); auto l = h.link.next; N::LinkType::del(N::to_link(&h), l); N::add(&g, N::to_node(l)); fwd(&g, 0, 1, 0); bwd(&g, 0, 1, 0); fwd(&h, 1, n - 1, 0); bwd(&h, 1, n - 1, 0); drop(&h); drop(&g); }
API void t_C10_sinit() { inits<SN>(); }
API void t_C10_dinit() { inits<DN>(); }
API void t_C10_sconv() { convert<SN>(); }
API void t_C10_dconv() { convert<DN>(); }
API void t_C10_sfront() { fronts<SN>(); }
API void t_C10_dfront() { fronts<DN>(); }
API void t_C10_sapp() { appends<SN>(); }
API void t_C10_dapp() { appends<DN>(); }
API void t_C10_sins() { inserts<SN>(); }
API void t_C10_dins() { inserts<DN>(); }
API void t_C10_sdel() { removes<SN>(); }
API void t_C10_ddel() { removes<DN>(); }
API void t_C10_smove() { moves<SN>(); }
API void t_C10_dmove() { moves<DN>(); }
// the doubly linked form without a ring: the last node's next is null
API void t_C10_dopen() { DN a, b, c; a.link.next = a.link.prev = nullptr; DN::add(&a, &b); an_check(a.link.next == DN::to_link(&b) && b.link.prev == DN::to_link(&a) && b.link.next == nullptr, "add to an open list"); DN::add(&a, &c);
    an_check(a.link.next == DN::to_link(&c) && c.link.next == DN::to_link(&b) && b.link.prev == DN::to_link(&c) && c.link.prev == DN::to_link(&a) && b.link.next == nullptr, "add into an open list");
    DN::del(&a, &c); an_check(a.link.next == DN::to_link(&b) && b.link.prev == DN::to_link(&a), "del from an open list"); DN::del(&a, &b); an_check(a.link.next == nullptr, "del of the last node of an open list"); }
// layouts other than Elem's
template <class T> struct al { T x; alignas(32) char y; };
template <class T, class L> static void conv() { using N = dstruct::EmbeddedListNode_<T, L>; N *p = (N *) TA::allocate(sizeof(N)); an_check(N::to_node(N::to_link(p)) == p && (void *) &p->link == (void *) N::to_link(p), "node and link convert for every payload"); TA::deallocate(p, sizeof(N)); }
API void t_C10_layout() { conv<char, dstruct::SinglyLink_>(); conv<char, dstruct::DoublyLink_>(); conv<al<char>, dstruct::SinglyLink_>(); conv<al<int>, dstruct::DoublyLink_>(); conv<char[100], dstruct::DoublyLink_>(); }
