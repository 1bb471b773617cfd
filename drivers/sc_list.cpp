// scenarios for the linked lists: C08 C09 C10
#include "an.hpp"
using S = dstruct::SinglyLinkedList<Elem, TA>;
using D = dstruct::DoublyLinkedList<Elem, TA>;
template <class L> static long mk(L &v, int s) { long n = an_int(0, LIM); for (long i = 0; i < n; i++) v.push_back(an_seq(s, i)); return n; }
template <class L> static void walk(L &v, int s, long n) {
    long i = 0;
    for (auto it = v.begin(); it != v.end(); ++it) { an_check(i < n, "iteration yields too many elements"); an_check(an_is(*it, s, i), "iteration order"); i++; }
    an_check(i == n, "iteration yields too few elements");
    const L &w = v; i = 0;
    for (auto it = w.begin(); it != w.end(); it++) { an_check(i < n, "const iteration yields too many elements"); an_check(an_is(*it, s, i), "const iteration order"); i++; }
    an_check(i == n, "const iteration count");
}
template <class L> static void same(L &v, int s, long n) {
    const L &w = v; an_check(w.size() == n, "size"); an_check(w.empty() == (n == 0), "empty");
    if (n > 0) { an_check(an_is(w.front(), s, 0), "front"); an_check(an_is(w.back(), s, n - 1), "back"); }
    walk(v, s, n);
}
API void t_C08_pushes() { S v; long n = mk(v, 0); same(v, 0, n); }
API void t_C09_pushes() { D v; long n = mk(v, 0); same(v, 0, n); }
// the same list reached by pushing at the front
template <class L> static long mkf(L &v, int s) { long n = an_int(0, LIM); for (long i = 0; i < n; i++) v.push_front(an_seq(s, n - 1 - i)); return n; }
// pushes at both ends: a elements in front, b behind
template <class L> static long mk2(L &v, int s) { long a = an_int(0, LIM), b = an_int(0, LIM); for (long i = 0; i < b; i++) v.push_back(an_seq(s, a + i)); for (long i = 0; i < a; i++) v.push_front(an_seq(s, a - 1 - i)); return a + b; }
template <class L> static void use(L &v) { same(v, 0, 0); v.push_back(S0(1)); v.push_front(S0(0)); v.push_back(S0(2)); same(v, 0, 3); }
template <class L> static void fronts() { L v; long n = mkf(v, 0); same(v, 0, n); }
template <class L> static void both() { L v; long n = mk2(v, 0); same(v, 0, n); }
template <class L> static void backthenfront() { L v; long n = mk(v, 0); v.push_front(an_seq(1, 0)); v.push_back(S0(n)); v.pop_front(); same(v, 0, n + 1); v.push_back(S0(n + 1)); same(v, 0, n + 2); }
template <class L> static void popfront() { L v; long n = mk(v, 0); an_assume(n > 0); v.pop_front(); an_check(v.size() == n - 1, "size after pop_front"); if (n > 1) { an_check(an_is(v.front(), 0, 1), "front after pop_front"); an_check(an_is(v.back(), 0, n - 1), "back after pop_front"); } 
    v.push_front(S0(0)); same(v, 0, n); v.push_back(S0(n)); same(v, 0, n + 1); }
template <class L> static void popfronts() { L v; long n = mk(v, 0), k = an_int(0, LIM); an_assume(k <= n); for (long i = 0; i < k; i++) { an_check(an_is(v.front(), 0, i), "front while draining"); v.pop(); } an_check(v.size() == n - k, "size while draining"); 
    if (k == n) { use(v); return; } an_assume(k > 0); an_check(an_is(v.front(), 0, k) && an_is(v.back(), 0, n - 1), "ends after draining a part"); v.push_front(S0(k - 1)); v.push_back(S0(n)); an_check(an_is(v.back(), 0, n), "back after draining a part");
    long i = k - 1; for (auto it = v.begin(); it != v.end(); it++) { an_check(an_is(*it, 0, i), "iteration after draining a part"); i++; } an_check(i == n + 1, "count after draining a part"); }
template <class L> static void clears() { L v; mk(v, 1); v.clear(); use(v); v.clear(); v.clear(); use(v); }
template <class L> static void fill() { long n = an_int(1, LIM); L v(n, an_seq(1, 0)); an_check(v.size() == n, "size of L(n, e)"); long i = 0; for (auto it = v.begin(); it != v.end(); it++) { an_check(an_is(*it, 1, 0), "element of L(n, e)"); i++; } an_check(i == n, "count of L(n, e)"); }
template <class L> static void writes() { L v; long n = mk(v, 0); long i = 0; for (auto it = v.begin(); it != v.end(); it++) { *it = an_seq(1, i); i++; } same(v, 1, n); }
template <class L> static void plain() { L v; long n = an_int(0, LIM); for (long i = 0; i < n; i++) v.push(an_seq(0, n - 1 - i)); same(v, 0, n); an_assume(n > 0); v.pop(); an_check(v.size() == n - 1, "size after pop"); v.push(S0(0)); v.push_back(S0(n)); same(v, 0, n + 1); }
API void t_C08_push() { plain<S>(); }
API void t_C09_push() { plain<D>(); }
API void t_C08_fronts() { fronts<S>(); }
API void t_C08_both() { both<S>(); }
API void t_C08_mixed() { backthenfront<S>(); }
API void t_C08_pop() { popfront<S>(); }
API void t_C08_pops() { popfronts<S>(); }
API void t_C08_clear() { clears<S>(); }
API void t_C08_fill() { fill<S>(); }
API void t_C08_write() { writes<S>(); }
API void t_C08_popback() { S v; long n = mk(v, 0); an_assume(n > 0); v._pop_back(); same(v, 0, n - 1); v.push_back(S0(n - 1)); same(v, 0, n); }
API void t_C08_popback2() { S v; long n = mk(v, 0); an_assume(n > 1); v._pop_back(); v._pop_back(); v.push_front(S0(0)); v.pop_front(); same(v, 0, n - 2); v.push_back(S0(n - 2)); same(v, 0, n - 1); }
API void t_C09_fronts() { fronts<D>(); }
API void t_C09_both() { both<D>(); }
API void t_C09_mixed() { backthenfront<D>(); }
API void t_C09_pop() { popfront<D>(); }
API void t_C09_pops() { popfronts<D>(); }
API void t_C09_clear() { clears<D>(); }
API void t_C09_fill() { fill<D>(); }
API void t_C09_write() { writes<D>(); }
API void t_C09_popback() { D v; long n = mk(v, 0); an_assume(n > 0); v.pop_back(); same(v, 0, n - 1); v.push_back(S0(n - 1)); same(v, 0, n); }
API void t_C09_popbacks() { D v; long n = mk(v, 0), k = an_int(0, LIM); an_assume(k <= n); for (long i = 0; i < k; i++) { an_check(an_is(v.back(), 0, n - 1 - i), "back while draining"); v.pop_back(); } same(v, 0, n - k); if (k == n) use(v); }
static void back(D &v, int s, long n) { auto it = v.end(); long i = n; while (i > 0) { --it; i--; an_check(an_is(*it, s, i), "stepping backwards"); } an_check(it == v.begin(), "stepping backwards ends at begin"); 
    auto jt = v.end(); i = n; while (jt != v.begin()) { auto old = jt--; if (i < n) an_check(an_is(*old, s, i), "post-decrement gives the old position"); else an_check(old == v.end(), "post-decrement gives the old position"); i--; an_check(an_is(*jt, s, i), "stepping backwards (post)"); } an_check(i == 0, "stepping backwards visits all"); }
API void t_C09_back() { D v; long n = mk(v, 0); back(v, 0, n); }
API void t_C09_backf() { D v; long n = mk2(v, 0); back(v, 0, n); }
API void t_C09_backpop() { D v; long n = mk(v, 0); an_assume(n > 1); v.pop_back(); back(v, 0, n - 1); v.pop_front(); v.push_front(S0(0)); back(v, 0, n - 1); }
// the iterator protocol at an arbitrary position
template <class L, class C> static void iters() { L v; long n = mk(v, 0), p = an_int(0, LIM); an_assume(p < n); C &w = v; long i = 0; auto it = w.begin(); for (; i < p; ++it) i++;
    an_check(it == it && !(it != it), "an iterator equals itself"); an_check(it.operator->() == &*it, "-> and * agree"); an_check(an_is(*it, 0, p), "position"); auto q = it; auto old = it++; an_check(old == q && old != it && an_is(*old, 0, p), "post-increment gives the old position");
    auto &r = ++q; an_check(&r == &q && q == it && !(q != it), "pre-increment gives the new position"); if (p + 1 < n) an_check(an_is(*q, 0, p + 1) && q != w.end(), "next position"); else an_check(q == w.end(), "the end follows the last position");
    q = old; an_check(q == old && an_is(*q, 0, p), "assigned iterator"); }
template <class C> static void itersb() { D v; long n = mk(v, 0), p = an_int(0, LIM); an_assume(p < n); C &w = v; long i = n; auto it = w.end(); for (; i > p + 1; --it) i--; auto q = it; auto &r = --it; an_check(&r == &it && it != q && an_is(*it, 0, p), "pre-decrement gives the new position"); auto old = q--; an_check(q == it, "post-decrement moves back");
    if (p + 1 < n) an_check(an_is(*old, 0, p + 1), "post-decrement gives the old position"); else an_check(old == w.end(), "post-decrement gives the old position"); if (p == 0) an_check(q == w.begin(), "the first position"); ++q; an_check(q == old, "forward again"); }
API void t_C08_iter() { iters<S, S>(); }
API void t_C08_iterc() { iters<S, const S>(); }
API void t_C09_iter() { iters<D, D>(); }
API void t_C09_iterc() { iters<D, const D>(); }
API void t_C09_iterb() { itersb<D>(); }
API void t_C09_iterbc() { itersb<const D>(); }
// copies and moves
template <class L> static void copies() { L v; long n = mk(v, 0); L w(v); same(w, 0, n); same(v, 0, n); w.push_back(S0(n)); same(v, 0, n); same(w, 0, n + 1); v.clear(); same(w, 0, n + 1); }
template <class L> static void assigns() { L v, w; long n = mk(v, 0); mk(w, 1); w = v; same(w, 0, n); same(v, 0, n); v.push_front(S0(0)); w.push_back(S0(n)); same(w, 0, n + 1); const L &r = w; w = r; same(w, 0, n + 1); }
template <class L> static void moves() { L v; long n = mk(v, 0); L w(dstruct::move(v)); same(w, 0, n); use(v); w.push_back(S0(n)); same(w, 0, n + 1); w.push_front(an_seq(1, 0)); w.pop(); same(w, 0, n + 1); }
template <class L> static void moveassigns() { L v, w; long n = mk(v, 0); mk(w, 1); w = dstruct::move(v); same(w, 0, n); use(v); L &r = w; w = dstruct::move(r); w.push_back(S0(n)); same(w, 0, n + 1); }
API void t_C04_slist() { copies<S>(); }
API void t_C04_slista() { assigns<S>(); }
API void t_C04_dlist() { copies<D>(); }
API void t_C04_dlista() { assigns<D>(); }
API void t_C04_dlistc() { D v, w; long n = mk(v, 0); mk(w, 1); w = v; back(w, 0, n); back(v, 0, n); }
API void t_C04_dlistb() { D v; long n = mk(v, 0); D w(v); back(w, 0, n); }
API void t_C05_slist() { moves<S>(); }
API void t_C05_slista() { moveassigns<S>(); }
API void t_C05_dlist() { moves<D>(); }
API void t_C05_dlista() { moveassigns<D>(); }
API void t_C05_dlistc() { D v, w; long n = mk(v, 0); mk(w, 1); w = dstruct::move(v); back(w, 0, n); back(v, 0, 0); }
// emptied from the back
static void drainb(D &w, long n) { for (long i = n; i > 0; i--) { an_check(an_is(w.back(), 0, i - 1), "back while draining"); w.pop_back(); } use(w); }
API void t_C04_dlistd() { D v; long n = mk(v, 0); D w(v); drainb(w, n); same(v, 0, n); drainb(v, n); }
API void t_C04_dliste() { D v, w; long n = mk(v, 0); mk(w, 1); w = v; drainb(w, n); same(v, 0, n); }
API void t_C05_dlistd() { D v; long n = mk(v, 0); D w(dstruct::move(v)); drainb(w, n); same(v, 0, 0); use(v); }
API void t_C05_dliste() { D v, w; long n = mk(v, 0); mk(w, 1); w = dstruct::move(v); drainb(w, n); same(v, 0, 0); use(v); }
API void t_C05_dlistb() { D v; long n = mk(v, 0); D w(dstruct::move(v)); back(w, 0, n); }
template <class L> static void alias() { L v; long n = mk(v, 0); an_assume(n > 0); auto it = v.begin(); v.push_back(*it); v.push_front(*it); an_check(an_is(v.front(), 0, 0) && an_is(v.back(), 0, 0) && v.size() == n + 2, "pushing an element of the list itself"); v.pop_front(); an_check(an_is(v.front(), 0, 0), "own element after push"); }
API void t_C06_slist() { alias<S>(); }
API void t_C06_dlist() { alias<D>(); }
API void t_C31_slpop() { S v; mk(v, 0); an_assume(v.size() == 0); an_stop_on(); v.pop(); an_unreachable("pop of an empty list does not stop"); }
API void t_C31_slback() { S v; mk(v, 0); an_assume(v.size() == 0); an_stop_on(); v.back(); an_unreachable("back of an empty list does not stop"); }
API void t_C31_slpopb() { S v; v.push_back(S0(0)); v.pop_front(); an_stop_on(); v._pop_back(); an_unreachable("_pop_back of an empty list does not stop"); }
API void t_C31_dlpop() { D v; mk(v, 0); an_assume(v.size() == 0); an_stop_on(); v.pop(); an_unreachable("pop of an empty list does not stop"); }
API void t_C31_dlback() { D v; mk(v, 0); an_assume(v.size() == 0); an_stop_on(); v.back(); an_unreachable("back of an empty list does not stop"); }
API void t_C31_dlpopb() { D v; v.push_back(S0(0)); v.pop_front(); an_stop_on(); v.pop_back(); an_unreachable("pop_back of an empty list does not stop"); }
// algorithms over lists
template <class L> static void algo() { L v; long n = mk(v, 0), p = an_int(0, LIM); long i = 0; struct C { long *i; void operator()(const Elem &e) const { an_check(an_is(e, 0, *i), "for_each order"); (*i)++; } } c{&i}; dstruct::algorithm::for_each(v.begin(), v.end(), c); an_check(i == n, "for_each count"); }
template <class L> static void fnd() { L v; long p = an_int(0, LIM); an_match(0, 1, p); long n = mk(v, 0); auto it = dstruct::algorithm::find(v.begin(), v.end(), an_seq(1, 0)); if (p < n) an_check(it != v.end() && an_is(*it, 0, p), "find in a list"); else an_check(it == v.end(), "find of an absent element"); }
API void t_C32_slist() { algo<S>(); }
API void t_C32_dlist() { algo<D>(); }
API void t_C32_slfind() { fnd<S>(); }
API void t_C32_dlfind() { fnd<D>(); }
// the same operations on one object after another: nothing of the first stays behind in the second
template <class L> static void others() {
    L a, b; a.push_back(S0(0)); a.push_back(S0(1)); b.push_back(S0(2)); b.push_back(S0(3)); b.push_back(S0(4)); { L c(dstruct::move(a)), d(dstruct::move(b)); use(a); use(b); an_check(c.size() == 2 && an_is(c.front(), 0, 0) && an_is(c.back(), 0, 1) && d.size() == 3 && an_is(d.front(), 0, 2) && an_is(d.back(), 0, 4), "two moves"); c.pop_front(); d.pop_front(); d.push_back(S0(5)); an_check(an_is(c.front(), 0, 1) && an_is(d.front(), 0, 3) && an_is(d.back(), 0, 5), "popped and pushed"); a = c; b = d; }
    an_check(a.size() == 1 && an_is(a.front(), 0, 1) && b.size() == 3 && an_is(b.front(), 0, 3) && an_is(b.back(), 0, 5), "two copies");
    auto i = b.begin(); auto o = i++; an_check(an_is(*o, 0, 3) && an_is(*i, 0, 4), "post-increment"); o = i++; an_check(an_is(*o, 0, 4) && an_is(*i, 0, 5), "post-increment again"); o = i++; an_check(an_is(*o, 0, 5) && i == b.end(), "and again"); i = a.begin(); o = i++; an_check(an_is(*o, 0, 1) && i == a.end(), "on another list");
}
API void t_C05_slistother() { others<S>(); }
API void t_C05_dlistother() { others<D>(); }
API void t_C09_steps() { D v, w; for (int i = 0; i < 3; i++) { v.push_back(S0(i)); w.push_back(an_seq(1, i)); } auto i = v.end(); i--; auto o = i--; an_check(an_is(*o, 0, 2) && an_is(*i, 0, 1), "post-decrement"); o = i--; an_check(an_is(*o, 0, 1) && i == v.begin(), "again"); o = i++; an_check(o == v.begin() && an_is(*i, 0, 1), "post-increment"); i = w.end(); --i; o = i--; an_check(an_is(*o, 1, 2) && an_is(*i, 1, 1), "on another list"); o = i++; an_check(an_is(*o, 1, 1) && an_is(*i, 1, 2), "post-increment on another list"); }
API void t_C08_steps() { S v; for (int i = 0; i < 3; i++) v.push_back(S0(i)); const S &w = v; auto i = w.begin(); auto o = i++; an_check(an_is(*o, 0, 0) && an_is(*i, 0, 1), "post-increment"); o = i++; an_check(an_is(*o, 0, 1) && an_is(*i, 0, 2), "again"); o = i++; an_check(an_is(*o, 0, 2) && i == w.end(), "and again"); }
