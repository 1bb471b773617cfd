// scenarios for the double-ended queue and Queue: C11 C12 C34 (and C04 C05 C20)
// every history, of any length, in which the container never holds more than a given number of elements: the
// reachable representation states (block table, end positions) are enumerated to a fixpoint, elements stay symbolic
#include "an.hpp"
template <int A> using D = dstruct::DoubleEndedQueue<Elem, A, TA>;
// d holds the elements b..e-1 of sequence 0
template <class Q> static void ends(const Q &d, long b, long e) { an_check(d.size() == e - b, "size"); an_check(d.empty() == (b == e), "empty"); if (b < e) { an_check(an_is(d.front(), 0, b), "front"); an_check(an_is(d.back(), 0, e - 1), "back"); } }
template <class Q> static void walk(const Q &d, long b, long e) { long i = b; for (auto it = d.begin(); it != d.end(); ++it) { an_check(i < e, "iteration yields too many elements"); an_check(an_is(*it, 0, i), "iteration order"); i++; } an_check(i == e, "iteration yields too few elements"); }
template <class Q> static void index(Q &d, long b, long e) { for (long i = 0; i < e - b; i++) { an_check(an_is(d[(int) i], 0, b + i), "element at index"); an_check(an_is(d[(int) (i - (e - b))], 0, b + i), "element at negative index"); } }
static int op() { int k = 0; while (k < 5 && an_oracle()) k++; return k; }
// one arbitrary operation (returns false to end the history)
template <class Q> static bool step(Q &d, long &b, long &e, long max) {
    switch (op()) {
    case 0: an_assume(e - b < max); d.push_back(S0(e)); e++; break;
    case 1: an_assume(e - b < max); d.push_front(S0(b - 1)); b--; break;
    case 2: an_assume(b < e); d.pop_front(); b++; break;
    case 3: an_assume(b < e); d.pop_back(); e--; break;
    case 4: d.clear(); b = e; break;
    default: return false;
    }
    return true;
}
const long START = 100000;
template <int A, class F> static void reach(long max, F f) { an_unroll(1000000); D<A> d; long b = START, e = START; do { an_seen(&d, b, e - b); f(d, b, e); } while (step(d, b, e, max)); }
template <class Q> static void back(const Q &d, long b, long e) { long i = e; for (auto it = d.end(); it != d.begin(); ) { if (i & 1) --it; else { auto o = it--; an_check(o != it, "post-decrement gives the old position"); if (i < e) an_check(an_is(*o, 0, i), "post-decrement gives the old position"); else an_check(o == d.end(), "post-decrement gives the old position"); } i--; an_check(i >= b, "stepping backwards yields too many elements"); an_check(an_is(*it, 0, i), "stepping backwards"); } an_check(i == b, "stepping backwards yields too few elements");
    i = b; for (auto it = d.begin(); it != d.end(); ) { auto o = it++; an_check(an_is(*o, 0, i), "post-increment gives the old position"); i++; } if (b < e) { an_check(an_is(*(d.begin() + (int) (e - b - 1)), 0, e - 1), "advancing by n"); an_check(an_is(*(d.end() - (int) (e - b)), 0, b), "going back by n"); }
    if (b < e) { i = (b + e) / 2; auto x = d.begin() + (int) (i - b), y = d.end() - (int) (e - i); an_check(x == y && an_is(*x, 0, i), "advancing and going back meet"); an_check(d.end() + (int) (i - e) == x && d.begin() - (int) (b - i) == x, "advancing by a negative number goes back"); } }
// push() is push_back, pop() is pop_front
template <int A> static void plain(long max) { reach<A>(max, [](D<A> &d, long b, long e) { D<A> c(d); c.push(S0(e)); ends<D<A>>(c, b, e + 1); c.pop(); ends<D<A>>(c, b + 1, e + 1); walk<D<A>>(c, b + 1, e + 1); }); }
template <int A> static void seq(long max) { reach<A>(max, [](D<A> &d, long b, long e) { ends<D<A>>(d, b, e); walk<D<A>>(d, b, e); }); }
template <int A> static void idx(long max) { reach<A>(max, [](D<A> &d, long b, long e) { index(d, b, e); back(d, b, e); }); }
API void t_C11_seq1() { seq<1>(an_pick(11, 18)); }
API void t_C11_seq2() { seq<2>(an_pick(14, 26)); }
API void t_C11_seq3() { seq<3>(an_pick(14, 28)); }
API void t_C11_seq4() { seq<4>(an_pick(10, 34)); }
API void t_C11_seq32() { seq<32>(an_pick(2, 4)); }
API void t_C11_plain2() { plain<2>(an_pick(5, 8)); }
API void t_C11_idx1() { idx<1>(an_pick(7, 10)); }
API void t_C11_idx2() { idx<2>(an_pick(9, 13)); }
API void t_C11_idx3() { idx<3>(an_pick(9, 14)); }
// ---- Queue: first in, first out
template <class Q> static void fifo(long max) {
    an_unroll(1000000); Q q; const Q &r = q; long b = START, e = START;
    do { an_seen(&q, b, e - b); ends(r, b, e); walk(r, b, e); for (long i = b; i < e; i++) an_check(an_is(q[(int) (i - b)], 0, i), "element at index"); if (an_oracle()) { an_assume(e - b < max); q.push(S0(e)); e++; } else if (an_oracle()) { an_assume(b < e); q.pop(); b++; } else return; } while (true);
}
API void t_C12_fifo1() { fifo<dstruct::adapter::Queue<Elem, D<1>>>(an_pick(9, 18)); }
API void t_C12_fifo2() { fifo<dstruct::adapter::Queue<Elem, D<2>>>(an_pick(12, 26)); }
API void t_C12_fifo3() { fifo<dstruct::adapter::Queue<Elem, D<3>>>(an_pick(12, 26)); }
API void t_C12_fifo32() { fifo<dstruct::Queue<Elem, TA>>(an_pick(2, 5)); }
// ---- copies: from every reachable state
template <int A> static void copies(long max) {
    reach<A>(max, [](D<A> &d, long b, long e) {
        D<A> c(d); ends(c, b, e); walk(c, b, e); c.push_back(S0(e)); c.push_front(S0(b - 1)); ends(d, b, e); walk(d, b, e); ends(c, b - 1, e + 1); walk(c, b - 1, e + 1);
        D<A> g; for (long i = 0; i < 3; i++) g.push_front(S0(i)); g = d; ends(g, b, e); walk(g, b, e); ends(d, b, e); walk(d, b, e); if (b < e) g.pop_front(); g.push_back(S0(e)); walk(d, b, e); walk(g, b < e ? b + 1 : b, e + 1);
        D<A> &r = d; d = r; ends(d, b, e); walk(d, b, e);
    });
}
API void t_C04_deque1() { copies<1>(an_pick(3, 6)); }
API void t_C04_deque2() { copies<2>(an_pick(5, 8)); }
API void t_C04_deque3() { copies<3>(an_pick(4, 8)); }
template <int A> static void moves(long max) {
    reach<A>(max, [](D<A> &d, long b, long e) {
        D<A> c(dstruct::move(d)); ends(c, b, e); walk(c, b, e); ends(d, 0, 0); walk(d, 0, 0); d.push_front(S0(7)); d.push_back(S0(8)); ends(d, 7, 9); walk(d, 7, 9); walk(c, b, e);
        D<A> g; if (an_oracle()) { g.push_back(S0(3)); g.push_front(S0(2)); } g = dstruct::move(c); ends(g, b, e); walk(g, b, e); ends(c, 0, 0); walk(c, 0, 0); c.push_back(S0(4)); ends(c, 4, 5);
        D<A> &r = g; g = dstruct::move(r); ends(g, b, e); walk(g, b, e);
        D<A> z; g = dstruct::move(g); d = dstruct::move(g); ends(d, b, e); walk(d, b, e); z = dstruct::move(g); ends(z, 0, 0); walk(z, 0, 0);
    });
}
API void t_C05_deque1() { moves<1>(an_pick(3, 6)); }
API void t_C05_deque2() { moves<2>(an_pick(5, 8)); }
API void t_C05_deque3() { moves<3>(an_pick(4, 8)); }
API void t_C06_deque() { reach<2>(an_pick(4, 8), [](D<2> &d, long b, long e) { if (b == e) return; D<2> c(d); c.push_back(c[0]); c.push_front(c[(int) (e - b)]); an_check(an_is(c.front(), 0, b) && an_is(c.back(), 0, b), "pushing an element of the container itself"); for (int k = 0; k < 5; k++) { c.push_back(c[1]); c.push_front(c[-1]); } an_check(an_is(c.front(), 0, b) && an_is(c.back(), 0, b), "pushing an element of the container itself while growing"); }); }
API void t_C06_queue() { dstruct::adapter::Queue<Elem, D<2>> q; an_unroll(60); q.push(S0(0)); const int at = an_oracle() ? 0 : -1; for (int k = 0; k < 12; k++) { q.push(q[at]); an_check(an_is(q.back(), 0, 0) && an_is(q.front(), 0, 0) && q.size() == k + 2, "pushing an element of the Queue itself"); } }
API void t_C11_negative() { an_unroll(100); D<2> d; for (long i = 0; i < 4; i++) { d.push_back(S0(2 + i)); if (i < 2) d.push_front(S0(1 - i)); } an_unroll(0); const D<2> &c = d; int n = an_oracle() ? -1 : an_oracle() ? -2 : -5; an_check(an_is(*(c.end() + n), 0, 6 + n), "advancing by a negative number goes back"); an_check(an_is(*(c.begin() - n), 0, -n), "going back by a negative number advances"); }
template <class Q> static void hold(Q &q, long b, long e) { const Q &r = q; ends(r, b, e); walk(r, b, e); }
// copies and moves of a Queue, in every state reached by pushing and popping
template <class Q, class F> static void queues(long max, F f) { an_unroll(1000000); Q q; long b = START, e = START; do { an_seen(&q, b, e - b); f(q, b, e); if (!an_oracle()) return; if (an_oracle()) { an_assume(e - b < max); q.push(S0(e)); e++; } else { an_assume(b < e); q.pop(); b++; } } while (true); }
using QQ = dstruct::adapter::Queue<Elem, D<2>>;
API void t_C04_queue() { queues<QQ>(an_pick(4, 8), [](QQ &q, long b, long e) { QQ c(q); hold(c, b, e); c.push(S0(e)); hold(q, b, e); hold(c, b, e + 1); QQ d; d.push(S0(3)); d = q; hold(d, b, e); d.push(S0(e)); d.pop(); hold(d, b + 1, e + 1); hold(q, b, e); const QQ &r = d; d = r; hold(d, b + 1, e + 1); }); }
API void t_C05_queue() { queues<QQ>(an_pick(4, 8), [](QQ &q, long b, long e) { QQ c(dstruct::move(q)); hold(c, b, e); hold(q, 0, 0); q.push(S0(7)); q.push(S0(8)); q.pop(); hold(q, 8, 9); q = dstruct::move(c); hold(q, b, e); hold(c, 0, 0); c.push(S0(7)); hold(c, 7, 8); }); }
