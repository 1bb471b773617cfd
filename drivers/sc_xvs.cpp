// scenarios for the stacks that know their extreme: C13
#include "an.hpp"
using St = dstruct::adapter::Stack<Elem, dstruct::Vector<Elem, TA>>;
template <class Cmp> struct X : dstruct::stack::XValueStack<Elem, Cmp, St> {
    // an arbitrary stack below the next operations: any n saved entries, any extreme so far
    X() { }
    X(long n) { for (long i = 0; i < n; i++) this->mStack_d.push(S0(i)); this->mXValue_d = an_seq(1, 0); }
    bool holds(long n) const { return this->mStack_d.size() == n && (n == 0 || an_is(this->mStack_d.top(), 0, n - 1)); }
};
static bool same(const Elem &a, const Elem &b) { return !(a < b) && !(b < a); }
template <class C> static bool before(const Elem &a, const Elem &b) { return C()(a, b) && !same(a, b); }
static void setup() { an_unordered(0); an_unordered(1); an_unordered(2); an_unordered(3); }
// x is the extreme of y (the extreme so far) and v
template <class C> static void extreme(const Elem &x, const Elem &y, const Elem &v) {
    an_check(!before<C>(y, x) && !before<C>(v, x), "the extreme comes first"); an_check(same(x, y) || same(x, v), "the extreme is one of the elements");
}
// pushing on an arbitrary stack, then popping: the extreme is right after the push and the stack is as before after the pop
template <class C> static void step() {
    setup(); long n = an_int(1, LIM); X<C> s(n); const X<C> &r = s; const Elem &v = an_seq(2, 0);
    s.push(v); an_check(!r.empty(), "empty after a push"); an_check(an_is(r.top(), 2, 0), "top is the element pushed");
    extreme<C>(r.getXValue(), an_seq(1, 0), v);
    s.pop(); an_check(!r.empty() && same(r.getXValue(), an_seq(1, 0)), "pop restores the extreme"); an_check(s.holds(n), "pop removes exactly what the push added");
}
template <class C> static void first() {
    setup(); X<C> s(0); const X<C> &r = s; an_check(r.empty(), "empty");
    s.push(an_seq(2, 0)); an_check(!r.empty() && an_is(r.top(), 2, 0) && same(r.getXValue(), an_seq(2, 0)), "a single element is top and extreme");
    s.pop(); an_check(r.empty() && s.holds(0), "empty again");
}
// every history of up to K operations from an empty stack, with arbitrary elements
template <class C, int K> static void history() {
    an_unroll(40); an_unordered(2); X<C> s; const X<C> &r = s; long m[K + 1], n = 0;
    for (int k = 0, e = an_pick(5, K); k < e; k++) {
        if (n == 0 || an_oracle()) { m[n++] = k; s.push(an_seq(2, k)); } else { s.pop(); n--; }
        an_check(r.empty() == (n == 0), "empty");
        if (n == 0) continue;
        an_check(an_is(r.top(), 2, m[n - 1]), "top is the last element pushed and not popped");
        Elem x = r.getXValue(); bool found = false;
        for (long i = 0; i < n && !found; i++) found = same(an_seq(2, m[i]), x);
        for (long i = 0; i < n; i++) an_check(!before<C>(an_seq(2, m[i]), x), "no element precedes the extreme");
        an_check(found, "the extreme is an element of the stack");
    }
}
using L = dstruct::less<Elem>; using G = dstruct::greater<Elem>;
API void t_C13_min() { step<L>(); }
API void t_C13_max() { step<G>(); }
API void t_C13_minfirst() { first<L>(); }
API void t_C13_maxfirst() { first<G>(); }
API void t_C13_minhist() { history<L, 6>(); }
API void t_C13_maxhist() { history<G, 6>(); }
API void t_C13_clear() { setup(); X<L> s; s.push(S0(0)); s.push(S0(1)); s.clear(); an_check(s.empty(), "empty after clear"); s.push(S0(2)); an_check(an_is(s.top(), 0, 2) && same(s.getXValue(), S0(2)), "the extreme after clear"); s.pop(); an_check(s.empty(), "empty"); }
template <class C> static void two() {
    setup(); an_unroll(40); X<C> s(0); s.push(an_seq(2, 0)); s.push(an_seq(2, 1)); X<C> t(s); t.push(an_seq(2, 2)); s.pop(); an_check(same(s.getXValue(), an_seq(2, 0)) && an_is(s.top(), 2, 0), "the original after its copy changed");
    t.pop(); an_check(an_is(t.top(), 2, 1), "the copy keeps its elements"); extreme<C>(t.getXValue(), an_seq(2, 0), an_seq(2, 1)); t.pop(); an_check(an_is(t.top(), 2, 0) && same(t.getXValue(), an_seq(2, 0)), "the copy keeps its extreme"); t.pop(); an_check(t.empty(), "the copy is empty");
}
API void t_C04_minstack() { two<L>(); }
API void t_C04_maxstack() { two<G>(); }
API void t_C05_minstack() { setup(); X<L> s(0); s.push(S0(0)); s.push(S0(1)); X<L> t(dstruct::move(s)); an_check(an_is(t.top(), 0, 1), "moved stack"); extreme<L>(t.getXValue(), S0(0), S0(1)); t.pop(); an_check(an_is(t.top(), 0, 0) && same(t.getXValue(), S0(0)), "moved stack keeps its extreme");
    an_check(s.empty(), "moved-from stack is empty"); s.push(S0(3)); an_check(an_is(s.top(), 0, 3) && same(s.getXValue(), S0(3)), "moved-from stack is usable"); }
// every operation uses the comparison the stack was given
using XT = dstruct::stack::XValueStack<Elem, Tag, St>;
static void rest(XT &x) { x.push(S0(2)); x.pop(); extreme<L>(x.getXValue(), S0(0), S0(1)); an_check(an_is(x.top(), 0, 1), "top"); x.pop(); an_check(same(x.getXValue(), S0(0)) && an_is(x.top(), 0, 0), "top and extreme"); }
API void t_C13_cmp() { setup(); an_unroll(40); XT x{Tag(7)}; x.push(S0(0)); x.push(S0(1)); rest(x); x.clear(); x.push(S0(0)); x.push(S0(1)); rest(x); }
API void t_C04_xvscmp() { setup(); an_unroll(40); XT x{Tag(7)}; x.push(S0(0)); x.push(S0(1)); XT y(x); rest(y); rest(x); }
API void t_C04_xvscmpa() { setup(); an_unroll(40); XT x{Tag(7)}; x.push(S0(0)); x.push(S0(1)); XT y; y = x; rest(y); rest(x); }
API void t_C05_xvscmp() { setup(); an_unroll(40); XT x{Tag(7)}; x.push(S0(0)); x.push(S0(1)); XT y(dstruct::move(x)); rest(y); }
API void t_C05_xvscmpa() { setup(); an_unroll(40); XT x{Tag(7)}; x.push(S0(0)); x.push(S0(1)); XT y; y = dstruct::move(x); rest(y); }
API void t_C06_xvs() { setup(); an_unroll(40); X<L> x; x.push(S0(0)); for (int k = 0; k < 4; k++) { auto it = x.begin(); ++it; x.push(*it); an_check(an_is(x.top(), 0, 0) && same(x.getXValue(), S0(0)), "pushing an element of the stack itself"); } for (int k = 0; k < 5; k++) { an_check(an_is(x.top(), 0, 0) && same(x.getXValue(), S0(0)), "popping equal elements"); x.pop(); } an_check(x.empty(), "empty"); }
// assignment to a stack that already holds elements (any relation between the two contents), from an empty one, to itself
static int upto2() { return an_oracle() ? an_oracle() ? 2 : 1 : 0; }
template <class C, class M> static void onto(M m) {
    setup(); an_unroll(40); X<C> s, t; const int a = upto2(), b = upto2();
    for (int i = 0; i < a; i++) s.push(S0(i));
    for (int i = 0; i < b; i++) t.push(an_seq(1, i));
    m(t, s); an_check(t.empty() == (a == 0), "assigned stack is empty exactly when its source was");
    if (a) { an_check(an_is(t.top(), 0, a - 1), "top of the assigned stack"); if (a == 2) extreme<C>(t.getXValue(), S0(0), S0(1)); else an_check(same(t.getXValue(), S0(0)), "extreme of the assigned stack"); }
    t.push(an_seq(2, 0)); an_check(an_is(t.top(), 2, 0), "top after a push"); if (a) { if (a == 1) extreme<C>(t.getXValue(), S0(0), an_seq(2, 0)); } else an_check(same(t.getXValue(), an_seq(2, 0)), "extreme after a push"); t.pop();
    if (a == 2) { t.pop(); an_check(same(t.getXValue(), S0(0)) && an_is(t.top(), 0, 0), "what is left"); }
    if (a) t.pop(); an_check(t.empty(), "empty at last");
}
template <class C> static void self(bool mv) { setup(); an_unroll(40); X<C> s; const int a = upto2(); for (int i = 0; i < a; i++) s.push(S0(i)); X<C> &r = s; if (mv) s = dstruct::move(r); else s = r;
    if (a) { an_check(an_is(s.top(), 0, a - 1), "top after self-assignment"); if (a == 2) { extreme<C>(s.getXValue(), S0(0), S0(1)); s.pop(); } an_check(same(s.getXValue(), S0(0)) && an_is(s.top(), 0, 0), "extreme after self-assignment"); s.pop(); } an_check(s.empty(), "empty at last"); }
API void t_C04_minonto() { onto<L>([](X<L> &t, X<L> &s) { t = s; }); }
API void t_C04_maxonto() { onto<G>([](X<G> &t, X<G> &s) { t = s; }); }
API void t_C05_minonto() { onto<L>([](X<L> &t, X<L> &s) { t = dstruct::move(s); an_check(s.empty(), "moved-from stack is empty"); s.push(an_seq(3, 0)); an_check(an_is(s.top(), 3, 0) && same(s.getXValue(), an_seq(3, 0)), "moved-from stack is usable"); s.pop(); an_check(s.empty(), "empty"); }); }
API void t_C04_minself() { self<L>(false); }
API void t_C05_minself() { self<L>(true); }
