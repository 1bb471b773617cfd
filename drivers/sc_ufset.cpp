// scenarios for the disjoint sets: C21 (and C04, C05)
#include "an.hpp"
using U = dstruct::DisjointSet<TA>;
static int some(int n) { int k = 0; while (k < n - 1 && an_oracle()) k++; return k; }      // any of 0..n-1
// the partition that should be there: one label per index
struct P {
    int lab[8], n; P(int k) : n(k) { for (int i = 0; i < n; i++) lab[i] = i; }
    void join(int a, int b) { int x = lab[a], y = lab[b]; for (int i = 0; i < n; i++) if (lab[i] == y) lab[i] = x; }
    long classes() const { long c = 0; for (int i = 0; i < n; i++) { bool first = true; for (int j = 0; j < i; j++) if (lab[j] == lab[i]) first = false; if (first) c++; } return c; }
    void is(const U &u) const {
        an_check(u.size() == n && u.empty() == (n == 0), "size"); an_check(u.count() == classes(), "count is the number of classes");
        U c(u); an_check(c.count() == classes(), "count of a copy"); 
        for (int i = 0; i < n; i++) { U d(u); for (int j = 0; j < n; j++) an_check(d.connected(i, j) == (lab[i] == lab[j]), "connected exactly when linked"); }
        int r[8]; for (int i = 0; i < n; i++) { r[i] = c.find(i); an_check(r[i] >= 0 && r[i] < n && lab[r[i]] == lab[i], "the representative is in the class"); }
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) an_check((r[i] == r[j]) == (lab[i] == lab[j]), "same representative exactly when linked");
        an_check(c.count() == classes(), "find keeps the partition"); 
        for (int i = 0; i < n; i++) { int k = c.find(i); an_check(lab[k] == lab[i], "find keeps the partition"); }
    }
};
// every history of up to K connects and finds over n indices
static void history(int n, int K) {
    an_unroll(40); U u(n); P p(n); p.is(u);
    for (int k = 0; k < K; k++) { int a = some(n), b = some(n); if (a == b) { u.find(a); } else { u.connect(a, b); p.join(a, b); } }
    p.is(u);
}
API void t_C21_hist2() { history(2, 3); }
API void t_C21_hist3() { history(3, an_pick(3, 4)); }
API void t_C21_hist4() { history(4, an_pick(2, 3)); }
// every way to link four and eight indices through pairs of classes: the deepest structures
static void link(U &u, P &p, int a, int b, bool sw) { if (sw && an_oracle()) { int t = a; a = b; b = t; } u.connect(a, b); p.join(a, b); }
API void t_C21_pairs4() { an_unroll(40); U u(4); P p(4); link(u, p, 0, 1, true); link(u, p, 3, 2, true); link(u, p, some(2), 2 + some(2), true); p.is(u); u.find(some(4)); p.is(u); u.connect(0, 3); p.is(u); }
API void t_C21_cross4() { an_unroll(40); U u(4); P p(4); link(u, p, 0, 3, true); link(u, p, 1, 2, true); p.is(u); link(u, p, some(2), 2 + some(2), true); p.is(u); }
API void t_C21_pairs8() { an_unroll(40); U u(8); P p(8); for (int i = 0; i < 8; i += 2) link(u, p, i, i + 1, false); link(u, p, 1, 2 + some(2), false); link(u, p, 7 - some(2), 5, false); if (an_oracle()) u.connect(some(4), 4 + 2 * some(2) + 1); else u.connect(5, some(4)); p.join(0, 4); p.is(u); }
API void t_C21_chain() { an_unroll(40); U u(6); P p(6); bool up = an_oracle(); for (int i = 0; i < 5; i++) { int a = up ? i : 5 - i, b = up ? i + 1 : 4 - i; link(u, p, a, b, i < 2); } p.is(u); }
API void t_C21_star() { an_unroll(40); U u(6); P p(6); int c = some(6); for (int i = 0; i < 6; i++) if (i != c) { link(u, p, c, i, i < 3); if (i == 2) p.is(u); } p.is(u); }
// any number of indices, and arbitrary pairs
static long idx(long n) { long a = an_int(0, LIM); an_assume(a < n); return a; }
API void t_C21_any0() { long n = an_int(1, LIM); U u(n); an_check(u.size() == n, "size"); int a = idx(n), b = idx(n); an_check(u.find(a) == a, "alone"); an_check(u.connected(a, b) == (a == b), "nothing is linked at first"); }
API void t_C21_any1() { long n = an_int(1, LIM); U u(n); int a = idx(n), b = idx(n), x = idx(n), y = idx(n); u.connect(a, b); an_check(u.connected(x, y) == (x == y || ((x == a || x == b) && (y == a || y == b))), "one link"); }
static bool in(int x, int a, int b) { return x == a || x == b; }
API void t_C21_any2() { long n = an_int(1, LIM); U u(n); int a = idx(n), b = idx(n), c = idx(n), d = idx(n), x = idx(n), y = idx(n); u.connect(a, b); u.connect(c, d);
    bool m = in(a, c, d) || in(b, c, d);
    bool want = x == y || (in(x, a, b) && in(y, a, b)) || (in(x, c, d) && in(y, c, d)) || (m && (in(x, a, b) || in(x, c, d)) && (in(y, a, b) || in(y, c, d)));
    an_check(u.connected(x, y) == want, "two links"); }
API void t_C21_count() { long n = an_int(1, LIM); U u(n); an_check(u.count() == n, "classes at first"); int a = idx(n), b = idx(n); u.connect(a, b); an_check(u.count() == n - (a == b ? 0 : 1), "classes after a link"); u.connect(b, a); an_check(u.count() == n - (a == b ? 0 : 1), "linking twice"); u.find(a); an_check(u.count() == n - (a == b ? 0 : 1), "classes after find"); }
API void t_C04_ufset() { an_unroll(40); U u(4); P p(4); link(u, p, 0, 1, true); link(u, p, 2, 3, true); U v(u), w(3); w = u; P q = p, r = p; link(v, q, some(2), 2 + some(2), true); p.is(u); q.is(v); r.is(w); u.connect(1, 2); p.join(1, 2); p.is(u); q.is(v); r.is(w); }
API void t_C05_ufset() { an_unroll(40); U u(4); P p(4); link(u, p, 0, 1, true); link(u, p, 2, 3, true); U v(dstruct::move(u)); p.is(v); an_check(u.size() == 0 && u.empty(), "moved-from"); U w(2); w = dstruct::move(v); p.is(w); an_check(v.empty() && v.count() == 0, "moved-from"); }
// passing on what find returns
API void t_C06_ufset() { an_unroll(40); U u(4); P p(4); link(u, p, 0, 1, true); link(u, p, 3, 1, false); u.connect(u.find(some(2)), u.find(2)); p.join(0, 2); p.is(u); u.find(u.find(3)); p.is(u); }
API void t_C06_ufset2() { an_unroll(40); U u(4); P p(4); link(u, p, 0, 1, true); link(u, p, 3, 2, true); u.union_set(u.find(some(2)), u.find(2 + some(2))); p.join(0, 2); p.is(u); }
