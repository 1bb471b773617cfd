// refute: 3 4
// scenarios for the map: C19 (and C04, C05, C06, C31)
#include "an.hpp"
using KV = dstruct::KeyValue<const Elem, Elem>;
using AT = dstruct::AVLTree<KV, dstruct::KVCMPKey<KV, dstruct::less<Elem>>, TA>;
struct DT : AT { using N = AT::Node_; void set(void *r, unsigned long n) { mRootPtr_d = (N *) r; mSize_d = n; } void *root() const { return mRootPtr_d; } };
struct M : dstruct::Map<Elem, Elem, dstruct::less<Elem>, DT> {
    using N = DT::N;
    static void lay() { an_layout(0, sizeof(N), (long) &((N *) 0)->link.parent, (long) &((N *) 0)->link.left, (long) &((N *) 0)->link.right, (long) &((N *) 0)->data.val.key, (long) &((N *) 0)->data.height, 1); an_layout_extra(0, (long) &((N *) 0)->data.val.value, 1); }
    M() { lay(); }
    M(long lo, long hi) { lay(); mDStruct_d.set(an_tree(0, 0, lo, hi), hi - lo); }                  // arbitrary map: keys lo..hi-1 of sequence 0 with the values of sequence 1
    M(long lo, long hi, long lo2, long hi2) { lay(); mDStruct_d.set(an_tree2(0, 0, lo, hi, lo2, hi2), hi - lo + hi2 - lo2); }
    void is(long lo, long hi) { an_check(size() == hi - lo, "size"); an_check(empty() == (hi == lo), "empty"); an_check(an_istree(0, root(), 0, lo, hi), "the map holds exactly the right keys in order"); }
    void is(long lo, long hi, long lo2, long hi2) { an_check(size() == hi - lo + hi2 - lo2, "size"); an_check(an_istree2(0, root(), 0, lo, hi, lo2, hi2), "the map holds exactly the right keys in order"); }
    void vals(long p = -1, int vs = -1, long vi = 0) { an_check(an_isval(0, root(), p, vs, vi), "every key has its value"); }
    void *root() { return mDStruct_d.root(); }
    void done() { an_end(0, root()); }
};
#define V1(i) an_seq(1, i)
#define V2(i) an_seq(2, i)
#define NP(lo) long n = an_int(lo, LIM), p = an_int(0, LIM); an_assume(p < n)
API void t_C19_get() { NP(1); M m(0, n); an_check(an_is(m[S0(p)], 1, p), "operator[] of a present key"); m.is(0, n); m.vals(); m.done(); }
API void t_C19_set() { NP(1); M m(0, n); m[S0(p)] = V2(0); m.is(0, n); m.vals(p, 2, 0); m.done(); }
API void t_C19_add() { NP(1); M m(0, p, p + 1, n); m[S0(p)] = V2(0); m.is(0, n); m.vals(p, 2, 0); m.done(); }
API void t_C19_addref() { NP(1); M m(0, p, p + 1, n); Elem &r = m[S0(p)]; an_check(an_isdefault(r), "operator[] of an absent key gives a default value"); m.is(0, n); m.vals(p, -1); m.done(); }
API void t_C19_const() { NP(1); M m(0, n); const M &c = m; an_check(an_is(c[S0(p)], 1, p), "const operator[] of a present key"); m.is(0, n); m.vals(); m.done(); }
API void t_C31_mapabs() { NP(1); M m(0, p, p + 1, n); const M &c = m; an_stop_on(); c[S0(p)]; an_unreachable("reading an absent key of a const map does not stop"); }
API void t_C31_mapempty() { const M c; an_stop_on(); c[S0(1)]; an_unreachable("reading a key of an empty const map does not stop"); }
API void t_C19_find() { NP(1); M m(0, n); auto it = m.find(S0(p)); an_check(it != m.end(), "find reaches a present key"); an_check(an_is(it->key, 0, p) && an_is((*it).value, 1, p), "find reaches the right key and value"); m.is(0, n); m.vals(); m.done(); }
API void t_C19_findabs() { NP(1); M m(0, p, p + 1, n); an_check(m.find(S0(p)) == m.end(), "find of an absent key"); m.is(0, p, p + 1, n); m.vals(); m.done(); }
API void t_C19_push() { NP(1); M m(0, p, p + 1, n); m.push({S0(p), V2(0)}); m.is(0, n); m.vals(p, 2, 0); m.done(); }
API void t_C19_pop() { NP(1); M m(0, n); m.pop(S0(p)); m.is(0, p, p + 1, n); m.vals(); m.done(); }
API void t_C19_popabs() { NP(1); M m(0, p, p + 1, n); m.pop(S0(p)); m.is(0, p, p + 1, n); m.vals(); m.done(); }
API void t_C19_erase() { NP(1); M m(0, n); auto it = m.find(S0(p)); auto nx = m.erase(it); if (p + 1 < n) an_check(nx != m.end() && an_is(nx->key, 0, p + 1) && an_is(nx->value, 1, p + 1), "erase returns the next key"); else an_check(nx == m.end(), "erase of the last key returns end"); m.is(0, p, p + 1, n); m.vals(); m.done(); }
API void t_C19_eraselo() { an_depth(5, 7); long n = an_int(1, LIM); M m(0, n); auto it = m.begin(); m.erase(it); m.is(1, n); m.vals(); m.done(); }
API void t_C19_addhi() { an_depth(5, 7); long n = an_int(1, LIM); M m(0, n - 1); m[S0(n - 1)] = V2(0); m.is(0, n); m.vals(n - 1, 2, 0); m.done(); }
API void t_C19_clear() { M m(0, an_int(0, LIM)); m.clear(); m.is(0, 0); an_check(m.begin() == m.end(), "empty after clear"); m[S0(1)] = V1(1); m.is(1, 2); m.vals(); }
API void t_C19_iter() { long n = an_int(0, LIM); M m(0, n); long i = 0; for (auto it = m.begin(); it != m.end(); ++it) { an_check(an_is(it->key, 0, i) && an_is(it->value, 1, i), "iteration visits the keys in order"); i++; } an_check(i == n, "iteration visits every key"); m.done(); }
API void t_C19_iterc() { long n = an_int(0, LIM); M m(0, n); const M &c = m; long i = 0; for (auto &kv : c) { an_check(an_is(kv.key, 0, i) && an_is(kv.value, 1, i), "const iteration visits the keys in order"); i++; } an_check(i == n, "const iteration visits every key"); m.done(); }
API void t_C19_small() { M m; m.pop(S0(0)); m.is(0, 0); an_check(m.find(S0(0)) == m.end() && m.begin() == m.end(), "empty map"); m[S0(1)] = V1(1); m[S0(0)] = V2(0); m[S0(0)] = V1(0); m[S0(2)] = V2(0); m[S0(2)] = V1(2); m.is(0, 3); m.vals(); m.pop(S0(0)); m.is(1, 3); m[S0(0)]; m.is(0, 3); m.vals(0, -1); m.pop(S0(1)); m.pop(S0(0)); m.is(2, 3); m.vals(); m.pop(S0(2)); m.is(0, 0); m[S0(2)] = V1(2); m.is(2, 3); m.vals(); m.clear(); m.clear(); m.is(0, 0); }
API void t_C04_map() { long n = an_int(0, LIM); M m(0, n); M c(m); c.is(0, n); c.vals(); m.is(0, n); m.vals(); c[S0(n)] = V1(n); m.is(0, n); c.is(0, n + 1); c.vals(); an_end2(0, m.root(), c.root()); }
API void t_C04_mapa() { long n = an_int(0, LIM), k = an_int(0, LIM); M m(0, n), c(n, n + k); c = m; c.is(0, n); c.vals(); m.is(0, n); const M &r = c; c = r; c.is(0, n); an_end2(0, m.root(), c.root()); }
API void t_C04_mapset() { NP(1); M m(0, n); M c(m); c[S0(p)] = V2(0); c.is(0, n); c.vals(p, 2, 0); m.is(0, n); m.vals(); an_end2(0, m.root(), c.root()); }
API void t_C05_map() { long n = an_int(0, LIM); M m(0, n); M c(dstruct::move(m)); c.is(0, n); c.vals(); m.is(0, 0); an_check(m.begin() == m.end(), "moved-from map is empty"); m[S0(3)] = V1(3); m.is(3, 4); an_end2(0, m.root(), c.root()); }
API void t_C05_mapa() { long n = an_int(0, LIM), k = an_int(0, LIM); M m(0, n), c(n, n + k); c = dstruct::move(m); c.is(0, n); c.vals(); m.is(0, 0); M &r = c; c = dstruct::move(r); c.is(0, n); m[S0(3)] = V1(3); m.is(3, 4); an_end2(0, m.root(), c.root()); }
API void t_C06_map() { NP(1); M m(0, n); m.pop(m.find(S0(p))->key); m.is(0, p, p + 1, n); m.vals(); m.done(); }
API void t_C06_mapval() { NP(1); M m(0, p, p + 1, n); an_assume(n > 1); m[S0(p)] = m.begin()->value; m.is(0, n); m.vals(p, 1, p == 0 ? 1 : 0); m.done(); }
API void t_C19_const2() { NP(1); M m(0, n); long q = an_int(0, LIM); an_assume(q < n); const M &c = m; an_check(an_is(c[S0(p)], 1, p), "const operator[] of a present key"); an_check(an_is(c[S0(q)], 1, q), "const operator[] of another present key"); m.is(0, n); m.done(); }
