// scenarios for BasicString: C22 C23 C04 C05 C06
#include "an.hpp"
using Str = dstruct::BasicString<char, TA>;
// an arbitrary string: the first n characters of C string s
static long len() { return an_int(0, LIM); }
static void same(Str &v, int s, long n) {
    const Str &w = v; an_check(w.size() == n, "String size"); an_check(w.empty() == (n == 0), "String empty"); an_check(w.capacity() > w.size(), "String capacity");
    const char *c = w.c_str(); an_check(c[n] == '\0', "terminating NUL");
    if (n > 0) {
        long j = an_int(0, LIM); an_assume(j < n); an_check(an_isc(c + j, s, j, 0), "character of c_str"); an_check(&w[(int)j] == c + j && &v[(int)j] == c + j, "indexing agrees with c_str");
        an_check(&w.front() == c, "front"); an_check(&w.back() == c + n - 1, "back");
    }
    an_check(w.begin().operator->() == c && w.end().operator->() == c + n && v.begin().operator->() == c && v.end().operator->() == c + n, "iterators span the characters");
}
// n characters of a followed by m characters of b
static void cat(const Str &w, int s, long n, int t, long m) {
    an_check(w.size() == n + m, "length of the concatenation"); const char *c = w.c_str(); an_check(c[n + m] == '\0', "NUL after concatenation");
    long j = an_int(0, 2 * LIM); an_assume(j < n + m);
    if (j < n) an_check(an_isc(c + j, s, j, 0), "left characters"); else an_check(an_isc(c + j, t, j - n, 0), "right characters");
}
API void t_C22_default() { Str v; an_check(v.size() == 0 && v.empty(), "default String"); an_check(v.c_str()[0] == '\0', "NUL of default String"); v.push_back('x'); an_check(v.size() == 1 && v.c_str()[0] == 'x' && v.c_str()[1] == 0, "push_back on default String"); }
API void t_C22_ctor() { long n = len(); Str v(an_str(0, n)); same(v, 0, n); }
API void t_C22_assign() { long n = len(), m = len(); Str v(an_str(0, n)); v = an_str(1, m); same(v, 1, m); }
API void t_C22_push() { long n = len(); Str v(an_str(0, n)); v.push_back(*an_str(1, 5)); cat(v, 0, n, 1, 1); v.push_back(an_str(1, 5)[1]); cat(v, 0, n, 1, 2); }
API void t_C22_pushes() { long n = len(); const char *p = an_str(0, n); Str v; for (long i = 0; i < n; i++) v.push_back(p[i]); same(v, 0, n); }
API void t_C22_set() {
    long n = len(); Str v(an_str(0, n)); long j = an_int(0, LIM), k = an_int(0, LIM); an_assume(j < n && k < n); v[(int)j] = *an_str(1, 5);
    an_check(v.size() == n, "size after element assignment");
    if (j == k) an_check(an_isc(&v[(int)k], 1, 0, 0), "assigned character"); else an_check(an_isc(&v[(int)k], 0, k, 0), "other character");
    an_check(v.c_str()[n] == 0, "NUL after element assignment");
}
API void t_C22_clear() { long n = len(), m = len(); Str v(an_str(0, n)); v.clear(); same(v, 0, 0); v = an_str(1, m); same(v, 1, m); v.clear(); v.push_back(*an_str(0, n + 1)); an_check(v.size() == 1 && v.c_str()[1] == 0, "String after clear"); }
API void t_C22_iter() { long n = len(); Str v(an_str(0, n)); long i = 0; for (auto it = v.begin(); it != v.end(); ++it) { an_check(an_isc(&*it, 0, i, 0), "iteration"); i++; } an_check(i == n, "iteration count"); }
API void t_C04_string() { long n = len(), m = len(); Str v(an_str(0, n)), x(an_str(1, m)); Str w(v); same(w, 0, n); same(v, 0, n); x = v; same(x, 0, n); w.push_back('a'); same(v, 0, n); same(x, 0, n); v.clear(); same(x, 0, n); }
API void t_C04_strself() { long n = len(); Str v(an_str(0, n)); const Str &r = v; v = r; same(v, 0, n); }
API void t_C05_string() { long n = len(); Str v(an_str(0, n)); Str w(dstruct::move(v)); same(w, 0, n); same(v, 0, 0); v.push_back('b'); an_check(v.size() == 1 && v.c_str()[0] == 'b' && v.c_str()[1] == 0, "moved-from String is reusable"); }
API void t_C05_strassign() { long n = len(), m = len(); Str v(an_str(0, n)), w(an_str(1, m)); w = dstruct::move(v); same(w, 0, n); same(v, 0, 0); }
API void t_C05_strself() { long n = len(); Str v(an_str(0, n)); Str &r = v; v = dstruct::move(r); same(v, 0, n); }
API void t_C06_string() { long n = len(); Str v(an_str(0, n)); v += v; cat(v, 0, n, 0, n); }
API void t_C06_strpush() { long n = len(); Str v(an_str(0, n)); long j = an_int(0, LIM); an_assume(j < n); v.push_back(v[(int)j]); an_check(v.size() == n + 1, "size"); an_check(an_isc(v.c_str() + n, 0, j, 0), "pushed own character"); an_check(v.c_str()[n + 1] == 0, "NUL"); }
API void t_C23_append() { long n = len(), m = len(); Str v(an_str(0, n)), w(an_str(1, m)); v += w; cat(v, 0, n, 1, m); same(w, 1, m); }
API void t_C23_appendc() { long n = len(), m = len(); Str v(an_str(0, n)); v += an_str(1, m); cat(v, 0, n, 1, m); }
API void t_C23_plus() { long n = len(), m = len(); Str v(an_str(0, n)), w(an_str(1, m)); cat(v + w, 0, n, 1, m); same(v, 0, n); same(w, 1, m); }
API void t_C23_plusc() { long n = len(), m = len(); Str v(an_str(0, n)); cat(v + an_str(1, m), 0, n, 1, m); same(v, 0, n); }
API void t_C23_cplus() { long n = len(), m = len(); Str w(an_str(1, m)); cat(an_str(0, n) + w, 0, n, 1, m); same(w, 1, m); }
API void t_C23_self() { long n = len(); Str v(an_str(0, n)); cat(v + v, 0, n, 0, n); same(v, 0, n); }
API void t_C23_eq() { long n = len(); Str v(an_str(0, n)), w(an_str(0, n)); an_check(v == w, "equal strings compare unequal"); }
API void t_C23_ne() { long n = len(); Str v(an_str(0, n)), w(an_str(0, n)); an_check(!(v != w), "equal strings compare different"); }
API void t_C23_eqself() { long n = len(); Str v(an_str(0, n)); an_check(v == v && !(v != v), "a string differs from itself"); }
API void t_C23_eqc() { long n = len(); Str v(an_str(0, n)); an_check(v == an_str(0, n), "String == C string"); an_check(!(v != an_str(0, n)), "String != C string"); }
API void t_C23_ceq() { long n = len(); Str v(an_str(0, n)); an_check(an_str(0, n) == v, "C string == String"); an_check(!(an_str(0, n) != v), "C string != String"); }
API void t_C23_len() { long n = len(), m = len(); an_assume(n != m); Str v(an_str(0, n)), w(an_str(1, m)); an_check(!(v == w), "strings of different length compare equal"); }
API void t_C23_lenne() { long n = len(), m = len(); an_assume(n != m); Str v(an_str(0, n)), w(an_str(1, m)); an_check(v != w, "!= of strings of different length"); }
API void t_C23_prefix() { long n = len(); Str v(an_str(0, n)), w(an_str(0, n)); w.push_back('x'); an_check(!(v == w), "a proper prefix compares equal"); }
API void t_C23_prefix2() { long n = len(); Str v(an_str(0, n)), w(an_str(0, n)); w.push_back('x'); an_check(w != v, "a proper extension compares equal"); }
static long differ(Str &v, Str &w) { long n = v.size(), p = an_int(0, LIM); an_assume(p < n); char c = *an_str(1, 5); an_assume(c != v[(int)p]); w[(int)p] = c; return n; }
API void t_C23_diff() { long n = len(); Str v(an_str(0, n)), w(v); differ(v, w); an_check(!(v == w), "strings that differ in one character compare equal"); }
API void t_C23_diffne() { long n = len(); Str v(an_str(0, n)), w(v); differ(v, w); an_check(w != v, "!= of strings that differ in one character"); }
API void t_C23_diffc() { long n = an_int(1, 14); Str v(an_str(0, n)), w(v); differ(v, w); an_check(!(w == an_str(0, n)) && w != an_str(0, n), "String against a C string that differs in one character"); }
API void t_C23_cdiff() { long n = an_int(1, 14); Str v(an_str(0, n)), w(v); differ(v, w); an_check(!(an_str(0, n) == w) && an_str(0, n) != w, "C string against a String that differs in one character"); }
API void t_C06_strown() { long n = len(); Str v(an_str(0, n)); v = v.c_str(); same(v, 0, n); }
API void t_C06_strownapp() { long n = len(); Str v(an_str(0, n)); v += v.c_str(); cat(v, 0, n, 0, n); }
