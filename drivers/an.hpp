// Vocabulary of the scenario units: declared only, given meaning by the analyser.
#pragma once
#include "common.hpp"
extern "C" {
long an_int(long lo, long hi);             // an arbitrary integer in [lo,hi]
void an_assume(bool);                      // restrict the scenario
void an_check(bool, const char *);         // obligation
bool an_oracle();                          // arbitrary choice
void an_stop_on();                         // from here on stopping is allowed
void an_unreachable(const char *);         // obligation: never reached
const Elem &an_seq(int s, long i);         // element i of arbitrary sequence s
bool an_is(const Elem &, int s, long i);   // is it a copy of element i of sequence s
bool an_isdefault(const Elem &);
void an_unordered(int s);                   // the elements of s are in no particular order (and may be equal)
void an_unroll(int n);                      // from here on loops are followed iteration by iteration, at most n times
long an_steps();                            // instructions executed so far on this path
long an_pick(long quick, long thorough);      // a bound
void an_seen(const void *object, long base, long extra);   // follow each state of the object once, up to a shift of sequence 0
void an_match(int s, int t, long p);
const char *an_str(int s, long n);         // an arbitrary C string of length n
char an_chr(int s, long i);
bool an_isc(const char *, int s, long i, int kind);
void an_depth(long quick, long thorough);   // how deep to unfold when undecided
void *an_xptr(int k);                      // an arbitrary pointer, possibly null
}
#define S0(i) an_seq(0, i)
const long LIM = 1000000;
// a comparison with state: every operation has to use the one the container was given
struct Tag { int tag; Tag(int t = 0) : tag { t } { } bool operator()(const Elem &a, const Elem &b) const { an_check(tag == 7, "the comparison in use is the one the container was given"); return a < b; } };
// trees
extern "C" {
void an_layout(long id, long size, long parent, long left, long right, long data, long height, long balanced);
void an_layout_extra(long id, long off, long seq);
void *an_tree(long id, long s, long lo, long hi);                          // an arbitrary tree holding s[lo..hi) in order
void *an_tree2(long id, long s, long lo, long hi, long lo2, long hi2);
bool an_istree(long id, const void *root, long s, long lo, long hi);       // well formed and holding exactly that
bool an_istree2(long id, const void *root, long s, long lo, long hi, long lo2, long hi2);
bool an_isval(long id, const void *root, long p, long vs, long vi);      // values of the nodes
bool an_balanced(long id, const void *root);
bool an_heights(long id, const void *root);
long an_height(long id, const void *root);
void an_end2(long id, const void *root, const void *root2);
void an_end(long id, const void *root);                                     // end of the scenario: all nodes belong to the tree
}
