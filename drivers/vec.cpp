#include "common.hpp"
using V = dstruct::Vector<Elem, TA>;
API void v_ctor(V *v) { new (v, (DStructPlacementNewFlag*)0) V(); }
API void v_push(V *v, const Elem &e) { v->push_back(e); }
API void v_pop(V *v) { v->pop_back(); }
API void v_resize(V *v, dstruct::size_t n) { v->resize(n); }
API void v_copyasg(V *v, const V*w) { *v = *w; }
API void v_dtor(V *v) { v->~V(); }
API const Elem *v_at(V *v, int i) { return &(*v)[i]; }
API void v_fill(V *v, const Elem *src, int n) { for (int i = 0; i < n; i++) v->push_back(src[i]); }
API const Elem* v_begin(V *v) { return v->begin().operator->(); }
