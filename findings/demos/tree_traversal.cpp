#include <dstruct.hpp>
int main(){ int a[]={4,2,6,1,3,5,7}; dstruct::BSTree<int> t(a,a+7); using TT=decltype(t)::TraversalType; int n=0; int io[]={1,2,3,4,5,6,7}, po[]={1,3,2,5,7,6,4}, pre[]={4,2,1,3,6,5,7}; bool ok=true;
 t.traversal([&](int v){ ok&= n<7 && v==io[n++]; }); ok&=n==7; n=0; t.traversal([&](int v){ ok&= n<7&&v==po[n++]; },TT::PostOrder); ok&=n==7;
 n=0; for(auto it=t.begin(TT::PostOrder); it!=t.end(TT::PostOrder); it++) ok&= n<7&&*it==po[n++]; ok&=n==7;
 n=0; for(auto it=t.begin(TT::PreOrder); it!=t.end(TT::PreOrder); it++) ok&= n<7&&*it==pre[n++]; ok&=n==7;
 int b[]={1,2,3}; dstruct::BSTree<int> u(b,b+3); int pb[]={3,2,1}; n=0; for(auto it=u.begin(TT::PostOrder); it!=u.end(TT::PostOrder); it++) ok&= n<3&&*it==pb[n++]; ok&=n==3;
 return !ok; }
