#include <dstruct.hpp>
int main(){ dstruct::AVLTree<int,dstruct::less<int>,dstruct::Alloc> t; for(int i=1;i<=3;i++) t.push(i); using TT=decltype(t)::TraversalType; return *t.begin(TT::PreOrder)!=2; }
