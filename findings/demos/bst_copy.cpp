#include <dstruct.hpp>
int main(){ int a[]={3,1,2,5,4}; dstruct::BSTree<int> t(a,a+5); dstruct::BSTree<int> c=t; c.pop(1); int s=0; for(auto v:t) s+=v; int k=0; for(auto v:c) k+=v; return !(s==15&&k==14&&t.size()==5&&c.size()==4); }
