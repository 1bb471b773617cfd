#include <dstruct.hpp>
int main(){ int a[]={50,20,80,60,90,55,65}; dstruct::BSTree<int> t(a,a+7); t.pop(50); int p=0,n=0; for(auto v:t){ if(v<=p) return 1; p=v; n++; } if(n!=6) return 1; int b[]={5,3,8,9}; dstruct::BSTree<int> u(b,b+4); u.pop(5); n=0;p=0; for(auto v:u){ if(v<=p) return 1; p=v; n++; } return n!=3; }
