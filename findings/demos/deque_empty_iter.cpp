#include <dstruct.hpp>
#include <new>
#include <cstring>
#include <cstdlib>
int main(){ { alignas(16) char buf[sizeof(dstruct::Deque<int>)]; for(unsigned i=0;i<sizeof buf;i++) buf[i]=i; auto *d=new(buf) dstruct::Deque<int>; int n=0; for(auto v:*d){ (void)v; if(++n>3) return 1;} if(n) return 1; dstruct::Deque<int> e=*d; if(!e.empty()) return 1; }
 dstruct::Deque<int> d; for(int i=0;i<5;i++) d.push_back(i); d.clear(); for(auto v:d){ (void)v; return 2; } dstruct::Deque<int> c=d; return !c.empty(); }
