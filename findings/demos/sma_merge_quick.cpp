#include <dstruct.hpp>
using S=dstruct::StaticMemAllocator<1024,1024>;
int main(){ int sz[]={16,8,16,8,16}; void*p[5]; for(int i=0;i<5;i++) p[i]=S::allocate(sz[i]);  S::allocate(1024-64);
  S::deallocate(p[0],16); S::deallocate(p[2],16); S::deallocate(p[3],8); S::memory_merge(); return S::allocate(24)==nullptr; }
