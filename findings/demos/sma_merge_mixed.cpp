// after everything is returned, memory_merge must be able to rebuild the whole pool
#include <dstruct.hpp>
using S=dstruct::StaticMemAllocator<1024>;
int main(){ void*a=S::allocate(8),*b=S::allocate(16); S::deallocate(a,8); S::deallocate(b,16); S::memory_merge(); return S::allocate(1024)==nullptr; }
