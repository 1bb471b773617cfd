#include <dstruct.hpp>
using S=dstruct::StaticMemAllocator<1024>;
int main(){ void*p=S::allocate(0); (void)p; return S::allocate(8)==nullptr; }
