#include <dstruct.hpp>
using S=dstruct::StaticMemAllocator<1024>;
int main(){ for(int n=1;n<40;n++) if(reinterpret_cast<unsigned long>(S::allocate(n))%SMA_MEM_ALIGN) return 1; return 0; }
