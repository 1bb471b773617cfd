#include <dstruct.hpp>
using S=dstruct::StaticMemAllocator<1024>;
int main(){ return S::allocate(2147483647)!=nullptr || S::free_mem_size()!=1024; }
