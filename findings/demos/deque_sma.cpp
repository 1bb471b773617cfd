// Deque / Queue over the static allocator must compile and never touch the heap
#include <cstdlib>
static int heap_calls; 
#include <dstruct.hpp>
static int used(){ return 1024*10 - dstruct::smemory::SMA::free_mem_size(); }
int main(){ dstruct::smemory::Queue<int> q; dstruct::smemory::Deque<int> d; for(int i=0;i<100;i++){ q.push(i); d.push_front(i);} for(int i=0;i<100;i++){ if(q.front()!=i) return 1; q.pop(); d.pop(); } return used()<=0; }
