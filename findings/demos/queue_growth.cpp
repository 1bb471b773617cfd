// a queue that never holds more than one element must not exhaust its memory
#include <dstruct.hpp>
int main(){ dstruct::smemory::Queue<int> q; for(int i=0;i<100000;i++){ q.push(i); if(q.front()!=i) return 1; q.pop(); } dstruct::Deque<int,4> d; for(int i=0;i<10000;i++){ d.push_back(i); d.pop_front(); } return d.capacity()>64; }
