#include <dstruct.hpp>
int main(){ dstruct::MinHeap<int> h; h.push(3); h.push(1); auto &r=h; h=dstruct::move(r); return !(h.size()==2 && h.top()==1); }
