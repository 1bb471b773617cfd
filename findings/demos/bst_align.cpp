#include <dstruct.hpp>
struct alignas(16) A { long v; bool operator<(const A&o) const { return v<o.v; } };
int main(){ dstruct::BSTree<A> t; for(long i=0;i<5;i++) t.push(A{i}); auto it=t.begin(); int n=0; while(it!=t.end()){ it=t.erase(it); n++; } return !(n==5&&t.empty()); }
