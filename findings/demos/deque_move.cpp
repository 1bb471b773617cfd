#include <dstruct.hpp>
int main(){ dstruct::Deque<int> a; a.push_back(1); auto b=dstruct::move(a); b.push_back(2); b.push_front(0); for(int i=0;i<3;i++) if(b[i]!=i) return 1; for(auto v: a) return 1; a.push_back(5); return !(a.back()==5 && a.size()==1); }
