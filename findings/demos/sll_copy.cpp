#include <dstruct.hpp>
int main(){ dstruct::SLinkedList<int> a; a.push_back(1);a.push_back(2);a.push_back(3); auto b=a; int i=1; for(auto v:b) if(v!=i++) return 1; b.push_back(4); return !(a.size()==3&&a.back()==3&&b.back()==4&&b.size()==4); }
