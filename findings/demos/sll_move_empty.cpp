#include <dstruct.hpp>
int main(){ dstruct::SLinkedList<int> a; auto b=dstruct::move(a); if(!b.empty()||!a.empty()) return 1; b.push_back(1); a.push_back(2); return !(b.back()==1&&a.back()==2&&b.size()==1); }
