#include <dstruct.hpp>
int main(){ dstruct::SLinkedList<int> a; a.push(1); a.push_back(2); if(a.front()!=1||a.back()!=2) return 1; a.pop(); a.pop(); a.push_back(7); return !(a.front()==7&&a.back()==7&&a.size()==1); }
