#include <dstruct.hpp>
int main(){ dstruct::AVLTree<int,dstruct::less<int>,dstruct::Alloc> t; t.push(1); t.push(2); t.erase(t.find(1)); if(t.size()!=1||*t.begin()!=2) return 1; t.erase(t.find(2)); if(!t.empty()) return 1; t.push(3); return t.size()!=1; }
