#include <dstruct.hpp>
int main(){ dstruct::BSTree<int> t; t.push(1); t.pop(7); return t.size()!=1; }
