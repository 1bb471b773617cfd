#include <dstruct.hpp>
int main(){ dstruct::BSTree<int> t; t.push(1); t.push(1); return t.size()!=1; }
