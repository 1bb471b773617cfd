#include <dstruct.hpp>
int main(){ dstruct::BSTree<int> t; dstruct::Map<int,int> m; for(auto v:t) return 1; for(auto kv:m) return 1; int n=0; t.traversal([&](int){n++;}); return n; }
