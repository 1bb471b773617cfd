#include <dstruct.hpp>
int main(){ dstruct::Map<int,int> m; m[1]=2; m.pop(7); return m.size()!=1; }
