#include <dstruct.hpp>
int main(){ dstruct::Map<int,int> m; m[1]=2; const dstruct::Map<int,int> &c=m; return c[1]!=2; }
