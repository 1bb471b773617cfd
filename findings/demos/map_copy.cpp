#include <dstruct.hpp>
int main(){ dstruct::Map<int,int> m; m[1]=2; { dstruct::Map<int,int> c=m; c[1]=5; c[3]=4; if(m[1]!=2||m.size()!=1) return 1; dstruct::Map<int,int> d; d=dstruct::move(c); if(!c.empty()||d.size()!=2) return 1; } return m[1]!=2; }
