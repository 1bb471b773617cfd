#include <dstruct.hpp>
int main(){ dstruct::Map<int,int> m; for(int i=0;i<20;i++) m[i]=i; auto it=m.begin(); int n=0; while(it!=m.end()){ if(it->key!=n++) return 1; it=m.erase(it);} m[4]=4; return !(n==20&&m.size()==1); }
