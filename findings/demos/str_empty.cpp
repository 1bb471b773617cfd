#include <dstruct.hpp>
int main(){ const char b[4]={0,'x','y',0}; dstruct::String s(b); return !(s.size()==0 && s=="" ); }
