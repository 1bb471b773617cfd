#include <dstruct.hpp>
int main(){ dstruct::String a="hey"; dstruct::String b=dstruct::move(a); if(!(a.empty()&&a.size()==0)) return 1; if(a.c_str()[0]!=0) return 1; a+="z"; return !(a=="z"&&b=="hey"); }
