#include <dstruct.hpp>
int main(){ dstruct::UFSet u(4); u.connect(0,1); u.connect(1,0); u.connect(2,2); return !(u.count()==3&&u.connected(0,1)&&!u.connected(0,2)); }
