// push_back / resize of an element of the vector itself across a reallocation
#include <dstruct.hpp>
#include <string>
int main(){ dstruct::Vector<std::string> v(2,std::string(64,'a')); v.push_back(v[0]); 
 dstruct::Vector<std::string> u(2,std::string(64,'b')); u.resize(100,u[1]);
 return !(v[2]==std::string(64,'a') && u[99]==std::string(64,'b')); }
