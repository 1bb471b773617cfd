#include <dstruct.hpp>
int main(){ dstruct::MinStack<int> s; s.push(5); s.push(3); s.push(4); int n=0; for(auto v:s){(void)v;n++;} return n!=3; }
