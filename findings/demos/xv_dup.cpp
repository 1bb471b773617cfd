#include <dstruct.hpp>
int main(){ dstruct::MinStack<int> s; s.push(3); s.push(3); s.pop(); if(s.top()!=3||s.getXValue()!=3) return 1; s.pop(); return !s.empty(); }
