#include <dstruct.hpp>
#include <unistd.h>
int main(){ alarm(3); dstruct::String a="ab"; a+=a; return !(a=="abab"); }
