// copy-assigning a Vector runs the destructor on raw memory
#include <dstruct.hpp>
#include <cstdlib>
#include <set>
static std::set<const void*> live; static bool bad;
struct E { E(){live.insert(this);} E(const E&){live.insert(this);} ~E(){ if(!live.erase(this)) bad=true; } };
int main(){ { dstruct::Vector<E> a(3,E()), b; b=a; } return bad || !live.empty(); }
