#include <dstruct.hpp>
#include <set>
static std::set<const void*> live; static bool bad;
struct E { E(){ if(!live.insert(this).second) bad=true;} E(const E&){if(!live.insert(this).second) bad=true;} E&operator=(const E&){ if(!live.count(this)) bad=true; return *this;} ~E(){ if(!live.erase(this)) bad=true; } };
int main(){ { dstruct::Deque<E> d; E e; for(int i=0;i<200;i++) d.push_back(e); for(int i=0;i<150;i++) d.pop_front(); for(int i=0;i<150;i++) d.push_front(e);} return bad||!live.empty(); }
