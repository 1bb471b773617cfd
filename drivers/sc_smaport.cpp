// scenarios for the static memory port: C25, and the allocator as it is configured there: C24, C26
// flags: -DENABLE_SMA
#include "sma.hpp"
const int MEM = 1024 * 1024, MAX = 128; using State = StateOf<MEM, MAX>;
namespace P = dstruct::port;
// the port merges before it gives up, and stops rather than hand out null
static void port(int k) {
    an_unroll(40); State s(k, false); long bytes = an_int(MAX + 1, MEM), r = (bytes + 7) / 8; bool fits = s.fits(r), two = false;
    for (int j = 0; j + 1 < k; j++) if (s.x[j] + s.n[j] == s.x[j + 1] && s.n[j] + s.n[j + 1] >= r) two = true;
    if (!fits && !two) an_stop_on();
    void *v = dstruct::Alloc::allocate(bytes); an_check(v != nullptr, "the port never hands out null"); char *p = static_cast<char *>(v);
    an_check(p >= s.pool && p + 8 * r <= s.pool + MEM && (p - s.pool) % 8 == 0, "the block lies within the memory, aligned"); an_own(v, 8 * r); an_check(s.d.mFreeMemSize_d == 8 * (s.cnt - r), "free size");
    long b = an_int(0, MEM / 8 - 1), u = (p - s.pool) / 8; bool mine = u <= b && b < u + r; if (mine) an_check(s.has(b), "the block was free before"); an_check(s.count(b) == (s.has(b) && !mine ? 1 : 0), "the rest stays free, the block does not");
}
API void t_C25_port0() { port(0); }
API void t_C25_port1() { port(1); }
API void t_C25_port2() { port(2); }
API void t_C25_portback() { an_unroll(40); State s(1, false); long u, m; s.used(u, m); an_disown(s.pool + 8 * u, 8 * m); dstruct::Alloc::deallocate(s.pool + 8 * u, an_int(8 * m - 7, 8 * m)); an_check(s.d.mFreeMemSize_d == 8 * (s.cnt + m), "free size"); long b = an_int(0, MEM / 8 - 1); an_check(s.count(b) == (s.has(b) || (u <= b && b < u + m) ? 1 : 0), "exactly the block becomes free"); }
API void t_C25_portnull() { an_unroll(40); State s(1, false); an_stop_on(); dstruct::Alloc::deallocate(nullptr, an_int(1, MEM)); an_unreachable("returning a null block stops the program"); }
// small requests with the default lists
API void t_C24_small1() { an_unroll(40); State s(1); long bytes = an_int(1, 200), r = (bytes + 7) / 8; void *v = s.d.allocate_d(bytes); if (!v) { an_check(!s.fits(r), "refused only without room"); return; } char *p = static_cast<char *>(v); an_check((p - s.pool) % 8 == 0 && s.inside((p - s.pool) / 8, r), "the block was free before"); an_own(v, 8 * r); an_check(s.d.mFreeMemSize_d == 8 * (s.cnt - r), "free size"); long b = an_int(0, MEM / 8 - 1), u = (p - s.pool) / 8; an_check(s.count(b) == (s.has(b) && !(u <= b && b < u + r) ? 1 : 0), "the rest stays free, the block does not"); }
API void t_C26_default2() { an_unroll(80); State s(2); s.d.memory_merge_d(); s.same("merging keeps exactly the free bytes"); }
