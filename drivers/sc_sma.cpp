// scenarios for the static memory allocator: C24, C25, C26
// An arbitrary state with up to K free blocks (any sizes, any positions, any gaps; everything else is handed out), then an operation.
#include "sma.hpp"
const int MEM = 1 << 16, MAX = 24, W = MEM / 8, Q = MAX / 8;
using State = StateOf<MEM, MAX>; using D = State::D;
static void checkblock(const State &s, void *v, long bytes) {
    char *p = static_cast<char *>(v); long r = (bytes + 7) / 8 * 8;
    an_check(p >= s.pool && p + r <= s.pool + MEM, "the block lies within the memory"); an_check((p - s.pool) % 8 == 0, "the block is aligned");
    an_check(s.inside((p - s.pool) / 8, r / 8), "the block was free before");
}
static void alloc(int k, long lo = 1, long hi = MEM) {
    an_unroll(20); State s(k); long bytes = an_int(lo, hi); void *v = s.d.allocate_d(bytes);
    if (v == nullptr) return;
    checkblock(s, v, bytes); long r = (bytes + 7) / 8, u = (static_cast<char *>(v) - s.pool) / 8; an_own(v, 8 * r);
    long b = an_int(0, W - 1); an_check(s.count(b) == (s.has(b) && !(u <= b && b < u + r) ? 1 : 0), "the rest stays free, the block does not");
}
static void account(int k) {
    an_unroll(20); State s(k); long bytes = an_int(-10, MEM + 100); void *v = s.d.allocate_d(bytes);
    if (v == nullptr) { an_check(bytes <= 0 || bytes > MEM || !s.fits((bytes + 7) / 8), "a request is refused only when no free block is large enough"); s.same("a refused request changes nothing"); return; }
    an_check(bytes > 0 && bytes <= MEM, "a request that makes no sense is refused"); long r = (bytes + 7) / 8;
    an_check(s.d.mFreeMemSize_d == 8 * (s.cnt - r), "the free size shrinks by the rounded size");
}
static void release(int k) {
    an_unroll(20); State s(k); long u, m; s.used(u, m); long bytes = an_int(8 * m - 7, 8 * m); char *p = s.pool + 8 * u; an_disown(p, 8 * m);
    an_check(s.d.deallocate_d(p, bytes), "a block is accepted"); an_check(s.d.mFreeMemSize_d == 8 * (s.cnt + m), "the free size grows by the rounded size");
    long b = an_int(0, W - 1); an_check(s.count(b) == (s.has(b) || (u <= b && b < u + m) ? 1 : 0), "exactly the block becomes free");
}
static void again(int k) {
    an_unroll(20); State s(k); long u, m; s.used(u, m); long bytes = an_int(8 * m - 7, 8 * m); char *p = s.pool + 8 * u; an_disown(p, 8 * m);
    s.d.deallocate_d(p, bytes); long q = an_int(8 * m - 7, 8 * m); void *v = s.d.allocate_d(q); an_check(v != nullptr, "a block of the size just returned can be allocated again"); an_check(s.d.mFreeMemSize_d == 8 * s.cnt, "the free size is as before");
}
// no two blocks of the free lists are next to each other
static void nojoin(const State &s) {
    int steps = 0;
    for (int i = 0; i <= Q; i++) for (Link *l = s.d.mFreeMemList_d[i].next; l != nullptr; l = l->next) for (int j = 0; j <= Q; j++) for (Link *h = s.d.mFreeMemList_d[j].next; h != nullptr; h = h->next) {
        an_check(++steps < 60, "the lists end"); long n = i < Q ? 8 * (i + 1) : reinterpret_cast<MB *>(l)->data; an_check(reinterpret_cast<char *>(l) + n != reinterpret_cast<char *>(h), "adjacent free blocks are joined"); }
}
static void merge(int k) { an_unroll(40); State s(k); s.d.memory_merge_d(); s.same("merging keeps exactly the free bytes"); }
static void joined(int k) { an_unroll(40); State s(k); s.d.memory_merge_d(); nojoin(s); }
// the blocks become free one after the other, in any order
static void order(int k) {
    an_unroll(40); State s(k); long u, m; s.used(u, m); an_disown(s.pool + 8 * u, 8 * m); s.d.deallocate_d(s.pool + 8 * u, 8 * m); s.d.memory_merge_d(); nojoin(s);
    long b = an_int(0, W - 1); an_check(s.count(b) == (s.has(b) || (u <= b && b < u + m) ? 1 : 0), "merging keeps exactly the free bytes");
}
// everything has been returned: k blocks that fill the memory, the last of them returned last
static void whole(int k, int last) {
    an_unroll(40); State s(k); long u, m; s.used(u, m); an_assume(s.cnt + m == W); int before = 0; for (int j = 0; j < k; j++) if (s.x[j] < u) before++;
    an_assume(before == last); an_disown(s.pool + 8 * u, 8 * m); s.d.deallocate_d(s.pool + 8 * u, 8 * m); s.d.memory_merge_d();
    void *v = s.d.allocate_d(MEM); an_check(v != nullptr, "the whole memory can be allocated again"); an_check(v == s.pool, "as one block"); an_check(s.d.mFreeMemSize_d == 0, "nothing is left");
}
API void t_C24_init() { D &d = D::get(); an_check(alignof(D) % 8 == 0 && (d.mMemoryPool_d - reinterpret_cast<char *>(&d)) % 8 == 0, "the memory is aligned"); an_check(d.mFreeMemSize_d == MEM, "everything is free at first"); an_check(d.mFreeMemList_d[Q].next == reinterpret_cast<Link *>(d.mMemoryPool_d), "one block"); an_check(reinterpret_cast<MB *>(d.mMemoryPool_d)->data == MEM, "one block"); an_check(d.mFreeMemList_d[Q].next->next == nullptr, "one block"); for (int i = 0; i < Q; i++) an_check(d.mFreeMemList_d[i].next == nullptr, "no quick blocks"); }
API void t_C24_alloc0() { alloc(0); }
API void t_C24_alloc1() { alloc(1); }
API void t_C24_alloc2() { alloc(2); }
API void t_C24_alloc3() { alloc(3); }
API void t_C24_alloc4a() { alloc(4, 1, 8); }
API void t_C24_alloc4b() { alloc(4, 9, MAX); }
API void t_C24_alloc4c() { alloc(4, MAX + 1, MEM); }
API void t_C25_account0() { account(0); }
API void t_C25_account1() { account(1); }
API void t_C25_account2() { account(2); }
API void t_C25_account3() { account(3); }
API void t_C25_account4() { account(4); }
API void t_C25_release0() { release(0); }
API void t_C25_release1() { release(1); }
API void t_C25_release2() { release(2); }
API void t_C25_release3() { release(3); }
API void t_C25_again0() { again(0); }
API void t_C25_again1() { again(1); }
API void t_C25_again2() { again(2); }
API void t_C25_again3() { again(3); }
API void t_C26_merge1() { merge(1); }
API void t_C26_merge2() { merge(2); }
API void t_C26_merge3() { merge(3); }
API void t_C26_merge4() { merge(4); }
API void t_C26_joined1() { joined(1); }
API void t_C26_joined2() { joined(2); }
API void t_C26_joined3() { joined(3); }
API void t_C26_joined4() { joined(4); }
API void t_C26_order0() { order(0); }
API void t_C26_order1() { order(1); }
API void t_C26_order2() { order(2); }
API void t_C35_whole00() { whole(0, 0); }
API void t_C35_whole10() { whole(1, 0); }
API void t_C35_whole11() { whole(1, 1); }
API void t_C35_whole20() { whole(2, 0); }
API void t_C35_whole21() { whole(2, 1); }
API void t_C35_whole22() { whole(2, 2); }
API void t_C35_whole30() { whole(3, 0); }
API void t_C35_whole31() { whole(3, 1); }
API void t_C35_whole32() { whole(3, 2); }
API void t_C35_whole33() { whole(3, 3); }

// the public interface, from the beginning
API void t_C25_public() {
    using B = dstruct::StaticMemAllocator<MEM, MAX>; an_unroll(20); an_check(B::free_mem_size() == MEM, "everything is free at first"); an_check(B::max_free_mblock_size() == MEM, "as one block");
    long a = an_int(1, MEM), b = an_int(1, MEM), ra = (a + 7) / 8 * 8, rb = (b + 7) / 8 * 8; an_check(B::MEM_ALIGN_ROUND_UP(a) == ra, "rounding");
    char *p = static_cast<char *>(B::allocate(a)); an_check(p != nullptr, "the first request is met"); an_check(B::free_mem_size() == MEM - ra, "free size after a request"); an_own(p, ra);
    char *q = static_cast<char *>(B::allocate(b)); an_check((q != nullptr) == (ra + rb <= MEM), "the second request is met exactly when there is room"); an_check(B::free_mem_size() == MEM - ra - (q ? rb : 0), "free size after two requests");
    if (q) { an_check(q + rb <= p || p + ra <= q, "blocks do not overlap"); an_own(q, rb); }
    an_disown(p, ra); an_check(B::deallocate(p, a), "a block is accepted"); an_check(B::free_mem_size() == MEM - (q ? rb : 0), "free size after a return"); B::memory_merge(); an_check(B::free_mem_size() == MEM - (q ? rb : 0), "merging keeps the free size");
    if (q) { an_disown(q, rb); an_check(B::deallocate(q, b), "a block is accepted"); } B::memory_merge(); an_check(B::free_mem_size() == MEM, "everything has been returned"); an_check(B::max_free_mblock_size() == MEM, "as one block");
}
API void t_C25_refuse() { using B = dstruct::StaticMemAllocator<MEM, MAX>; an_unroll(20); long a = an_int(-MEM, 0); an_check(B::allocate(a) == nullptr, "a request for nothing is refused"); an_check(B::allocate(an_int(MEM + 1, 2000000000)) == nullptr, "a request larger than the memory is refused"); an_check(!B::deallocate(nullptr, an_int(-MEM, MEM)), "a null block is refused"); char *p = static_cast<char *>(B::allocate(an_int(1, MEM))); an_check(!B::deallocate(p, a), "a block of no size is refused"); long f = B::free_mem_size(); an_check(B::allocate(a) == nullptr && B::free_mem_size() == f, "and changes nothing"); }
static void largest(int k) { an_unroll(20); State s(k); long m = dstruct::StaticMemAllocator<MEM, MAX>::max_free_mblock_size(); an_check(m % 8 == 0 && m >= 0, "a rounded size"); an_check(m == 0 ? k == 0 : s.fits(m / 8), "there is a free block of the reported size"); an_check(!s.fits(m / 8 + 1), "there is no larger one"); }
API void t_C25_largest0() { largest(0); }
API void t_C25_largest1() { largest(1); }
API void t_C25_largest2() { largest(2); }
API void t_C25_largest3() { largest(3); }

// memories so small that their largest blocks still go to the quick lists, or that fill a quick list on their own
template <int M, int X> struct Small {
    using State = StateOf<M, X>; enum { W = M / 8, Q = X / 8 };
    static void nojoin(const State &s) {
        int steps = 0;
        for (int i = 0; i <= Q; i++) for (Link *l = s.d.mFreeMemList_d[i].next; l != nullptr; l = l->next) for (int j = 0; j <= Q; j++) for (Link *h = s.d.mFreeMemList_d[j].next; h != nullptr; h = h->next) {
            an_check(++steps < 60, "the lists end"); long n = i < Q ? 8 * (i + 1) : reinterpret_cast<MB *>(l)->data; an_check(reinterpret_cast<char *>(l) + n != reinterpret_cast<char *>(h), "adjacent free blocks are joined"); }
    }
    static void whole(int k) {
        an_unroll(40); State s(k); long u, m; s.used(u, m); an_assume(s.cnt + m == W); an_disown(s.pool + 8 * u, 8 * m); s.d.deallocate_d(s.pool + 8 * u, 8 * m); s.d.memory_merge_d();
        an_check(s.d.max_free_mblock_size() == M, "the largest block is the whole memory"); void *v = s.d.allocate_d(M); an_check(v != nullptr, "the whole memory can be allocated again"); an_check(v == s.pool, "as one block"); an_check(s.d.mFreeMemSize_d == 0, "nothing is left");
    }
    static void merge(int k) { an_unroll(40); State s(k); s.d.memory_merge_d(); nojoin(s); s.same("merging keeps exactly the free bytes"); }
    static void alloc(int k) {
        an_unroll(40); State s(k); long bytes = an_int(-1, M + 9), r = (bytes + 7) / 8; void *v = s.d.allocate_d(bytes);
        if (v == nullptr) { an_check(bytes <= 0 || bytes > M || !s.fits(r), "a request is refused only when no free block is large enough"); s.same("a refused request changes nothing"); return; }
        char *p = static_cast<char *>(v); an_check(p >= s.pool && p + 8 * r <= s.pool + M, "the block lies within the memory"); an_check((p - s.pool) % 8 == 0, "the block is aligned"); long u = (p - s.pool) / 8;
        an_check(s.inside(u, r), "the block was free before"); an_own(v, 8 * r); an_check(s.d.mFreeMemSize_d == 8 * (s.cnt - r), "the free size shrinks by the rounded size"); long b = an_int(0, W - 1); an_check(s.count(b) == (s.has(b) && !(u <= b && b < u + r) ? 1 : 0), "the rest stays free, the block does not");
    }
    static void release(int k) {
        an_unroll(40); State s(k); long u, m; s.used(u, m); char *p = s.pool + 8 * u; an_disown(p, 8 * m); an_check(s.d.deallocate_d(p, an_int(8 * m - 7, 8 * m)), "a block is accepted"); an_check(s.d.mFreeMemSize_d == 8 * (s.cnt + m), "the free size grows by the rounded size");
        long b = an_int(0, W - 1); an_check(s.count(b) == (s.has(b) || (u <= b && b < u + m) ? 1 : 0), "exactly the block becomes free");
    }
};
#define SMALL(id, M, X) API void t_C35_##id##0() { Small<M, X>::whole(0); } API void t_C35_##id##1() { Small<M, X>::whole(1); } API void t_C35_##id##2() { Small<M, X>::whole(2); } API void t_C26_##id##1() { Small<M, X>::merge(1); } API void t_C26_##id##2() { Small<M, X>::merge(2); } API void t_C26_##id##3() { Small<M, X>::merge(3); } \
    API void t_C24_##id##1() { Small<M, X>::alloc(1); } API void t_C24_##id##2() { Small<M, X>::alloc(2); } API void t_C25_##id##0() { Small<M, X>::release(0); } API void t_C25_##id##1() { Small<M, X>::release(1); } API void t_C25_##id##2() { Small<M, X>::release(2); }
SMALL(a, 48, 24)
SMALL(b, 32, 24)
SMALL(c, 40, 64)
SMALL(d, 64, 8)
SMALL(e, 24, 24)
#define MORE(id, M, X) API void t_C35_##id##3() { Small<M, X>::whole(3); } API void t_C26_##id##4() { Small<M, X>::merge(4); } API void t_C24_##id##3() { Small<M, X>::alloc(3); } API void t_C24_##id##4() { Small<M, X>::alloc(4); } API void t_C25_##id##3() { Small<M, X>::release(3); }
MORE(a, 48, 24)
MORE(b, 32, 24)
MORE(c, 40, 64)
MORE(d, 64, 8)
API void t_C26_a5() { Small<48, 24>::merge(5); }
API void t_C35_a4() { Small<48, 24>::whole(4); }
API void t_C35_a5() { Small<48, 24>::whole(5); }
// the allocator's own report agrees with itself in every state, and changes nothing
static void report(int k) { an_unroll(40); State s(k); dstruct::StaticMemAllocator<MEM, MAX>::dump(); dstruct::StaticMemAllocator<MEM, MAX>::dump(); s.same("a report changes nothing"); }
API void t_C25_report0() { report(0); }
API void t_C25_report1() { report(1); }
API void t_C25_report2() { report(2); }
API void t_C25_report3() { report(3); }
