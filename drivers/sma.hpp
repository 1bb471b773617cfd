// an arbitrary state of the static memory allocator: free blocks of any sizes at any positions, everything else handed out
#pragma once
#include "an.hpp"
#include <memory/StaticMemAllocator.hpp>
extern "C" { void an_own(void *p, long n); void an_disown(void *p, long n); }   // [p, p+n) is handed out / not handed out
using Link = dstruct::SinglyLink_;
using MB = dstruct::EmbeddedListNode_<int, Link>;
template <int MEM, int MAX> struct Alc : dstruct::StaticMemAllocator<MEM, MAX> {
    using Base = dstruct::StaticMemAllocator<MEM, MAX>;
    using Base::mFreeMemSize_d; using Base::mMemoryPool_d; using Base::mFreeMemList_d; using Base::allocate_d; using Base::deallocate_d; using Base::memory_merge_d;
    static Alc &get() { return static_cast<Alc &>(Base::Instance_()); }
};
template <int MEM, int MAX> struct StateOf {
    enum { Q = MAX / 8, W = MEM / 8 };                      // quick lists 0..Q-1, then the pool
    using D = Alc<MEM, MAX>;
    D &d; char *pool; int k; long x[6], n[6];       // free blocks (in units of 8 bytes), ascending
    long cnt;                                               // units free
    // every state with exactly k free blocks
    StateOf(int k_, bool sizes = true) : d(D::get()), pool(d.mMemoryPool_d), k(k_), cnt(0) {
        an_own(pool, MEM);
        Link *tail[Q + 1]; for (int i = 0; i <= Q; i++) { tail[i] = &d.mFreeMemList_d[i]; tail[i]->next = nullptr; }
        long at = 0;
        for (int j = 0; j < k; j++) {
            long a = an_int(0, W), m = an_int(1, W); an_assume(a >= at); an_assume(a + m <= W);
            char *p = pool + 8 * a; an_disown(p, 8 * m); int c = Q; if (!sizes) an_assume(m > Q); else for (int i = 1; i <= Q; i++) if (m == i) c = i - 1;
            Link *l = reinterpret_cast<Link *>(p); l->next = nullptr; tail[c]->next = l; tail[c] = l;
            if (c == Q) reinterpret_cast<MB *>(p)->data = 8 * m;
            x[j] = a; n[j] = m; at = a + m; cnt += m;
        }
        d.mFreeMemSize_d = 8 * cnt;
    }
    bool has(long b) const { for (int j = 0; j < k; j++) if (x[j] <= b && b < x[j] + n[j]) return true; return false; }
    bool fits(long m) const { for (int j = 0; j < k; j++) if (n[j] >= m) return true; return false; }
    // how many blocks of the free lists hold the b-th unit
    long count(long b) const {
        long r = 0; int steps = 0;
        for (int i = 0; i <= Q; i++)
            for (Link *l = d.mFreeMemList_d[i].next; l != nullptr; l = l->next) {
                an_check(++steps <= k + 3, "a free list does not end"); char *p = reinterpret_cast<char *>(l);
                long s = i < Q ? 8 * (i + 1) : reinterpret_cast<MB *>(p)->data;
                an_check(s > 0 && (i < Q || s >= (long) sizeof(MB)), "a block of the pool can hold its own bookkeeping"); an_check(s % 8 == 0, "free blocks have rounded sizes");
                an_check(p >= pool && p + s <= pool + MEM, "free blocks lie within the memory"); an_check((p - pool) % 8 == 0, "free blocks are aligned");
                if (p <= pool + 8 * b && pool + 8 * b < p + s) r++;
            }
        return r;
    }
    void same(const char *why) const { long b = an_int(0, W - 1); an_check(count(b) == (has(b) ? 1 : 0), why); an_check(d.mFreeMemSize_d == 8 * cnt, "the free size is unchanged"); }
    bool inside(long u, long m) const { for (int j = 0; j < k; j++) if (x[j] <= u && u + m <= x[j] + n[j]) return true; return false; }
    // an arbitrary block that is handed out
    void used(long &u, long &m) const { u = an_int(0, W); m = an_int(1, W); an_assume(u + m <= W); for (int j = 0; j < k; j++) an_assume(u + m <= x[j] || x[j] + n[j] <= u); }
};
