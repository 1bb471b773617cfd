// scenarios for the storage policy of the double-ended queue: C34
#include "an.hpp"
const long START = 100000;
template <int A> using DQ = dstruct::DoubleEndedQueue<Elem, A, TA>;
template <int A> struct D : DQ<A> {
    using B = DQ<A>; using It = typename B::IteratorType;
    struct Acc : It { static size_t at(const It &i) { return i.*(&Acc::mCurrMapIndex_d); } };
    long pos(const It &i) const { long k = Acc::at(i); return k * A + (i.operator->() - &*this->mArrMapTable_d[k]->begin()); }
    long front_room() const { return pos(this->mBegin_d); }
    long back_room() const { return this->capacity() - pos(this->mEnd_d); }
    long blocks() const { return (long) Acc::at(this->mEnd_d) - (long) Acc::at(this->mBegin_d) + 1; }
};
template <int A> static void policy(long max) {
    an_unroll(1000000); D<A> d; long b = START, e = START;
    while (true) {
        an_seen(&d, b, e - b);
        long cap = d.capacity(), n = e - b; an_check(cap >= n && (cap == 0 || cap >= 2 * A), "capacity covers the elements");
        if (an_oracle()) {
            an_assume(n < max); bool bk = an_oracle(); long room = cap == 0 ? 0 : bk ? d.back_room() : d.front_room();
            if (bk) { d.push_back(S0(e)); e++; } else { d.push_front(S0(b - 1)); b--; }
            if (cap == 0) an_check(d.capacity() == 2 * A, "first block table"); else if (room > 0) an_check(d.capacity() == cap, "the block table is extended although the end has room"); else an_check(d.capacity() == 2 * cap, "the block table doubles when an end has no room");
        } else if (an_oracle()) {
            an_assume(n > 0); if (an_oracle()) { d.pop_back(); e--; } else { d.pop_front(); b++; } n--;
            if (n <= cap / 3 && cap > 2 * A) an_check(d.capacity() == cap / 2 || (d.capacity() == cap && d.blocks() > cap / A / 2), "blocks are returned once at most a third of them is used"); else an_check(d.capacity() == cap, "blocks are returned although more than a third of them is used");
        } else if (an_oracle()) { d.clear(); b = e; an_check(d.capacity() == 0, "clear returns all blocks"); }
        else return;
    }
}
API void t_C34_deque1() { policy<1>(an_pick(12, 20)); }
API void t_C34_deque2() { policy<2>(an_pick(16, 28)); }
API void t_C34_deque3() { policy<3>(an_pick(16, 28)); }
