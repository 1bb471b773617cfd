// Shared by every driver translation unit. Nothing here is ever executed: the units are
// only compiled to LLVM IR, which /verif/engine interprets abstractly.
#pragma once
#include <dstruct.hpp>
// opaque element: every operation on it is an event the analyser sees
struct Elem {
    long v[3];
    Elem(); Elem(const Elem &); Elem(Elem &&) noexcept;
    Elem & operator=(const Elem &); Elem & operator=(Elem &&) noexcept;
    ~Elem();
    bool operator<(const Elem &) const; bool operator>(const Elem &) const; bool operator==(const Elem &) const;
    bool operator!=(const Elem &o) const { return !(*this == o); } bool operator<=(const Elem &o) const { return !(o < *this); } bool operator>=(const Elem &o) const { return !(*this < o); }
};
// opaque allocator: allocation and deallocation are ledger events
struct TA { static void *allocate(int bytes); static void deallocate(void *p, int bytes); };
struct TB { static void *allocate(int bytes); static void deallocate(void *p, int bytes); };
#define API extern "C"
