// Modes: -DM_DEFAULT (default port) | -DM_SMAPORT -DENABLE_SMA (static-memory port) | -DM_USER (user allocator TA) | -DM_STATIC (dstruct-static.hpp aliases)
// Element kinds: -DT_ELEM (opaque non-trivial) | -DT_INT | -DT_PTR
#ifdef M_STATIC
#include <dstruct-static.hpp>
#else
#include <dstruct.hpp>
#endif
struct Elem {
    long v[3];
    Elem(); Elem(const Elem &); Elem(Elem &&) noexcept;
    Elem & operator=(const Elem &); Elem & operator=(Elem &&) noexcept;
    ~Elem();
    bool operator<(const Elem &) const; bool operator>(const Elem &) const; bool operator==(const Elem &) const;
    bool operator!=(const Elem &o) const { return !(*this == o); } bool operator<=(const Elem &o) const { return !(o < *this); } bool operator>=(const Elem &o) const { return !(*this < o); }
};
struct TA { static void *allocate(int bytes); static void deallocate(void *p, int bytes); };
template <class V> struct V_alloc;
template <class V, class T> struct V_cb { typedef T D; };
#if defined M_STATIC
namespace ns = dstruct::smemory;
typedef ns::SMA UA;
#elif defined M_USER
namespace ns = dstruct;
typedef TA UA;
#else
namespace ns = dstruct;
typedef dstruct::Alloc UA;
#endif
template <class T, class C> struct V_alloc<dstruct::Heap<T, C, UA>> { typedef UA A; };
#include "api_uses.hpp"
#ifdef T_ELEM
typedef Elem TT;
#elif defined T_PTR
typedef int *TT;
#else
typedef int TT;
#endif
#if !defined M_STATIC
template <class T, class C, class A> struct V_cb<dstruct::AVLTree<T, C, A>, T> { typedef dstruct::AVLData_<T> D; };
#endif
#if defined M_USER
#define A1(X) X<TT, TA>
#define A2(X, B) X<TT, B, TA>
#define STR dstruct::BasicString<char, TA>
#define UF dstruct::DisjointSet<TA>
#else
#define A1(X) ns::X<TT>
#define A2(X, B) ns::X<TT, B>
#define STR ns::String
#define UF ns::UFSet
#endif
#if defined M_USER
using namespace dstruct;
#endif
#define U(F, ...) { typedef __VA_ARGS__ V; use_##F<V, TT>(lv<V>(), lv<const V>(), lv<const TT>(), lv<TT>()); }
extern "C" void use_all() {
    typedef TT T;
    U(Vector, A1(Vector)) U(Array, ns::Array<T, 5>) U(Array, ns::Array<T, 1>)
    U(SList, A1(SLinkedList)) U(DList, A1(DLinkedList))
    U(Deque, A2(Deque, 5)) U(Deque, A2(Deque, 1)) U(Deque, A2(Deque, 32)) U(Queue, A1(Queue))
    U(Stack, A1(Stack)) U(XStack, A1(MinStack)) U(XStack, A1(MaxStack))
    U(Heap, A1(MinHeap)) U(Heap, A1(MaxHeap)) 
#if defined M_USER
    U(Heap, dstruct::PriorityQueue<T, dstruct::less<T>, TA>)
#else
    U(Heap, A1(PriorityQueue))
#endif
    U(Tree, A1(BSTree))
#if !defined M_STATIC
    U(Tree, dstruct::AVLTree<T, dstruct::less<T>, UA>)
    { typedef dstruct::Map<T, T, dstruct::less<T>, dstruct::AVLTree<dstruct::KeyValue<const T, T>, dstruct::KVCMPKey<dstruct::KeyValue<const T, T>, dstruct::less<T>>, UA>> V;
      use_Map<V, T>(lv<V>(), lv<const V>(), lv<const T>(), lv<T>()); }
#if defined M_DEFAULT
    U(Map, dstruct::Map<T, T>)
#endif
    use_algo(lv<dstruct::AVLTree<T, dstruct::less<T>, UA>>().begin(), lv<dstruct::AVLTree<T, dstruct::less<T>, UA>>().end(), lv<T>());
#endif
    { typedef UF V; use_UFSet<V>(lv<V>(), lv<const V>()); }
    { typedef STR V; use_String<V>(lv<V>(), lv<const V>()); }
    { typedef ns::EListNode<T> V; use_ENode<V>(lv<V>(), lv<V>()); }
    { typedef ns::EListNode<T, dstruct::SinglyLink_> V; use_ENode<V>(lv<V>(), lv<V>()); }
    sink(lv<ns::EBinaryTreeNode<T>>().data); 
#define AL(...) { typedef __VA_ARGS__ V; use_algo(lv<V>().begin(), lv<V>().end(), lv<T>()); use_algo(lv<const V>().begin(), lv<const V>().end(), lv<T>()); }
    AL(A1(Vector)) AL(ns::Array<T, 5>) AL(A1(SLinkedList)) AL(A1(DLinkedList)) AL(A1(Queue)) AL(A1(Stack)) AL(A1(BSTree)) AL(A1(MinHeap))
    sink(dstruct::less<T>()(lv<T>(), lv<T>())); sink(dstruct::greater<T>()(lv<T>(), lv<T>()));
    sink(dstruct::max(lv<int>(), lv<int>())); sink(dstruct::abs(lv<int>())); dstruct::swap(lv<T>(), lv<T>());
    dstruct::construct(lv<void *>(), lv<T>()); dstruct::destroy(&lv<T>());
}
#if defined M_STATIC || defined M_SMAPORT
extern "C" void use_sma() {
    typedef dstruct::StaticMemAllocator<4096> S; void *p = S::allocate(10); sink(S::deallocate(p, 10)); sink(S::free_mem_size()); sink(S::max_free_mblock_size()); S::memory_merge(); S::dump(); sink(S::MEM_ALIGN_ROUND_UP(3));
}
#endif
