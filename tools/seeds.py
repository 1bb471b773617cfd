"""(re)writes the planted bugs of seeded/ (development aid; see tools/mkseed.py for trying them)"""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import mk
V = 'core/ds/array/Vector.hpp'; DQ = 'core/ds/queue/DoubleEndedQueue.hpp'; H = 'core/ds/Heap.hpp'; AV = 'core/ds/tree/AVLTree.hpp'; BS = 'core/ds/tree/BinarySearchTree.hpp'; EB = 'core/ds/tree/EmbeddedBinaryTree.hpp'
SM = 'memory/StaticMemAllocator.hpp'; DS = 'core/ds/set/DisjointSet.hpp'; XV = 'core/ds/stack/XValueStack.hpp'; SL = 'core/ds/linked-list/SinglyLinkedList.hpp'; DL = 'core/ds/linked-list/DoublyLinkedList.hpp'; LL = 'core/ds/linked-list/LinkedList.hpp'
ST = 'core/ds/string/BasicString.hpp'; BT = 'core/ds/tree/BinaryTree.hpp'; MP = 'core/ds/Map.hpp'; EL = 'core/ds/linked-list/EmbeddedList.hpp'; UT = 'core/utils.hpp'; AR = 'core/ds/array/Array.hpp'; SK = 'core/ds/stack/Stack.hpp'; SP = 'port/static-memory/sma-dstruct-port.hpp'
HD = '''#include <cstdlib>
#include <cstdio>
#include <vector>
#include <deque>
#include <set>
#include <string>
#include <algorithm>
#include <dstruct.hpp>
#define CHECK(c) do { if (!(c)) { printf("FAILED %s (line %d)\\n", #c, __LINE__); return 1; } } while (0)
struct P { int v; static int live; P(int x = 0) : v(x) { live++; } P(const P &o) : v(o.v) { live++; o.use(); magic = 77; } P &operator=(const P &o) { use(); o.use(); v = o.v; return *this; } ~P() { use(); magic = 0; live--; }
  int magic = 77; void use() const { if (magic != 77) { printf("dead object used\\n"); exit(2); } } bool operator==(const P &o) const { return v == o.v; } bool operator<(const P &o) const { return v < o.v; } bool operator>(const P &o) const { return v > o.v; } };
int P::live = 0;
static unsigned rs = 1; static unsigned rnd() { rs = rs * 1103515245u + 12345u; return rs >> 16; }
'''
mk('dq_front_destroy', 'C02', [(DQ, '''        dstruct::destroy(&(*(mBegin_d)));
        mBegin_d++;
        mSize_d--;''', '''        mBegin_d++;
        mSize_d--;
        if (mSize_d) dstruct::destroy(&(*(mBegin_d)));''')], HD + '''int main() { { dstruct::Deque<P> d; for (int i = 0; i < 5; i++) d.push_back(P(i)); d.pop_front(); d.pop_front(); } CHECK(P::live == 0); return 0; }''', 'elements with a destructor, popped at the front', 'the wrong element object is destroyed')
mk('bst_move_size', 'C05', [(BS, '''        ds.mRootPtr_d = nullptr;
        ds.mSize_d = 0;
''', '''        ds.mRootPtr_d = nullptr;
''')], HD + '''int main() { dstruct::BSTree<int> a; for (int i = 0; i < 4; i++) a.push(i * 7 % 5); dstruct::BSTree<int> b(dstruct::move(a)); CHECK(b.size() == 4); CHECK(a.empty() && a.size() == 0); a.push(3); CHECK(a.size() == 1); return 0; }''', 'asking a moved-from search tree for its size', 'a moved-from search tree still claims to hold elements')
mk('sl_tail_pop', 'C08', [(SL, '''        if (mSize_d == 0)
            mTailNodePtr_d = &mHeadNode_d;
    }

    void clear''', '''    }

    void clear'''),], HD + '''int main() { dstruct::SinglyLinkedList<int> l; l.push_back(1); l.push_back(2); l.pop_front(); l.pop_front(); l.push_back(9); CHECK(l.size() == 1); CHECK(l.front() == 9 && l.back() == 9); return 0; }''', 'a list emptied by pop_front, then push_back', 'the tail still points at the node that was freed')
mk('dl_postdec', 'C09', [(DL, '''        _sync(mLinkPtr_d->prev);
        return oldLinkPtr;''', '''        _sync(mLinkPtr_d->prev);
        return mLinkPtr_d;''')], HD + '''int main() { dstruct::DoublyLinkedList<int> l; for (int i = 0; i < 4; i++) l.push_back(i); auto it = l.end(); it--; auto o = it--; CHECK(*o == 3); CHECK(*it == 2); return 0; }''', 'the value of a post-decrement', 'post-decrement returns the new position')
mk('dq_begin_follow', 'C11', [(DQ, '''            if (mBegin_d.mCurr_d == mArrMapTable_d[newArrEndIndex]->end()) {
                mBegin_d = mEnd_d;
            }''', '''''')], HD + '''template <int B> int go(unsigned seed) { rs = seed; dstruct::DoubleEndedQueue<int, B> d; std::deque<int> m; for (int k = 0; k < 3000; k++) { unsigned r = rnd() % 100; unsigned bias = (k / 60) % 2 ? 30 : 70;
  if (m.empty() || r < bias) { int x = rnd(); if (rnd() % 2) { d.push_back(x); m.push_back(x); } else { d.push_front(x); m.push_front(x); } } else if (rnd() % 2) { d.pop_back(); m.pop_back(); } else { d.pop_front(); m.pop_front(); }
  CHECK(d.size() == m.size()); if (!m.empty()) { CHECK(d.front() == m.front()); CHECK(d.back() == m.back()); } size_t i = 0; for (auto &x : d) { CHECK(i < m.size() && x == m[i]); i++; } CHECK(i == m.size()); } return 0; }
int main() { for (int s = 1; s < 40; s++) { if (go<1>(s) || go<2>(s) || go<3>(s) || go<4>(s)) return 1; } return 0; }''', 'an empty deque whose position is at the end of the last kept block when its table shrinks', 'front iterator left at the end of a block')
mk('xvs_strict', 'C13', [(XV, '''        T data = mStack_d.top(); mStack_d.pop();
        if (mXValue_d == data) {''', '''        T data = mStack_d.top(); mStack_d.pop();
        if (!mCmp_d(mXValue_d, data) && !mStack_d.empty() && mStack_d.top() != data) {''')], HD + '''int main() { dstruct::MinStack<int> s; std::vector<int> m; rs = 3; for (int k = 0; k < 20000; k++) { if (m.empty() || rnd() % 100 < 52) { int x = rnd() % 6; s.push(x); m.push_back(x); } else { s.pop(); m.pop_back(); } CHECK(s.empty() == m.empty()); if (!m.empty()) { CHECK(s.top() == m.back()); CHECK(s.getXValue() == *std::min_element(m.begin(), m.end())); } } return 0; }''', 'the extreme pushed twice in a row, both popped', 'the earlier extreme is not restored when the saved value equals the popped one')
mk('heap_down_right', 'C14', [(H, '''right < heapSize && !mCmp_d(mHeap_d[target], mHeap_d[right])''', '''right < heapSize - (target == left) && !mCmp_d(mHeap_d[target], mHeap_d[right])''')], HD + '''int main() { rs = 5; for (int t = 0; t < 300; t++) { dstruct::MaxHeap<int> h; std::multiset<int> m; for (int k = 0; k < 60; k++) { if (m.empty() || rnd() % 100 < 55) { int x = rnd() % 50; h.push(x); m.insert(x); } else { h.pop(); m.erase(--m.end()); } CHECK(h.size() == m.size()); if (!m.empty()) CHECK(h.top() == *m.rbegin()); } } return 0; }''', 'a pop in which the right child, last in the heap, is the better of two better children', 'the heap order is broken below the top')
mk('heap_build_last', 'C15', [(H, 'for (int i = (mHeap_d.size() - 1) / 2; i >= 1; i--)', 'for (int i = (mHeap_d.size() - 2) / 2; i >= 1; i--)')], HD + '''#include <algorithm>
int main() { rs = 5; for (int n = 1; n < 12; n++) for (int t = 0; t < 200; t++) { dstruct::Vector<int> v; std::vector<int> m; for (int k = 0; k < n; k++) { int x = rnd() % 9; v.push_back(x); m.push_back(x); } dstruct::MinHeap<int>::sort(v.begin(), v.end()); std::sort(m.begin(), m.end()); for (int k = 0; k < n; k++) CHECK(v[k] == m[k]); } return 0; }''', 'a range of even length whose last element is the extreme', 'the last parent is not sifted when building the heap')
mk('bst_erase_parent', 'C16', [(BS, '''        if (subTree)
            subTree->parent = linkPtr->parent;
''', '''        if (subTree && linkPtr->parent)
            subTree->parent = linkPtr->parent->parent ? linkPtr->parent : subTree->parent;
''')], HD + '''int main() { for (int t = 1; t < 200; t++) { rs = t; dstruct::BSTree<int> b; std::set<int> m; for (int k = 0; k < 60; k++) { int x = rnd() % 20; if (rnd() % 2) { b.push(x); m.insert(x); } else { b.pop(x); m.erase(x); } CHECK(b.size() == m.size()); auto it = m.begin(); int steps = 0; for (auto &y : b) { CHECK(it != m.end() && y == *it); ++it; CHECK(++steps < 100); } CHECK(it == m.end()); } } return 0; }''', 'removal of a child of the root that has one subtree', 'the subtree keeps its parent link to the removed node')
mk('avl_double_rot', 'C18', [(AV, 'if (_balance_factor(root->right) > 0) {', 'if (_balance_factor(root->right) >= 0) {')], HD + '''static int maxh(int n) { int h = 0; long a = 0, b = 1; while (b <= n) { long c = a + b + 1; a = b; b = c; h++; } return h; }
int main() { for (int t = 1; t < 400; t++) { rs = t; dstruct::AVLTree<int, dstruct::less<int>, dstruct::Alloc> b; std::set<int> m; for (int k = 0; k < 120; k++) { int x = rnd() % 40; if (!m.count(x) && rnd() % 100 < 60) { b.push(x); m.insert(x); } else if (m.count(x)) { b.pop(x); m.erase(x); } int n = m.size(), lo = 0; while ((1 << lo) - 1 < n) lo++; CHECK(b.height() >= lo && b.height() <= maxh(n)); } } return 0; }''', 'a removal that leaves the right subtree two higher with that subtree perfectly balanced', 'a double rotation where a single one is needed leaves the tree unbalanced')
mk('avl_del_height', 'C18', [(AV, '''                    parent->right = child;
                }
                _update_height(parent);
''', '''                    parent->right = child;
                }
''')], HD + '''int main() { dstruct::AVLTree<int, dstruct::less<int>, dstruct::Alloc> b; b.push(5); b.push(3); b.push(8); b.push(9); CHECK(b.height() == 3); b.erase(b.find(8)); CHECK(b.size() == 3); CHECK(b.height() == 2); return 0; }''', 'erasing through an iterator a child that has one subtree', 'the parent keeps its old height')
mk('postorder_descent', 'C20', [(EB, '''        while (link->left != nullptr || link->right != nullptr) {
            if (link->left != nullptr) {
                link = link->left;
            } else {
                link = link->right;
            }
        }
        return link;''', '''        while (link->left != nullptr) {
            link = link->left;
        }
        return link;''')], HD + '''int main() { dstruct::BSTree<int> b; int a[] = {5, 2, 7, 9}; for (int x : a) b.push(x); std::vector<int> o; b.traversal([&](const int &x) { o.push_back(x); }, dstruct::BSTree<int>::PostOrder); std::vector<int> p; for (auto it = b.begin(dstruct::BSTree<int>::PostOrder); it != b.end(dstruct::BSTree<int>::PostOrder); it++) p.push_back(*it); CHECK(o == p); CHECK(p.size() == 4); return 0; }''', 'a post-order iteration over a right subtree whose leftmost node has a right child', 'nodes are skipped')
mk('uf_count_rank', 'C21', [(DS, '            if (v < 0)', '            if (v == -1)')], HD + '''int main() { dstruct::UFSet u(4); u.connect(2, 1); CHECK(u.count() == 3); u.connect(3, 2); CHECK(u.connected(1, 3)); CHECK(u.count() == 2); return 0; }''', 'a union that raises the rank', 'a class whose representative has a raised rank is not counted')
mk('str_reserve', 'C23', [(ST, 'mCharList_d.resize(mCharList_d.size() + str.mCharList_d.size() - 1);', 'mCharList_d.resize(15 + 2 * str.mCharList_d.size());')], HD + '''int main() { dstruct::String s; std::string m; for (int i = 0; i < 30; i++) { s.push_back('a' + i % 26); m.push_back('a' + i % 26); } while (s.capacity() > s.size() + 1) { s.push_back('x'); m.push_back('x'); } s += "yz"; m += "yz"; CHECK(s.size() == m.size()); CHECK(m == s.c_str()); return 0; }''', 'appending a short string to a long one without spare room', 'the long string is cut')
mk('str_clear_keep', 'C22', [(ST, '''        mCharList_d.clear();
        mCharList_d.push_back('\\0');
        mCharList_d.resize(15);''', '''        mCharList_d.resize(1);
        mCharList_d.resize(15);''')], HD + '''int main() { dstruct::String s("hello"); s.clear(); CHECK(s.size() == 0); CHECK(std::string(s.c_str()).empty()); s.push_back('q'); CHECK(std::string("q") == s.c_str()); return 0; }''', 'looking at a cleared string through c_str', 'the first old character stays in place of the terminating NUL')
mk('sma_neg_fragment', 'C24', [(SM, '''        while (preLinkPtr->next != nullptr) { // FFMA - First Fit
            targetMemBlockPtr = MemBlock_e::to_node(preLinkPtr->next);
            if (targetMemBlockPtr->data >= bytes)
                break;''', '''        while (preLinkPtr->next != nullptr) { // FFMA - First Fit
            targetMemBlockPtr = MemBlock_e::to_node(preLinkPtr->next);
            if (targetMemBlockPtr->data >= bytes || targetMemBlockPtr->data + SMA_MEM_ALIGN == bytes)
                break;''')], HD + '''#include <memory/StaticMemAllocator.hpp>
using A = dstruct::StaticMemAllocator<1024>; int main() { char *a = (char *) A::allocate(200), *b = (char *) A::allocate(200); CHECK(a && b); A::deallocate(a, 200); char *e = (char *) A::allocate(208); CHECK(e != nullptr); CHECK(e + 208 <= b || b + 200 <= e); return 0; }''', 'a pool block exactly eight bytes smaller than the request', 'the block handed out overlaps the one after it')
mk('sma_account_raw', 'C25', [(SM, '        mFreeMemSize_d += MEM_ALIGN_ROUND_UP(bytes);', '        mFreeMemSize_d += bytes > MAX_BLOCK_SIZE ? bytes : MEM_ALIGN_ROUND_UP(bytes);')], HD + '''#include <memory/StaticMemAllocator.hpp>
using A = dstruct::StaticMemAllocator<1024>; int main() { void *a = A::allocate(205); CHECK(a); A::deallocate(a, 205); CHECK(A::free_mem_size() == 1024); return 0; }''', 'returning a pool block whose size is not a multiple of eight', 'the free size drifts')
mk('sma_max_first', 'C25', [(SM, 'if (maxSize < mbPtr->data) maxSize = mbPtr->data;', 'if (maxSize == 0 || linkPtr->next == nullptr) maxSize = mbPtr->data;')], HD + '''#include <memory/StaticMemAllocator.hpp>
using A = dstruct::StaticMemAllocator<4096>; int main() { void *a = A::allocate(200), *b = A::allocate(8), *c = A::allocate(600), *d = A::allocate(8), *e = A::allocate(304), *f = A::allocate(4096 - 1120); CHECK(a && b && c && d && e && f); A::deallocate(a, 200); A::deallocate(c, 600); A::deallocate(e, 304); CHECK(A::max_free_mblock_size() == 600); return 0; }''', 'three pool blocks, the largest in the middle', 'max_free_mblock_size reports a smaller block')
mk('sma_merge_range', 'C26', [(SM, '''            if (SMA_ADDRESS_EQUAL(reinterpret_cast<char *>(mbPtr) + mbPtr->data, next)) {''', '''            if (next != nullptr && reinterpret_cast<char *>(mbPtr) + mbPtr->data + SMA_MEM_ALIGN >= reinterpret_cast<char *>(next)) {''')], HD + '''#include <memory/StaticMemAllocator.hpp>
using A = dstruct::StaticMemAllocator<1024>; int main() { char *a = (char *) A::allocate(200), *b = (char *) A::allocate(8), *c = (char *) A::allocate(816); CHECK(a && b && c); A::deallocate(a, 200); A::deallocate(c, 816); A::memory_merge(); A::memory_merge(); char *p = (char *) A::allocate(816); CHECK(p == c); char *q = (char *) A::allocate(200); CHECK(q == a); return 0; }''', 'two pool blocks with one eight-byte block in use between them', 'memory in use is joined into the free block')
mk('sma_merge_stop', 'C35', [(SM, '''                mbPtr->data += next->data;
                mbPtr->link.next = next->link.next;
''', '''                mbPtr->data += next->data;
                mbPtr->link.next = next->link.next;
                mbPtr = MemBlock_e::to_node(mbPtr->link.next);
''')], HD + '''#include <memory/StaticMemAllocator.hpp>
using A = dstruct::StaticMemAllocator<1024>; int main() { void *p[4]; for (int i = 0; i < 4; i++) { p[i] = A::allocate(256); CHECK(p[i]); } for (int i = 0; i < 4; i++) A::deallocate(p[i], 256); A::memory_merge(); CHECK(A::free_mem_size() == 1024); CHECK(A::allocate(1024) != nullptr); return 0; }''', 'three or more pool blocks in a row', 'a merged block is not joined with the one after it')
mk('bt_alloc', 'C27', [(BT, '    using AllocNode_ = AllocSpec<Node_, Alloc>;', '    using AllocNode_ = AllocSpec<Node_, dstruct::Alloc>;')], HD + '''struct MyAlloc { static int n; static void *allocate(int b) { n++; return malloc(b); } static void deallocate(void *p, int) { n--; free(p); } }; int MyAlloc::n = 0;
int main() { dstruct::tree::BinarySearchTree<int, dstruct::less<int>, MyAlloc> b; b.push(3); b.push(4); CHECK(MyAlloc::n == 2); b.clear(); CHECK(MyAlloc::n == 0); return 0; }''', 'a tree with an allocator of its own', 'nodes come from the default allocator')
mk('str_strcmp', 'C28', [(ST, '''operator+=(const char * str) {
        return *this += BasicString(str);''', '''operator+=(const char * str) {
        const size_t n = __builtin_strlen(str);
        if (n == 0) return *this;
        return *this += BasicString(str);''')], None, 'an appended C string', 'the string needs the C library', '''#!/bin/bash
# a string user compiled for a bare target may need nothing but the port
R=$PWD; T=$(mktemp -d); trap 'find "$T" -delete' EXIT
printf '#include <dstruct.hpp>\\ndstruct::String *s; void f(const char *c) { *s += c; }\\n' > $T/a.cpp
g++ -std=c++11 -w -O0 -fno-exceptions -I"$R" -c $T/a.cpp -o $T/a.o || exit 3
nm -u $T/a.o | awk '{print $2}' | grep -E '^str' && exit 1
exit 0
''')
mk('avl_iter_const', 'C29', [(AV, 'class AVLTreeIterator_ :  public DStructIteratorTypeSpec<const T> {', 'class AVLTreeIterator_ :  public DStructIteratorTypeSpec<T> {')], None, 'assigning to an element of an AVL tree through an iterator', 'the order of the tree can be destroyed', '''#!/bin/bash
# assigning to an element through an iterator of an AVL tree must not compile; reading must
R=$PWD; T=$(mktemp -d); trap 'find "$T" -delete' EXIT
printf '#include <dstruct.hpp>\\nint f(dstruct::AVLTree<int, dstruct::less<int>, dstruct::Alloc> &t) { return *t.begin(); }\\n' > $T/a.cpp
printf '#include <dstruct.hpp>\\nvoid f(dstruct::AVLTree<int, dstruct::less<int>, dstruct::Alloc> &t) { *t.begin() = 3; }\\n' > $T/b.cpp
g++ -std=c++11 -w -fsyntax-only -I"$R" $T/a.cpp || exit 3
g++ -std=c++11 -w -fsyntax-only -I"$R" $T/b.cpp 2>/dev/null && exit 1
exit 0
''')
mk('uf_count_const', 'C29', [(DS, '    SizeType count() const {', '    SizeType count() {')], None, 'counting the classes of a const UFSet', 'an observer is no longer usable on a const container', '''#!/bin/bash
R=$PWD; T=$(mktemp -d); trap 'find "$T" -delete' EXIT
printf '#include <dstruct.hpp>\\nint f(const dstruct::UFSet &u) { return u.count(); }\\n' > $T/a.cpp
g++ -std=c++11 -w -fsyntax-only -I"$R" $T/a.cpp || exit 1
exit 0
''')
mk('heap_cap', 'C30', [(H, '''        return mHeap_d.capacity() - 1;''', '''        return mHeap_d.reserved() - 1;''')], HD + '''int main() { dstruct::MaxHeap<int> h; h.push(1); CHECK(h.capacity() >= 1); return 0; }''', 'calling capacity of a heap', 'the operation does not compile when used')
mk('vec_index_guard', 'C31', [(V, '''    ConstReferenceType operator[](int index) const {
        if (index < 0)
            index = mSize_d + index;
        DSTRUCT_ASSERT(index < static_cast<int>(mSize_d));''', '''    ConstReferenceType operator[](int index) const {
        if (index < 0)
            index = mSize_d + index;
        DSTRUCT_ASSERT(index < static_cast<int>(mCapacity_d));''')], HD + '''#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
int main() { dstruct::Vector<int> v; for (int i = 0; i < 5; i++) v.push_back(i); const dstruct::Vector<int> &c = v; CHECK(c[4] == 4); fflush(stdout); pid_t p = fork(); if (!p) { fclose(stderr); volatile int x = c[5]; _exit(0); } int st; waitpid(p, &st, 0); CHECK(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT); return 0; }''', 'reading between size and capacity of a const vector', 'a read past the end goes unnoticed')
mk('swap_static', 'C36', [(UT, '''    T c = dstruct::move(a);
    a = dstruct::move(b);''', '''    static T c = dstruct::move(a);
    c = dstruct::move(a);
    a = dstruct::move(b);''')], HD + '''#include <thread>
#include <atomic>
std::atomic<int> stage(0); thread_local bool slow = false;
struct Q { int v; Q(int x = 0) : v(x) {} Q(const Q &) = default; Q &operator=(const Q &o) { int x = o.v; if (slow) { slow = false; v = x; stage = 1; for (int i = 0; i < 4000 && stage != 2; i++) std::this_thread::sleep_for(std::chrono::milliseconds(1)); return *this; } v = x; return *this; } };
int main() { int bad = 0; for (int skip = 0; skip < 3; skip++) { stage = 0; Q a(1), b(2), c(3), d(4); { Q x(5), y(6); dstruct::swap(x, y); }
  std::thread t([&] { slow = true; dstruct::swap(a, b); }); while (stage != 1) std::this_thread::sleep_for(std::chrono::milliseconds(1)); dstruct::swap(c, d); stage = 2; t.join(); if (a.v != 2 || b.v != 1 || c.v != 4 || d.v != 3) bad = 1; } CHECK(!bad); return 0; }''', 'two threads in swap at once', 'a temporary shared by all threads')
mk('dq_shrink_half', 'C34', [(DQ, '''        mEnd_d--;
        mSize_d--;
        dstruct::destroy(mEnd_d.operator->());
        if (mSize_d <= mCapacity_d / 3 && mArrMapTable_d.capacity() > MIN_MAP_TABLE_SIZE) {''', '''        mEnd_d--;
        mSize_d--;
        dstruct::destroy(mEnd_d.operator->());
        if (mSize_d < mCapacity_d / (4 * ARR_SIZE) && mArrMapTable_d.capacity() > MIN_MAP_TABLE_SIZE) {''')], HD + '''struct MyAlloc { static long n; static void *allocate(int b) { n += b; return malloc(b); } static void deallocate(void *p, int b) { n -= b; free(p); } }; long MyAlloc::n = 0;
int main() { dstruct::DoubleEndedQueue<long, 8, MyAlloc> d; for (int i = 0; i < 4000; i++) d.push_back(i); for (int i = 0; i < 3800; i++) d.pop_back(); CHECK(d.size() == 200); CHECK(d.capacity() <= 200 * 12); return 0; }''', 'a deque drained from the back', 'blocks are kept long after they are needed')
mk('xvs_assign', 'C04', [(XV, '''        this->mXValue_d = ds.mXValue_d;
        this->mCmp_d = ds.mCmp_d;
        this->mStack_d = ds.mStack_d;''', '''        if (this->mStack_d.empty()) this->mXValue_d = ds.mXValue_d;
        this->mCmp_d = ds.mCmp_d;
        this->mStack_d = ds.mStack_d;''')], HD + '''int main() { dstruct::MinStack<int> a, b; a.push(5); a.push(3); b.push(9); b.push(1); b = a; CHECK(b.top() == 3); CHECK(b.getXValue() == 3); b.pop(); CHECK(b.getXValue() == 5); return 0; }''', 'assigning to a Min/MaxStack that already holds elements', 'the extreme of the old contents is kept')
AVLH = HD + '''int main() { for (int t = 1; t < 100; t++) { rs = t; dstruct::AVLTree<int, dstruct::less<int>, dstruct::Alloc> b; std::set<int> m; for (int k = 0; k < 80; k++) { int x = rnd() % 24; if (!m.count(x) && rnd() % 3) { b.push(x); m.insert(x); } else { b.pop(x); m.erase(x); } CHECK(b.size() == m.size()); auto it = m.begin(); int steps = 0; for (auto y = b.begin(); y != b.end(); y++) { CHECK(it != m.end() && *y == *it); ++it; CHECK(++steps < 100); } CHECK(it == m.end()); } } return 0; }'''
mk('avl_swap_parent', 'C17', [(AV, '''                if (aLeft) aLeft->parent = b;   // 6
''', '''''')], AVLH, 'removing a node with two children whose right child is its in-order successor', 'a stale parent link, followed by in-order iteration')
mk('avl_swap_parent2', 'C17', [(AV, '''            if (aLeft) aLeft->parent = b;
            if (aRight)''', '''            if (aRight)''')], AVLH, 'removing a node whose in-order successor lies deeper in its right subtree', 'a stale parent link, followed by in-order iteration')
mk('elist_empty', 'C10', [(EL, '''    static bool empty(DoublyLink_ *link) {
        return link->next == link;''', '''    static bool empty(DoublyLink_ *link) {
        return link->next == link->prev;''')], HD + '''using L = dstruct::DoublyLink_; int main() { L h, a; L::init(&h); CHECK(L::empty(&h)); L::add(&h, &a); CHECK(!L::empty(&h)); L::del(&h, &a); CHECK(L::empty(&h)); return 0; }''', 'an intrusive list holding exactly one node', 'the list is reported empty')
mk('map_find_bound', 'C19', [('core/ds/tree/BinarySearchTreeBase.hpp', '''            if (cmp(obj, Node::to_node(target)->data)) {
                target = target->left;
            } else if (cmp(Node::to_node(target)->data, obj)) {
                target = target->right;
            } else {
                break;
            }''', '''            if (cmp(obj, Node::to_node(target)->data)) {
                if (target->left == nullptr && target->parent != nullptr && target->parent->right == target && target->right != nullptr) break;
                target = target->left;
            } else if (cmp(Node::to_node(target)->data, obj)) {
                target = target->right;
            } else {
                break;
            }''')], HD + '''int main() { dstruct::Map<int, int> m; m[1] = 10; m[5] = 50; m[7] = 70; m[3] = 30; m[9] = 90; CHECK(m.find(6) == m.end()); CHECK(m[6] == 0); CHECK(m.size() == 6); return 0; }''', 'looking for an absent key whose place is the empty left of a right child with a right child', 'another key is found')
