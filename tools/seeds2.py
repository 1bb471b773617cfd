"""a second batch of planted bugs (development aid; see seeds.py)"""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import mk
import re
src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds.py')).read(); exec(src[src.index('V = '):src.index("mk('dq_front")])
CA = '''struct CA { static long live, bytes; static void *allocate(int b) { live++; bytes += b; return malloc(b); } static void deallocate(void *p, int b) { live--; bytes -= b; free(p); } }; long CA::live = 0, CA::bytes = 0;
'''
DIR = '''struct Dir { bool down; Dir(bool d = false) : down(d) { } bool operator()(const int &a, const int &b) const { return down ? b < a : a < b; } };
'''
mk('bst_copy_cmp', 'C04', [(BS, '''        BinaryTree_e::mRootPtr_d = BinaryTree_e::copy(ds.mRootPtr_d);
        BinaryTree_e::mSize_d = ds.mSize_d;
        mCmp_d = ds.mCmp_d;
''', '''        BinaryTree_e::mRootPtr_d = BinaryTree_e::copy(ds.mRootPtr_d);
        BinaryTree_e::mSize_d = ds.mSize_d;
''')], HD + DIR + '''int main() { dstruct::tree::BinarySearchTree<int, Dir, dstruct::Alloc> a(Dir(true)); for (int i = 0; i < 9; i++) a.push(i * 5 % 9); dstruct::tree::BinarySearchTree<int, Dir, dstruct::Alloc> b(a); for (int i = 0; i < 9; i++) CHECK(b.find(i) != b.end()); return 0; }''', 'a copied tree whose comparator carries state', 'the copy forgets the ordering: its elements are no longer found')
mk('bst_move_cmp', 'C05', [(BS, '''        BinaryTree_e::mRootPtr_d = ds.mRootPtr_d;
        BinaryTree_e::mSize_d = ds.mSize_d;
        mCmp_d = ds.mCmp_d;
''', '''        BinaryTree_e::mRootPtr_d = ds.mRootPtr_d;
        BinaryTree_e::mSize_d = ds.mSize_d;
''')], HD + DIR + '''int main() { dstruct::tree::BinarySearchTree<int, Dir, dstruct::Alloc> a(Dir(true)); for (int i = 0; i < 9; i++) a.push(i * 5 % 9); dstruct::tree::BinarySearchTree<int, Dir, dstruct::Alloc> b(dstruct::move(a)); for (int i = 0; i < 9; i++) CHECK(b.find(i) != b.end()); return 0; }''', 'a moved tree whose comparator carries state', 'the target forgets the ordering')
mk('heap_copy_cmp', 'C04', [(H, '''        mCmp_d = hep.mCmp_d;
        mHeap_d = hep.mHeap_d;''', '''        mHeap_d = hep.mHeap_d;''')], HD + DIR + '''int main() { dstruct::Heap<int, Dir> a(Dir(true)); for (int i = 0; i < 9; i++) a.push(i * 5 % 9); dstruct::Heap<int, Dir> b(a); for (int i = 8; i >= 0; i--) { CHECK(b.top() == i); b.pop(); } return 0; }''', 'a copied heap whose comparator carries state', 'the copy is ordered differently')
mk('bst_find_cmp', 'C16', [(BS, '_find(Node_::to_link(BinaryTree_e::mRootPtr_d), obj, mCmp_d);', '_find(Node_::to_link(BinaryTree_e::mRootPtr_d), obj);')], HD + DIR + '''int main() { dstruct::tree::BinarySearchTree<int, Dir, dstruct::Alloc> a(Dir(true)); for (int i = 0; i < 9; i++) a.push(i * 5 % 9); for (int i = 0; i < 9; i++) CHECK(a.find(i) != a.end()); return 0; }''', 'a comparator that carries state', 'find searches in another order than push')
mk('str_push_alias', 'C06', [(ST, '''        mCharList_d[-1] = element;
        mCharList_d.push_back('\\0');
    }

    ReferenceType''', '''        mCharList_d.push_back('\\0');
        mCharList_d[-2] = element;
    }

    ReferenceType''')], HD + '''int main() { dstruct::String s("abc"); for (int i = 3; i < 200; i++) { s.push_back(s[i % 3]); CHECK(s[i] == "abc"[i % 3]); CHECK((int) s.size() == i + 1); } return 0; }''', 'pushing one of the string\'s own characters when it is full', 'a released character is read')
mk('heap_push_alias', 'C06', [(H, '''        mHeap_d.push_back(obj);
        _adjust_up();''', '''        if (mHeap_d.size() == mHeap_d.capacity())
            mHeap_d.resize(2 * mHeap_d.size());
        mHeap_d.push_back(obj);
        _adjust_up();''')], HD + '''int main() { dstruct::MaxHeap<int> h; h.push(7); for (int i = 0; i < 100; i++) { h.push(*h.begin()); CHECK(h.top() == 7); } int n = 0; for (auto x : h) n += x; CHECK(n == 707); return 0; }''', 'pushing the heap\'s own top when it is full', 'a released element is pushed')
mk('sl_popback_empty', 'C08', [(SL, '''        mTailNodePtr_d = Node_::to_node(link);
        mTailNodePtr_d->link.next = Node_::to_link(&mHeadNode_d);
    }''', '''        mTailNodePtr_d = Node_::to_node(link);
        if (mSize_d > 0)
            mTailNodePtr_d->link.next = Node_::to_link(&mHeadNode_d);
    }''')], HD + '''int main() { dstruct::SLinkedList<int> l; l.push_back(1); l._pop_back(); CHECK(l.empty()); CHECK(!(l.begin() != l.end())); l.push_front(4); CHECK(l.front() == 4 && l.back() == 4); int n = 0; for (auto x : l) n += x; CHECK(n == 4); return 0; }''', '_pop_back of the only element', 'the emptied list still leads to the removed node')
mk('dl_move_prev', 'C05', [(DL, '''        auto headLinkPtr = Node_::to_link(&mHeadNode_d);''', '''        auto headLinkPtr = mSize_d == 1 ? mHeadNode_d.link.prev->next : Node_::to_link(&mHeadNode_d);''')], HD + '''int main() { dstruct::DLinkedList<int> a; a.push_back(0); dstruct::DLinkedList<int> b(dstruct::move(a)); auto it = b.end(); for (int i = 0; i >= 0; i--) { --it; CHECK(*it == i); } for (int i = 0; i >= 0; i--) { CHECK(b.back() == i); b.pop_back(); } CHECK(b.size() == 0 && !(b.begin() != b.end())); CHECK(!(a.begin() != a.end())); b.push_back(9); CHECK(*b.begin() == 9 && b.size() == 1); return 0; }''', 'a list of exactly one element that is moved', 'the element leads back to the old list')
mk('dq_leak_last', 'C03', [(DQ, 'for (int i = 0; i < oldArrMapTable.capacity() ; i++) {', 'for (int i = 0; i <= oldArrEndIndex; i++) {')], HD + CA + '''int main() { { dstruct::Deque<int, 2, CA> d; for (int i = 0; i < 40; i++) d.push_front(i); while (d.size() > 3) d.pop_back(); for (int i = 0; i < 40; i++) d.push_front(i); } CHECK(CA::live == 0); return 0; }''', 'a deque growing at the front while blocks behind its end are unused', 'the unused blocks are never returned')
mk('dl_popback_order', 'C03', [(DL, '''        dstruct::destroy(nPtr);
        AllocNode_::deallocate(nPtr);
        mSize_d--;
    }

    void clear() {''', '''        AllocNode_::deallocate(nPtr);
        dstruct::destroy(nPtr);
        mSize_d--;
    }

    void clear() {''')], HD + '''int main() { dstruct::DLinkedList<P> l; l.push_back(P(1)); l.push_back(P(2)); l.pop_back(); CHECK(l.back().v == 1); return 0; }''', 'elements with a destructor, popped at the back', 'a destructor runs on returned storage')
mk('vec_resize_keep', 'C02', [(V, '''            for (int i = 0; i < mSize_d; i++) {
                if (i < n) // TODO: use move by check type-tag
                    dstruct::construct(mC_d + i, oldC[i]);
                dstruct::destroy(oldC + i);
            }
            Vector::Alloc_::deallocate(oldC, mCapacity_d);
        }

        mCapacity_d = n;''', '''            for (int i = 0; i < mSize_d && i < n; i++) {
                // TODO: use move by check type-tag
                dstruct::construct(mC_d + i, oldC[i]);
                dstruct::destroy(oldC + i);
            }
            Vector::Alloc_::deallocate(oldC, mCapacity_d);
        }

        mCapacity_d = n;''')], HD + '''int main() { { dstruct::Vector<P> v; for (int i = 0; i < 9; i++) v.push_back(P(i)); v.resize(4); CHECK(v.size() == 4); } CHECK(P::live == 0); return 0; }''', 'resize to fewer elements than are held', 'the cut-off elements are never destroyed')
mk('bst_pop_last', 'C16', [(BS, 'if (BinaryTree_e::mRootPtr_d != Node_::to_node(root)) {', 'if (root != nullptr && BinaryTree_e::mRootPtr_d != Node_::to_node(root)) {')], HD + '''int main() { dstruct::BSTree<int> t; t.push(3); t.pop(3); CHECK(t.empty()); CHECK(!(t.find(3) != t.end())); CHECK(!(t.begin() != t.end())); return 0; }''', 'looking into a tree whose last element has been popped', 'the emptied tree still leads to the removed node')
mk('avl_pop_height', 'C18', [(AV, '''        _update_height(root);

        return _check_and_balance(root);''', '''        return _check_and_balance(root);''')], HD + '''int main() { for (int n = 3; n < 40; n++) for (int k = 0; k < n; k++) { dstruct::AVLTree<int, dstruct::less<int>, dstruct::Alloc> t; for (int i = 0; i < n; i++) t.push(i); t.pop(k); int c = 0; struct R { static int h(dstruct::tree::BinaryTreeLink_ *l) { return dstruct::tree::height(l); } }; CHECK(t._get_root_ptr() == nullptr || t.height() == R::h(&t._get_root_ptr()->link)); } return 0; }''', 'a pop that lowers a subtree without a rotation', 'the heights above the removed node are stale')
mk('avl_rebalance_height', 'C18', [(AV, '''                    parent->right = newRoot;
                }
                _update_height(parent);''', '''                    parent->right = newRoot;
                }
                if (newRoot != root) _update_height(parent);''')], HD + '''static int rh(dstruct::tree::BinaryTreeLink_ *l) { return dstruct::tree::height(l); }
int main() { for (int n = 3; n < 40; n++) for (int k = 0; k < n; k++) { dstruct::AVLTree<int, dstruct::less<int>, dstruct::Alloc> t; for (int i = 0; i < n; i++) t.push(i); t.erase(t.find(k)); CHECK(t._get_root_ptr() == nullptr || t.height() == rh(&t._get_root_ptr()->link)); } return 0; }''', 'an erase that lowers a subtree two levels below the root without a rotation', 'the heights above stay stale')
mk('avl_push_lr', 'C18', [(AV, 'if (mCmp_d(Node_::to_node(root->left)->data.val, element)) { // LR: double-rotate', 'if (_balance_factor(root->left) < 0 && Node_::to_node(root->left)->link.left == nullptr) { // LR: double-rotate')], HD + '''static int rh(dstruct::tree::BinaryTreeLink_ *l) { if (!l) return 0; int a = rh(l->left), b = rh(l->right); if (a < 0 || b < 0 || a - b > 1 || b - a > 1) return -1; return (a > b ? a : b) + 1; }
int main() { rs = 3; for (int t = 0; t < 200; t++) { dstruct::AVLTree<int, dstruct::less<int>, dstruct::Alloc> a; std::set<int> m; for (int i = 0; i < 40; i++) { int x = rnd() % 1000; if (m.insert(x).second) a.push(x); CHECK(rh(&a._get_root_ptr()->link) > 0); } } return 0; }''', 'a left-right insertion above the lowest level', 'the tree is no longer balanced')
mk('str_plus_order', 'C23', [(ST, '''operator+(const char *s1, const BasicString<CharType, Alloc> s2) {
    return operator+(BasicString<CharType, Alloc>(s1), s2);''', '''operator+(const char *s1, const BasicString<CharType, Alloc> s2) {
    return operator+(s2, s1);''')], HD + '''int main() { dstruct::String s("cd"); dstruct::String t = "ab" + s; CHECK(std::string(t.c_str()) == "abcd"); return 0; }''', 'a C string plus a String', 'the halves are swapped')
mk('smaport_exact', 'C25', [(SP, '''        SMA_MEM_VERIFY(memPtr = DefaultSMA::allocate(bytes));''', '''        if (bytes < DefaultSMA::free_mem_size())
            SMA_MEM_VERIFY(memPtr = DefaultSMA::allocate(bytes));''')], '''#define ENABLE_SMA
''' + HD + '''int main() { int n = 1024 * 1024 / 2; void *a = dstruct::port::allocate(n), *b = dstruct::port::allocate(n); dstruct::port::deallocate(a, n); dstruct::port::deallocate(b, n); void *c = dstruct::port::allocate(2 * n); CHECK(c == a); return 0; }''', 'a request for exactly the free memory after everything was returned in pieces', 'null is handed out')
mk('sma_merge_index', 'C26', [(SM, 'INDEX_TO_SIZE_(i + j + 1)', 'INDEX_TO_SIZE_(dstruct::max(i + j + 1, 2 * i + 1) - (i + j + 1 >= MAX_BLOCK_SIZE / SMA_MEM_ALIGN))')], HD + '''int main() { using A = dstruct::StaticMemAllocator<4096, 128>; char *p = (char *) A::allocate(64), *q = (char *) A::allocate(128), *r = (char *) A::allocate(8); A::deallocate(p, 64); A::deallocate(q, 128); int f = A::free_mem_size(); A::memory_merge(); CHECK(A::free_mem_size() == f); void *x = A::allocate(192); CHECK(x == p); return 0; }''', 'two quick blocks that together are no quick block any more', 'eight bytes are lost')
mk('heap_alloc', 'C27', [(H, 'using Heap_ = dstruct::Vector<T, Alloc>;', 'using Heap_ = dstruct::Vector<T>;')], HD + CA + '''int main() { dstruct::MaxHeap<int, CA> h; h.push(1); CHECK(CA::live > 0); return 0; }''', 'a heap with an allocator of its own', 'the heap takes its memory elsewhere')
mk('static_deque', 'C27', [('dstruct-static.hpp', 'using Deque = DoubleEndedQueue<T, ArrSize, SMA>;', 'using Deque = DoubleEndedQueue<T, ArrSize>;')], '''#include <cstdio>
#include <dstruct-static.hpp>
int main() { using A = dstruct::smemory::SMA; int f = A::free_mem_size(); dstruct::smemory::Deque<int> d; d.push_back(1); if (A::free_mem_size() == f) { printf("heap used\\n"); return 1; } return 0; }''', 'the deque of the static namespace', 'it uses the heap')
mk('queue_front_ref', 'C29', [('core/ds/queue/Queue.hpp', '''    bool empty() const {
        return mDS_d.empty();''', '''    bool empty() {
        return mDS_d.empty();''')], None, 'asking a const Queue whether it is empty', 'an observer cannot be used on a const container', '''#!/bin/bash
cat > /tmp/qfr.$$.cpp <<'X'
#include <dstruct.hpp>
bool f(const dstruct::Queue<int> &v) { return v.empty(); }
int main() { return 0; }
X
g++ -std=c++11 -w -I. -fsyntax-only /tmp/qfr.$$.cpp 2> /dev/null; r=$?; find /tmp/qfr.$$.cpp -delete; exit $r
''')
mk('list_pop_empty', 'C31', [(LL, '''        DSTRUCT_ASSERT(mSize_d > 0);
        // 1. get target node's link''', '''        DSTRUCT_ASSERT(mHeadNode_d.link.next != nullptr);
        // 1. get target node's link''')], HD + '''#include <sys/wait.h>
#include <unistd.h>
int main() { pid_t p = fork(); if (!p) { freopen("/dev/null", "w", stderr); static dstruct::DLinkedList<int> t; t.pop(); _exit(0); } int s; waitpid(p, &s, 0); CHECK(WIFSIGNALED(s) && WTERMSIG(s) == 6); return 0; }''', 'pop of an empty list', 'the head inside the list object is destroyed and returned to the allocator')
mk('less_ptr', 'C33', [(UT, '''        if (b == nullptr) return false;
        if (a == nullptr) return true;
        return a < b;''', '''        if (a == nullptr) return true;
        if (b == nullptr) return false;
        return a < b;''')], HD + '''int main() { dstruct::less<int *> l; CHECK(!l(nullptr, nullptr)); return 0; }''', 'two null pointers', 'less is not irreflexive')
mk('vec_growth', 'C34', [(V, 'resize(2 * mSize_d);', 'resize(mSize_d + 16);')], HD + '''int main() { dstruct::Vector<int> v; long c = 0; for (int i = 0; i < 300; i++) { v.push_back(i); if ((long) v.capacity() != c) { CHECK((long) v.capacity() >= 2 * c); c = v.capacity(); } } return 0; }''', 'a vector beyond 16 elements', 'growth is no longer geometric')
mk('dq_growth', 'C37', [(DQ, '''        } else if (mBegin_d.mCurr_d == mArrMapTable_d[0]->begin()) {
            _resize(mCapacity_d * 2);''', '''        } else if (mBegin_d.mCurr_d == mArrMapTable_d[0]->begin()) {
            _resize(mCapacity_d + 2 * ARR_SIZE);''')], HD + CA + '''int main() { dstruct::Deque<int, 1, CA> d; long n = 0; unsigned long long c = 0; for (int i = 0; i < 4000; i++) { d.push_front(i); if (d.capacity() != c) n++, c = d.capacity(); } CHECK(n < 40); return 0; }''', 'many pushes at the front', 'each push copies the block table every few elements')
mk('dq_iter_cnt', 'C36', [(DQ, '''        static int cnt = 1;
        mCurr_d++;''', '''        static int cnt = 1; cnt++;
        mCurr_d++;''')], HD + '''#include <thread>
int main() { return 0; }''', 'iterating two deques in two threads', 'a data race', '''#!/bin/bash
D=$(cd "$(dirname "$0")"; pwd); T=$(mktemp -d); trap 'find "$T" -delete' EXIT
cat > $T/d.cpp <<'X'
#include <thread>
#include <dstruct.hpp>
static void f() { dstruct::Deque<int> d; for (int i = 0; i < 2000; i++) d.push_back(i); long s = 0; for (auto &x : d) s += x; }
int main() { std::thread a(f), b(f); a.join(); b.join(); }
X
g++ -std=c++11 -w -g -fsanitize=thread -I. $T/d.cpp -o $T/d -pthread || exit 3
cd $T; TSAN_OPTIONS=halt_on_error=1 timeout 100 setarch -R ./d
''')
mk('q_stack_clear', 'C12', [(SK, '''    void clear() {
        mDS_d.clear();''', '''    void clear() {
        while (mDS_d.size() > 1) mDS_d.pop_back();''')], HD + '''int main() { dstruct::Stack<int> s; s.push(1); s.push(2); s.clear(); CHECK(s.empty()); return 0; }''', 'clearing a stack', 'one element stays')
mk('dq_back_neg', 'C11', [(DQ, '''        if (index < 0)
            return *(mEnd_d + index);
        return *(mBegin_d + index);''', '''        if (index < 0)
            return *(mBegin_d + (static_cast<int>(mCapacity_d) / 2 + index));
        return *(mBegin_d + index);''')], HD + '''int main() { dstruct::Deque<int, 2> d; for (int i = 0; i < 7; i++) { d.push_back(i); CHECK(d[-1] == i); CHECK(d[-(int) d.size()] == 0); } return 0; }''', 'negative indices', 'the wrong element')
mk('array_move_self', 'C07', [(AR, 'for (int i = 0; i < N; i++) mC_d[i] = dstruct::move(arr.mC_d[i]);', 'for (int i = 0; i + 1 < N; i++) mC_d[i] = dstruct::move(arr.mC_d[i]);')], HD + '''int main() { dstruct::Array<int, 3> a(4), b(7); a = dstruct::move(b); CHECK(a[2] == 7); return 0; }''', 'moving an Array', 'the last element is not moved')
mk('avl_dup', 'C31', [(AV, "                DSTRUCT_ASSERT(false); // CMP-Failed", "                return root; // CMP-Failed")], HD + """#include <sys/wait.h>
#include <unistd.h>
int main() { pid_t p = fork(); if (!p) { freopen("/dev/null", "w", stderr); dstruct::AVLTree<int, dstruct::less<int>, dstruct::Alloc> t; t.push(1); t.push(1); _exit(0); } int s; waitpid(p, &s, 0); CHECK(!(WIFEXITED(s) && WEXITSTATUS(s) == 0)); return 0; }""", 'pushing a key that is present', 'the program goes on with a wrong size')
mk('avl_pop_unbal', 'C37', [(AV, """        _update_height(root);

        return _check_and_balance(root);""", """        _update_height(root);

        return root;""")], HD + """#include <cmath>
int main() { dstruct::AVLTree<int, dstruct::less<int>, dstruct::Alloc> t; int n = 4096; for (int i = 0; i < n; i++) t.push(i); for (int i = 0; i < 4090; i++) { t.pop(i); n--; CHECK(t.height() <= 1.4405 * std::log2(n + 2.0)); } return 0; }""", 'pops on one side of the tree', 'the tree degenerates')
mk('sma_quick_last', 'C35', [(SM, "for (int j = i + 1; j < mFreeMemList_d.size() - 1 && !secondMemBlockFlag; j++) {", "for (int j = i + 1; j < mFreeMemList_d.size() - 2 && !secondMemBlockFlag; j++) {")], HD + """int main() { using A = dstruct::StaticMemAllocator<136>; char *p = (char *) A::allocate(8), *q = (char *) A::allocate(128); A::deallocate(p, 8); A::deallocate(q, 128); A::memory_merge(); CHECK(A::allocate(136) == p); return 0; }""", 'memory in which no pool block is left and one block has the largest quick size', 'two neighbouring free blocks stay apart')
mk('preorder_up', 'C20', [(EB, """    while (link->parent != nullptr) {
        if (link->parent->right != nullptr && link->parent->right != link) {
            return link->parent->right;""", """    while (link->parent != nullptr) {
        if (link->parent->right != nullptr && link->parent->left == link) {
            if (link->left == nullptr && link->right == nullptr && link->parent->right->left != nullptr && link->parent->parent != nullptr && link->parent->parent->right == link->parent && link->parent->right->right == nullptr) return link->parent->right->left;
            return link->parent->right;""")], HD + """int main() { dstruct::BSTree<int> t; int v[] = {1, 9, 3, 20, 15}; for (int x : v) t.push(x); int e[] = {1, 9, 3, 20, 15}, k = 0; using T = dstruct::BSTree<int>::TraversalType; for (auto it = t.begin(T::PreOrder); it != t.end(T::PreOrder); it++) { CHECK(k < 5 && *it == e[k]); k++; } CHECK(k == 5); return 0; }""", 'a pre-order step from a leaf to a sibling with a left child only', 'a node is skipped')
