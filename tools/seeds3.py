"""a third batch of planted bugs (development aid; see seeds.py)"""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import mk
src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds.py')).read(); exec(src[src.index('V = '):src.index("mk('dq_front")])
QU = 'core/ds/queue/Queue.hpp'
mk('dq_byte_index', 'C11', [(DQ, 'for (int i = 0; i < newMapTableSize ; i++) {', 'for (unsigned char i = 0; i < newMapTableSize ; i++) {')],
   HD + '''int main() { dstruct::Deque<int, 1> d; for (int i = 0; i < 1000; i++) { d.push_back(i); CHECK(d.back() == i && d.front() == 0); } for (int i = 0; i < 1000; i++) CHECK(d[i] == i); return 0; }''',
   'a block table of 256 blocks', 'the loop building the block table never ends')
mk('heap_short_index', 'C14', [(H, '            int parent = nodeIndex / 2;', '            signed char parent = nodeIndex / 2;')],
   HD + '''int main() { dstruct::MinHeap<int> h; for (int i = 700; i-- > 0; ) { h.push(i); CHECK(h.top() == i); } for (int i = 0; i < 700; i++) { CHECK(h.top() == i); h.pop(); } return 0; }''',
   'more than 255 elements', 'the parent of a late element is computed in a byte')
mk('vec_no_shrink', 'C34', [(V, 'if (mSize_d < mCapacity_d / 3) {', 'if (mSize_d && mSize_d + 64 < mCapacity_d / 3) {')],
   HD + '''int main() { dstruct::Vector<int> v; for (int i = 0; i < 64; i++) v.push_back(i); for (int i = 0; i < 60; i++) { int c = v.capacity(); v.pop_back(); if (v.size() < c / 3) CHECK(v.capacity() < c); } return 0; }''',
   'a vector of which little is used', 'pop_back does not give back storage')
mk('queue_no_move', 'C05', [(QU, '''    Queue(Queue &&) = default;
    Queue & operator=(Queue &&) = default;
''', '')], HD + '''int main() { dstruct::Queue<int> a; for (int i = 0; i < 5; i++) a.push(i); dstruct::Queue<int> b(dstruct::move(a)); CHECK(b.size() == 5 && b.front() == 0); CHECK(a.empty() && a.size() == 0); return 0; }''',
   'a moved-from queue', 'the source of a move keeps its elements')
mk('dq_iter_negative', 'C11', [(DQ, '''        if (n < 0) {
            return operator+(-n);
        }''', '''        if (n < 0) {
            n = -n;
        }''')], HD + '''int main() { dstruct::Deque<int> d; for (int i = 0; i < 100; i++) d.push_back(i); auto it = d.begin() + 40; CHECK(*(it - 7) == 33); CHECK(*(it - -7) == 47); return 0; }''',
   'going back by a negative number', 'goes the wrong way')
mk('el_del_links', 'C10', [(EL, 'curr->prev = curr->next = nullptr;', 'curr->prev = nullptr;')],
   HD + '''using N = dstruct::EmbeddedListNode_<int, dstruct::DoublyLink_>; int main() { N h, a, b; N::init(&h); N::add(&h, &a); N::add(&a, &b); N::del(&h, &a); CHECK(a.link.next == nullptr && a.link.prev == nullptr); CHECK(h.link.next == &b.link && b.link.prev == &h.link); return 0; }''',
   'looking at a removed node', 'the node still points into the list')
mk('vec_zero_fill', 'C01', [(V, '''        if (n == 0) {
            resize(0);
            return;
        }

        // alloc''', '''        if (n == 0 && mSize_d == 0) {
            resize(0);
            return;
        }

        // alloc''')], HD + '''int main() { dstruct::Vector<int> v; v.push_back(1); v.push_back(2); v.resize(0, 9); CHECK(v.empty() && v.capacity() == 0); v.push_back(3); v.push_back(4); v.push_back(5); CHECK(v.size() == 3 && v[0] == 3 && v[2] == 5); return 0; }''',
   'resize(0, e) of a non-empty vector, then push_back', 'storage of no capacity is kept and the next growth stops the program')
mk('post_descent_loop', 'C20', [(EB, '''            if (link->left != nullptr) {
                link = link->left;
            } else {
                link = link->right;
            }
        }
        return link;''', '''            if (link->left != nullptr) {
                link = link->left;
            } else if (link->right->left == nullptr) {
                link = link->right;
            } else {
                link = link->right->left->parent->parent;
            }
        }
        return link;''')], HD + '''#include <unistd.h>
struct T : dstruct::BSTree<int> { using B = dstruct::BSTree<int>; };
int main() { alarm(20); dstruct::BSTree<int> t; int x[] = {4, 2, 6, 9, 8}; for (int v : x) t.push(v); int n = 0; std::vector<int> o; for (auto it = t.begin(T::PostOrder); it != t.end(); ++it) { o.push_back(*it); CHECK(++n <= 5); } std::vector<int> e{2, 8, 9, 6, 4}; CHECK(o == e); return 0; }''',
   'a post-order walk into a right subtree that descends right, then left', 'the walk never ends')
CPU = '#include <sys/resource.h>\nstatic void limit(int s) { struct rlimit r = {(rlim_t) s, (rlim_t) s}; setrlimit(RLIMIT_CPU, &r); }\n'
mk('avl_walk_height', 'C37', [(AV, '''        return Node_::to_node(root)->data.height;
    }''', '''        return tree::height(root);
    }''')],
   HD + CPU + '''int main() { limit(10); dstruct::AVLTree<int, dstruct::less<int>, dstruct::Alloc> t; for (int i = 0; i < 60000; i++) t.push(i); CHECK(*t.begin() == 0 && t.height() <= 22); return 0; }''',
   'a tree of many elements', 'each insertion measures the heights of whole subtrees by walking them')
mk('heap_pop_realloc', 'C37', [(H, '''        mHeap_d.pop_back();''', '''        mHeap_d.resize(mHeap_d.size() - 1);''')],
   HD + CPU + '''int main() { limit(10); dstruct::MinHeap<int> h; for (int i = 0; i < 100000; i++) h.push(i); for (int i = 0; i < 100000; i++) { CHECK(h.top() == i); h.pop(); } CHECK(h.empty()); return 0; }''',
   'a heap of many elements', 'each pop moves all elements to new storage')
mk('dq_walk_end', 'C37', [(DQ, '''        dstruct::construct(&(*mEnd_d), obj);
        mEnd_d++;
        mSize_d++;''', '''        auto last = mBegin_d;
        while (last != mEnd_d) last++;
        dstruct::construct(&(*last), obj);
        mEnd_d++;
        mSize_d++;''')], HD + CPU + '''int main() { limit(10); dstruct::Deque<int> d; for (int i = 0; i < 200000; i++) d.push_back(i); CHECK(d.size() == 200000 && d.front() == 0 && d.back() == 199999); return 0; }''',
   'a deque of many elements', 'each push at the back walks over all elements first')
