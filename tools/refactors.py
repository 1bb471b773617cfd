"""Behaviour-preserving edits (development aid): each must leave the scenario units quiet.  usage: refactors.py [id...]"""
import sys, os, re, subprocess, tempfile, shutil
R = '/repo'; V = 'core/ds/array/Vector.hpp'; DQ = 'core/ds/queue/DoubleEndedQueue.hpp'; H = 'core/ds/Heap.hpp'; AV = 'core/ds/tree/AVLTree.hpp'; BS = 'core/ds/tree/BinarySearchTree.hpp'; EB = 'core/ds/tree/EmbeddedBinaryTree.hpp'
SM = 'memory/StaticMemAllocator.hpp'; DS = 'core/ds/set/DisjointSet.hpp'; XV = 'core/ds/stack/XValueStack.hpp'; SL = 'core/ds/linked-list/SinglyLinkedList.hpp'; DL = 'core/ds/linked-list/DoublyLinkedList.hpp'; LL = 'core/ds/linked-list/LinkedList.hpp'
ST = 'core/ds/string/BasicString.hpp'; BT = 'core/ds/tree/BinaryTree.hpp'; MP = 'core/ds/Map.hpp'; EL = 'core/ds/linked-list/EmbeddedList.hpp'; UT = 'core/utils.hpp'; AR = 'core/ds/array/Array.hpp'; AL = 'core/algorithm.hpp'
RF = {
 'vec_helper': ('sc_vector,sc_string,sc_heap', [(V, '''            for (int i = 0; i < mSize_d; i++) {
                dstruct::destroy(mC_d + i);
            }
            Vector::Alloc_::deallocate(mC_d, mCapacity_d);''', '''            release_all_(mC_d, mSize_d, mCapacity_d);'''), (V, '''protected: // data member
    SizeType mSize_d''', '''protected: // data member
    static void release_all_(PointerType p, SizeType n, SizeType cap) {
        PointerType q = p + n;
        while (q != p) { --q; dstruct::destroy(q); }
        Vector::Alloc_::deallocate(p, cap);
    }
    SizeType mSize_d''')]),
 'vec_push': ('sc_vector,sc_string', [(V, '''        if (mSize_d + 1 > mCapacity_d) {
            ValueType obj(element); // element may be in the storage to be released
            if (mSize_d)
                resize(2 * mSize_d);
            else
                resize(2);
            dstruct::construct(mC_d + mSize_d, obj);
            mSize_d++;
            return;
        }
        dstruct::construct(mC_d + mSize_d, element);
        mSize_d++;''', '''        const bool full = mSize_d >= mCapacity_d;
        if (!full) {
            dstruct::construct(mC_d + mSize_d++, element);
        } else {
            ValueType obj(element);
            const SizeType want = mSize_d == 0 ? 2 : mSize_d + mSize_d;
            resize(want);
            dstruct::construct(&mC_d[mSize_d], obj);
            mSize_d = mSize_d + 1;
        }''')]),
 'vec_resize': ('sc_vector,sc_heap,sc_deque', [(V, '''        if (n == 0)
            mC_d = nullptr;
        else
            mC_d = Vector::Alloc_::allocate(n);

        if (oldC) {
            DSTRUCT_ASSERT(mCapacity_d != 0);
            for (int i = 0; i < mSize_d; i++) {
                if (i < n) // TODO: use move by check type-tag
                    dstruct::construct(mC_d + i, oldC[i]);
                dstruct::destroy(oldC + i);
            }
            Vector::Alloc_::deallocate(oldC, mCapacity_d);
        }

        mCapacity_d = n;

        if (n < mSize_d)
            mSize_d = n;''', '''        PointerType newC = nullptr;
        if (n != 0)
            newC = Vector::Alloc_::allocate(n);

        if (oldC != nullptr) {
            SizeType keep = mSize_d < n ? mSize_d : n;
            for (SizeType i = 0; i < keep; i++) dstruct::construct(newC + i, oldC[i]);
            for (SizeType i = 0; i < mSize_d; ++i) dstruct::destroy(oldC + i);
            Vector::Alloc_::deallocate(oldC, mCapacity_d);
        }
        mC_d = newC;
        mSize_d = mSize_d < n ? mSize_d : n;
        mCapacity_d = n;''')]),
 'vec_copy': ('sc_vector,sc_string', [(V, '''        clear();
        resize(ds.mCapacity_d);
        mSize_d = ds.mSize_d;
        for (int i = 0; i < mSize_d; i++) {
            dstruct::construct(mC_d + i, ds.mC_d[i]);
        }
        return *this;''', '''        clear();
        resize(ds.mCapacity_d);
        PointerType to = mC_d;
        for (ConstIteratorType it = ds.begin(); it != ds.end(); ++it, ++to) {
            dstruct::construct(to, *it);
        }
        mSize_d = ds.mSize_d;
        return *this;''')]),
 'vec_pop': ('sc_vector', [(V, '''        --mSize_d;
        dstruct::destroy(mC_d + mSize_d);
        if (mSize_d < mCapacity_d / 3) {''', '''        dstruct::destroy(mC_d + (mSize_d - 1));
        mSize_d -= 1;
        const SizeType third = mCapacity_d / 3;
        if (third > mSize_d) {''')]),
 'heap_up': ('sc_heap', [(H, '''            int parent = nodeIndex / 2;
            if (!mCmp_d(mHeap_d[parent], mHeap_d[nodeIndex])) {
                dstruct::swap(mHeap_d[parent], mHeap_d[nodeIndex]);
                nodeIndex = parent;
            } else {
                break;
            }''', '''            int parent = nodeIndex >> 1;
            if (mCmp_d(mHeap_d[parent], mHeap_d[nodeIndex])) return;
            dstruct::swap(mHeap_d[nodeIndex], mHeap_d[parent]);
            nodeIndex = parent;''')]),
 'heap_down': ('sc_heap', [(H, '''        while (true) {
            int left = 2 * parent;
            int right = left + 1;
            int target = parent;
''', '''        for (;;) {
            int target = _best_of(parent, heapSize);
            if (target == parent) return;
            dstruct::swap(mHeap_d[parent], mHeap_d[target]);
            parent = target;
        }
    }

    int _best_of(int parent, int heapSize) {
            int left = 2 * parent;
            int right = 2 * parent + 1;
            int target = parent;
'''), (H, '''            if (target == parent) break;

            dstruct::swap(mHeap_d[parent], mHeap_d[target]);
            parent = target;
        }
    }
};''', '''            return target;
    }
};''')]),
 'heap_recursive': ('sc_heap', [(H, '''            if (target == parent) break;

            dstruct::swap(mHeap_d[parent], mHeap_d[target]);
            parent = target;
        }''', '''            if (target != parent) {
                dstruct::swap(mHeap_d[target], mHeap_d[parent]);
                _adjust_down(target);
            }
            return;
        }''')]),
 'uf_iter': ('sc_ufset', [(DS, '''        if (mArray_d[index] < 0)
            return index;
        return mArray_d[index] = find(mArray_d[index]);''', '''        if (mArray_d[index] < 0)
            return index;
        int root = index;
        while (mArray_d[root] >= 0) root = mArray_d[root];
        int at = index;
        while (mArray_d[at] >= 0) { int up = mArray_d[at]; mArray_d[at] = root; at = up; }
        return mArray_d[index];''')]),
 'uf_connect': ('sc_ufset', [(DS, '''        ValueType root1 = find(element1);
        ValueType root2 = find(element2);
        union_set(root1, root2);''', '''        const ValueType r2 = find(element2);
        const ValueType r1 = find(element1);
        if (r1 != r2) union_set(r1, r2);''')]),
 'xv': ('sc_xvs', [(XV, '''        T data = mStack_d.top(); mStack_d.pop();
        if (mXValue_d == data) {
            mXValue_d = mStack_d.top(); mStack_d.pop();
        }''', '''        bool wasExtreme = mXValue_d == mStack_d.top();
        mStack_d.pop();
        if (wasExtreme) {
            mXValue_d = mStack_d.top();
            mStack_d.pop();
        }''')]),
 'bst_find_rec': ('sc_bst,sc_avl,sc_map', [('core/ds/tree/BinarySearchTreeBase.hpp', None, None)]),
 'bst_insert': ('sc_bst', [(BS, '''            newNodeLink->parent = parent;
            decltype(parent) subTree = nullptr; // for readability
            if (mCmp_d(obj, Node_::to_node(parent)->data)) {
                subTree = parent->left;
                parent->left = newNodeLink;
                newNodeLink->left = subTree;
            } else {
                subTree = parent->right;
                parent->right = newNodeLink;
                newNodeLink->right = subTree;
            }

            if (subTree) subTree->parent = newNodeLink;''', '''            newNodeLink->parent = parent;
            (mCmp_d(obj, Node_::to_node(parent)->data) ? parent->left : parent->right) = newNodeLink;''')]),
 'bst_delete_iter': ('sc_bst', [(BS, '''            typename Node_::LinkType *tmp = linkPtr->right;
            while (nullptr != tmp->left) {
                tmp = tmp->left;
            }
''', '''            typename Node_::LinkType *tmp = _leftmost(linkPtr->right);
'''), (BS, '''    typename Node_::LinkType * _try_to_delete(''', '''    static typename Node_::LinkType * _leftmost(typename Node_::LinkType *p) { return p->left == nullptr ? p : _leftmost(p->left); }
    typename Node_::LinkType * _try_to_delete(''')]),
 'rotate_order': ('sc_avl', [(EB, '''    BinaryTreeLink_ *newRoot = root->right;
    newRoot->parent = root->parent;

    // update subTree
    root->right = newRoot->left;
    if (nullptr != newRoot->left) {
        newRoot->left->parent = root;
    }

    root->parent = newRoot;
    newRoot->left = root;
    return newRoot;''', '''    BinaryTreeLink_ *top = root->right, *mid = top->left, *up = root->parent;
    top->left = root;
    root->parent = top;
    root->right = mid;
    if (mid) mid->parent = root;
    top->parent = up;
    return top;''')]),
 'avl_rebalance': ('sc_avl', [(AV, '''        while (root != nullptr) {
            // bottom-up balance
            auto parent = root->parent;
            auto newRoot = _check_and_balance(root);
''', '''        for (typename Node_::LinkType *parent = nullptr; root; root = parent) {
            parent = root->parent;
            auto newRoot = _check_and_balance(root);
'''), (AV, '''                BinaryTree_e::_update_root(newRoot);
            }

            root = parent;
        }''', '''                BinaryTree_e::_update_root(newRoot);
            }
        }''')]),
 'avl_insert': ('sc_avl', [(AV, '''                if (_height(root->left) - _height(root->right) == 2) {
                    if (mCmp_d(Node_::to_node(root->left)->data.val, element)) { // LR: double-rotate
                        root->left = _left_rotate(root->left);
                    }
                    root = _right_rotate(root);
                }''', '''                root = _check_and_balance(root);''')]),
 'inorder_next': ('sc_bst,sc_avl', [(EB, '''    while (link->parent != nullptr && link->parent->left != link) {
        link = link->parent;
    }

    return link->parent;''', '''    BinaryTreeLink_ *up = link->parent;
    while (up && up->right == link) { link = up; up = up->parent; }
    return up;''')]),
 'sma_insert': ('sc_sma', [(SM, '''        Link_e *freeMemLinkPtr = &(mFreeMemList_d[ListIndex]);
        while (freeMemLinkPtr->next != nullptr && addr > freeMemLinkPtr->next) {
            freeMemLinkPtr = freeMemLinkPtr->next;
        }

        Link_e::add(freeMemLinkPtr, static_cast<Link_e *>(addr));
''', '''        Link_e *pre = &(mFreeMemList_d[ListIndex]), *cur = pre->next, *blk = static_cast<Link_e *>(addr);
        for (; cur != nullptr && cur < blk; cur = cur->next) pre = cur;
        blk->next = cur;
        pre->next = blk;
        Link_e *freeMemLinkPtr = pre;
''')]),
 'sma_round': ('sc_sma', [(SM, 'return (((bytes) + SMA_MEM_ALIGN - 1) & ~(SMA_MEM_ALIGN - 1));', 'return (bytes + (SMA_MEM_ALIGN - 1)) / SMA_MEM_ALIGN * SMA_MEM_ALIGN;')]),
 'sma_alloc': ('sc_sma', [(SM, '''        if (bytes <= 0 || bytes > MEMORY_SIZE) return nullptr;
''', '''        if (bytes <= 0) return nullptr;
        if (MEM_ALIGN_ROUND_UP(bytes) > MEMORY_SIZE || bytes > MEMORY_SIZE || bytes > mFreeMemSize_d) return nullptr;
''')]),
 'sma_lifo_quick': ('sc_sma', []),
 'dq_push': ('sc_deque,sc_dqcap', [(DQ, '''        dstruct::construct(&(*mEnd_d), obj);
        mEnd_d++;
        mSize_d++;''', '''        T *slot = mEnd_d.operator->();
        ++mSize_d;
        dstruct::construct(slot, obj);
        ++mEnd_d;''')]),
 'dq_clear': ('sc_deque', [(DQ, '''            for (auto it = mBegin_d; it != mEnd_d; it++) {
                dstruct::destroy(it.operator->());
            }
''', '''            auto it = mBegin_d;
            for (typename DoubleEndedQueue::SizeType i = 0; i < mSize_d; i++, ++it) dstruct::destroy(it.operator->());
''')]),
 'str_append': ('sc_string', []),
 'utils_swap': ('sc_heap,sc_avl,sc_misc', []),
}
def main():
    for id in sys.argv[1:] or RF:
        units, ed = RF[id]
        if not ed or ed[0][1] is None: continue
        d = tempfile.mkdtemp(prefix='rf.', dir='/tmp'); r = d + '/repo'; shutil.copytree(R, r, ignore=shutil.ignore_patterns('build', '.git', '.xmake'))
        for f, a, b in ed:
            s = open(r + '/' + f).read()
            if s.count(a) != 1: print(id, 'PATTERN', f, s.count(a)); break
            open(r + '/' + f, 'w').write(s.replace(a, b))
        else:
            out = ''
            for u in units.split(','):
                o = subprocess.run(['python3', '/verif/checks/ai.py', u + '.cpp'], env=dict(os.environ, DS_REPO=r, DS_BUDGET=os.environ.get('DS_BUDGET', '60'), DS_N='1'), capture_output=True, text=True)
                v = re.findall(r'^(t_\w+) .* (VIOL|und)$', o.stdout, re.M); w = [x for x, y in v if y == 'und']
                out += '%s[%s und %d%s%s] ' % (u, 'ALARM ' + ' '.join(x for x, y in v if y == 'VIOL') if any(y == 'VIOL' for x, y in v) else 'quiet', len(w), ' CRASH' if 'CRASH' in o.stdout else '', o.stderr[-300:])
                if any(y == 'VIOL' for x, y in v): out += '\n' + '\n'.join(l for l in o.stdout.split('\n') if 'VIOL ' in l)[:1500]
            print(id, out, flush=True)
        shutil.rmtree(d)
main()
