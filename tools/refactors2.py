"""More behaviour-preserving edits (development aid), each run through build, tests, units and rules.  usage: refactors2.py [id...]"""
import sys, os, re, subprocess, tempfile, shutil
W = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'; V = 'core/ds/array/Vector.hpp'; DQ = 'core/ds/queue/DoubleEndedQueue.hpp'; H = 'core/ds/Heap.hpp'; AV = 'core/ds/tree/AVLTree.hpp'; BS = 'core/ds/tree/BinarySearchTree.hpp'; EB = 'core/ds/tree/EmbeddedBinaryTree.hpp'; BB = 'core/ds/tree/BinarySearchTreeBase.hpp'
SM = 'memory/StaticMemAllocator.hpp'; DS = 'core/ds/set/DisjointSet.hpp'; XV = 'core/ds/stack/XValueStack.hpp'; SL = 'core/ds/linked-list/SinglyLinkedList.hpp'; DL = 'core/ds/linked-list/DoublyLinkedList.hpp'; LL = 'core/ds/linked-list/LinkedList.hpp'
ST = 'core/ds/string/BasicString.hpp'; BT = 'core/ds/tree/BinaryTree.hpp'; MP = 'core/ds/Map.hpp'; EL = 'core/ds/linked-list/EmbeddedList.hpp'; UT = 'core/utils.hpp'; AR = 'core/ds/array/Array.hpp'; AL = 'core/algorithm.hpp'; Q = 'core/ds/queue/Queue.hpp'; SK = 'core/ds/stack/Stack.hpp'; CM = 'core/common.hpp'
S = 'sc_steps,'
RF = {
 'dq_center': (S + 'sc_deque,sc_dqcap', [(DQ, 'size_t newArrStartIndex = ((n - mSize_d) / 2) / ARR_SIZE;', 'size_t newArrStartIndex = newMapTableSize > arrNum ? (newMapTableSize - arrNum) / 2 : 0;')]),
 'dq_table': (S + 'sc_deque,sc_dqcap', [(DQ, '''        for (int i = 0; i < newMapTableSize ; i++) {
            if (i < newArrStartIndex || newArrEndIndex < i) {
                mArrMapTable_d[i] = AllocArray_::allocate();
                DSTRUCT_CRASH(mArrMapTable_d[i] == nullptr);
            } else {
                mArrMapTable_d[i] = oldArrMapTable[oldArrStartIndex + (i - newArrStartIndex)];
            }
        }''', '''        size_t from = oldArrStartIndex;
        for (size_t i = 0; i != newMapTableSize; ++i) {
            bool keep = newArrStartIndex <= i && i <= newArrEndIndex;
            Array_ *block = keep ? oldArrMapTable[from++] : AllocArray_::allocate();
            DSTRUCT_CRASH(block == nullptr);
            mArrMapTable_d[i] = block;
        }'''), (DQ, '''        for (int i = 0; i < oldArrMapTable.capacity() ; i++) {
            if (i < oldArrStartIndex || oldArrEndIndex < i) {
                //dstruct::destroy(oldArrMapTable[i]);
                AllocArray_::deallocate(oldArrMapTable[i]);
            }
        }''', '''        for (size_t i = 0; i < oldArrStartIndex; i++) AllocArray_::deallocate(oldArrMapTable[i]);
        for (size_t i = oldArrEndIndex + 1; i < oldArrMapTable.size(); i++) AllocArray_::deallocate(oldArrMapTable[i]);''')]),
 'dq_shrink_helper': (S + 'sc_deque,sc_dqcap', [(DQ, '''        dstruct::destroy(mEnd_d.operator->());
        if (mSize_d <= mCapacity_d / 3 && mArrMapTable_d.capacity() > MIN_MAP_TABLE_SIZE) {
            _resize(mCapacity_d / 2);
        }''', '''        dstruct::destroy(mEnd_d.operator->());
        _shrink_if_sparse();'''), (DQ, '''        mBegin_d++;
        mSize_d--;
        if (mSize_d <= mCapacity_d / 3 && mArrMapTable_d.capacity() > MIN_MAP_TABLE_SIZE) {
            _resize(mCapacity_d / 2);
        }''', '''        ++mBegin_d;
        --mSize_d;
        _shrink_if_sparse();'''), (DQ, '    void _only_clear() {', '''    void _shrink_if_sparse() {
        if (mArrMapTable_d.capacity() <= MIN_MAP_TABLE_SIZE) return;
        if (mSize_d > mCapacity_d / 3) return;
        _resize(mCapacity_d / 2);
    }

    void _only_clear() {''')]),
 'dq_copy_loop': (S + 'sc_deque', [(DQ, '''        for (auto &obj : ds) { // TODO: optimize
            push_back(obj);
        }''', '''        auto last = ds.end();
        for (auto it = ds.begin(); it != last; ++it) {
            push_back(*it);
        }''')]),
 'dq_index': (S + 'sc_deque', [(DQ, '''        if (index < 0)
            return *(mEnd_d + index);
        return *(mBegin_d + index);''', '''        return index < 0 ? *(mEnd_d + index) : *(mBegin_d + index);''')]),
 'dq_front_arrow': ('sc_deque', [(DQ, 'return *(mBegin_d.mCurr_d);', 'return *mBegin_d;'), (DQ, 'return *(mEnd_d - 1);', 'auto last = mEnd_d; --last; return *last;')]),
 'dq_iter_inc': (S + 'sc_deque', [(DQ, '''        static int cnt = 1;
        mCurr_d++;
        if (mCurr_d == (*mArrMapTablePtr_d)[mCurrMapIndex_d]->end()) {
            if (mCurrMapIndex_d + 1 < (*mArrMapTablePtr_d).capacity()) {
                mCurr_d = (*mArrMapTablePtr_d)[++mCurrMapIndex_d]->begin();
            }
        }''', '''        ++mCurr_d;
        ArrMapTable_ &table = *mArrMapTablePtr_d;
        const bool atEnd = mCurr_d == table[mCurrMapIndex_d]->end();
        if (atEnd && mCurrMapIndex_d + 1 < table.capacity()) {
            mCurrMapIndex_d += 1;
            mCurr_d = table[mCurrMapIndex_d]->begin();
        }''')]),
 'heap_cmp_args': (S + 'sc_heap', [(H, '''            if (!mCmp_d(mHeap_d[parent], mHeap_d[nodeIndex])) {
                dstruct::swap(mHeap_d[parent], mHeap_d[nodeIndex]);
                nodeIndex = parent;
            } else {
                break;
            }''', '''            if (!mCmp_d(mHeap_d[nodeIndex], mHeap_d[parent])) break;
            dstruct::swap(mHeap_d[parent], mHeap_d[nodeIndex]);
            nodeIndex = parent;''')]),
 'heap_hole': (S + 'sc_heap', [(H, '''        while (nodeIndex > 1) {
            int parent = nodeIndex / 2;
            if (!mCmp_d(mHeap_d[parent], mHeap_d[nodeIndex])) {
                dstruct::swap(mHeap_d[parent], mHeap_d[nodeIndex]);
                nodeIndex = parent;
            } else {
                break;
            }
        }''', '''        T moved = mHeap_d[nodeIndex];
        for (int parent = nodeIndex / 2; parent >= 1 && !mCmp_d(mHeap_d[parent], moved); parent = nodeIndex / 2) {
            mHeap_d[nodeIndex] = mHeap_d[parent];
            nodeIndex = parent;
        }
        mHeap_d[nodeIndex] = moved;''')]),
 'heap_down_rec': (S + 'sc_heap', [(H, '''            dstruct::swap(mHeap_d[parent], mHeap_d[target]);
            parent = target;''', '''            dstruct::swap(mHeap_d[parent], mHeap_d[target]);
            _adjust_down(target);
            return;''')]),
 'heap_down_best': (S + 'sc_heap', [(H, '''            if (left < heapSize && !mCmp_d(mHeap_d[target], mHeap_d[left])) {
                target = left;
            }

            if (right < heapSize && !mCmp_d(mHeap_d[target], mHeap_d[right])) {
                target = right;
            }
''', '''            if (left >= heapSize) break;
            int best = left;
            if (right < heapSize && mCmp_d(mHeap_d[right], mHeap_d[left])) best = right;
            if (mCmp_d(mHeap_d[best], mHeap_d[parent])) target = best;
''')]),
 'heap_build_push': (S + 'sc_heap', [(H, '''        for (auto it = begin; it != end; it++) {
            mHeap_d.push_back(*it);
        }

        for (int i = (mHeap_d.size() - 1) / 2; i >= 1; i--) {
            _adjust_down(i);
        }''', '''        for (auto it = begin; it != end; ++it)
            mHeap_d.push_back(*it);
        int last = size() / 2;
        while (last > 0) _adjust_down(last--);''')]),
 'heap_empty': ('sc_heap', [(H, 'return mHeap_d.size() == 1;', 'return size() == 0;')]),
 'heap_pop_swap': (S + 'sc_heap', [(H, '''        mHeap_d[1] = mHeap_d.back();
        mHeap_d.pop_back();''', '''        dstruct::swap(mHeap_d[1], mHeap_d[-1]);
        mHeap_d.pop_back();''')]),
 'xvs_pop': (S + 'sc_xvs', [(XV, '''        T data = mStack_d.top(); mStack_d.pop();
        if (mXValue_d == data) {
            mXValue_d = mStack_d.top(); mStack_d.pop();
        }''', '''        const bool extreme = !mCmp_d(mXValue_d, mStack_d.top());
        mStack_d.pop();
        if (extreme) {
            mXValue_d = mStack_d.top();
            mStack_d.pop();
        }''')]),
 'stack_pop': ('sc_misc,sc_xvs', [(SK, '''        T data = mDS_d.back();
        mDS_d.pop_back();''', '''        mDS_d.pop_back();''')]),
 'tree_next': (S + 'sc_bst,sc_avl,sc_map', [(EB, '''    if (link->right != nullptr) {
        link = link->right;
        while (link->left != nullptr) {
            link = link->left;
        }
        return link;
    }

    while (link->parent != nullptr && link->parent->left != link) {
        link = link->parent;
    }

    return link->parent;''', '''    if (BinaryTreeLink_ *sub = link->right) {
        for (; sub->left; sub = sub->left) { }
        return sub;
    }
    BinaryTreeLink_ *up = link->parent;
    while (up && up->right == link) {
        link = up;
        up = up->parent;
    }
    return up;''')]),
 'tree_pre': ('sc_bst,sc_avl', [(EB, '''    while (link->parent != nullptr) {
        if (link->parent->right != nullptr && link->parent->right != link) {
            return link->parent->right;
        }
        link = link->parent;
    }
    return nullptr;
}''', '''    for (BinaryTreeLink_ *up = link->parent; up != nullptr; link = up, up = up->parent) {
        if (up->left == link && up->right != nullptr) return up->right;
    }
    return nullptr;
}''')]),
 'tree_post': ('sc_bst,sc_avl', [(EB, '''    // link->parent != nullptr : root check
    if (link->parent != nullptr && link->parent->right != nullptr && link->parent->right != link) {
        link = link->parent->right;
        while (link->left != nullptr || link->right != nullptr) {
            if (link->left != nullptr) {
                link = link->left;
            } else {
                link = link->right;
            }
        }
        return link;
    }

    return link->parent;''', '''    BinaryTreeLink_ *up = link->parent;
    if (up == nullptr || up->right == nullptr || up->right == link) return up;
    link = up->right;
    while (true) {
        if (link->left) link = link->left;
        else if (link->right) link = link->right;
        else return link;
    }''')]),
 'tree_rotate': (S + 'sc_avl,sc_map', [(EB, '''    BinaryTreeLink_ *newRoot = root->right;
    newRoot->parent = root->parent;

    // update subTree
    root->right = newRoot->left;
    if (nullptr != newRoot->left) {
        newRoot->left->parent = root;
    }

    root->parent = newRoot;
    newRoot->left = root;
    return newRoot;''', '''    BinaryTreeLink_ *pivot = root->right;
    BinaryTreeLink_ *inner = pivot->left;
    pivot->parent = root->parent;
    pivot->left = root;
    root->parent = pivot;
    root->right = inner;
    if (inner) inner->parent = root;
    return pivot;''')]),
 'tree_height': ('sc_avl', [(EB, '''    int h = 0;
    if (root) {
        int lH, rH;
        lH = height(root->left);
        rH = height(root->right);
        h = (lH > rH ? lH : rH) + 1;
    }
    return h;''', '''    if (!root) return 0;
    const int a = height(root->left), b = height(root->right);
    return 1 + (a < b ? b : a);''')]),
 'tree_copy': ('sc_bst,sc_avl,sc_map', [(BT, '''        newLink->left = reinterpret_cast<typename Node_::LinkType *>(copy(Node_::to_node(root->link.left)));
        if (newLink->left)
            newLink->left->parent = newLink;

        newLink->right = reinterpret_cast<typename Node_::LinkType *>(copy(Node_::to_node(root->link.right)));
        if (newLink->right)
            newLink->right->parent = newLink;
''', '''        if (root->link.right) {
            newLink->right = Node_::to_link(copy(Node_::to_node(root->link.right)));
            newLink->right->parent = newLink;
        }
        if (root->link.left) {
            newLink->left = Node_::to_link(copy(Node_::to_node(root->link.left)));
            newLink->left->parent = newLink;
        }
''')]),
 'tree_clear': ('sc_bst,sc_avl,sc_map', [(BT, '''            tree::postorder_traversal(&(root->link), [](typename Node_::LinkType *linkPtr) {
                Node_ *nPtr = Node_::to_node(linkPtr);
                dstruct::destroy(nPtr);
                AllocNode_::deallocate(nPtr);
            });
        }
        root = nullptr;''', '''            Node_ *l = Node_::to_node(root->link.left), *r = Node_::to_node(root->link.right);
            clear(r);
            clear(l);
            dstruct::destroy(root);
            AllocNode_::deallocate(root);
            root = nullptr;
        }''')]),
 'tree_first': (S + 'sc_bst,sc_avl', [(BT, '''        auto first = root;
        if (first != nullptr && ttype != TraversalType::PreOrder) {
            while (first->left != nullptr || (ttype == TraversalType::PostOrder && first->right != nullptr)) {
                first = first->left != nullptr ? first->left : first->right;
            }
        }
        return first;''', '''        if (root == nullptr || ttype == TraversalType::PreOrder) return root;
        for (;;) {
            if (root->left) root = root->left;
            else if (ttype == TraversalType::PostOrder && root->right) root = root->right;
            else return root;
        }''')]),
 'trav_pre_iter': ('sc_bst,sc_avl', [(EB, '''    if (root) {
        cb(root);
        preorder_traversal(root->left, cb);
        preorder_traversal(root->right, cb);
    }''', '''    while (root) {
        cb(root);
        preorder_traversal(root->left, cb);
        root = root->right;
    }''')]),
 'avl_insert_bal': (S + 'sc_avl,sc_map', [(AV, '''                if (_height(root->left) - _height(root->right) == 2) {
                    if (mCmp_d(Node_::to_node(root->left)->data.val, element)) { // LR: double-rotate
                        root->left = _left_rotate(root->left);
                    }
                    root = _right_rotate(root);
                }''', '''                root = _check_and_balance(root);'''), (AV, '''                if (_height(root->right) - _height(root->left) == 2) {
                    if (mCmp_d(element, Node_::to_node(root->right)->data.val)) { // RL: double-rotate
                        root->right = _right_rotate(root->right);
                        // TODO: verify need update root-height?
                    }
                    root = _left_rotate(root);
                }''', '''                root = _check_and_balance(root);''')]),
 'avl_delete_ret': (S + 'sc_avl,sc_map', [(AV, '''                typename Node_::LinkType *subTree = nullptr;

                if (nullptr == root->left) {
                    subTree = root->right;
                } else if (nullptr == root->right) {
                    subTree = root->left;
                }

                if (subTree) {
                    subTree->parent = root->parent;
                }
''', '''                auto subTree = root->left ? root->left : root->right;
                if (subTree != nullptr) subTree->parent = root->parent;
''')]),
 'avl_replace_helper': (S + 'sc_avl,sc_map', [(AV, '''            if (parent != nullptr) {
                if (parent->left == target) {
                    parent->left = nullptr;
                } else {
                    parent->right = nullptr;
                }
                _update_height(parent);
                _rebalance_after_delete(parent);
            } else {
                BinaryTree_e::_update_root(nullptr);
            }

            _real_delete(target);

            return nullptr;''', '''            _replace_child(parent, target, nullptr);
            _real_delete(target);
            return nullptr;'''), (AV, '''            if (parent != nullptr) {
                if (parent->left == target) {
                    parent->left = child;
                } else {
                    parent->right = child;
                }
                _update_height(parent);
                _rebalance_after_delete(parent);
            } else {
                BinaryTree_e::_update_root(child);
            }

            _real_delete(target);
''', '''            _replace_child(parent, target, child);
            _real_delete(target);
'''), (AV, '''    typename Node_::LinkType * _delete_by_target(''', '''    void _replace_child(typename Node_::LinkType *parent, typename Node_::LinkType *target, typename Node_::LinkType *child) {
        if (parent == nullptr) {
            BinaryTree_e::_update_root(child);
            return;
        }
        (parent->left == target ? parent->left : parent->right) = child;
        _update_height(parent);
        _rebalance_after_delete(parent);
    }

    typename Node_::LinkType * _delete_by_target(''')]),
 'avl_erase_post': ('sc_avl,sc_map', [(AV, '''        decltype(it) next = ++it; // nodes are relinked, never copied: stays valid

        _delete_by_target(target);

        return next;''', '''        ++it;
        _delete_by_target(target);
        return it;''')]),
 'avl_check_case': (S + 'sc_avl', [(AV, '''        int balance = _balance_factor(root);
        if (balance > 1) { // need r-rotate
            if (_balance_factor(root->left) < 0) {
                root->left = _left_rotate(root->left);
            }
            root = _right_rotate(root);
        } else if (balance < -1) { // // need l-rotate
            if (_balance_factor(root->right) > 0) {
                root->right = _right_rotate(root->right);
            }
            root = _left_rotate(root);
        }
        return root;''', '''        const int balance = _balance_factor(root);
        if (balance >= -1 && balance <= 1) return root;
        if (balance < 0) {
            auto &child = root->right;
            if (_balance_factor(child) > 0) child = _right_rotate(child);
            return _left_rotate(root);
        }
        auto &child = root->left;
        if (_balance_factor(child) < 0) child = _left_rotate(child);
        return _right_rotate(root);''')]),
 'bst_insert_link': ('sc_bst', [(BS, '''            decltype(parent) subTree = nullptr; // for readability
            if (mCmp_d(obj, Node_::to_node(parent)->data)) {
                subTree = parent->left;
                parent->left = newNodeLink;
                newNodeLink->left = subTree;
            } else {
                subTree = parent->right;
                parent->right = newNodeLink;
                newNodeLink->right = subTree;
            }

            if (subTree) subTree->parent = newNodeLink;''', '''            const bool toLeft = mCmp_d(obj, Node_::to_node(parent)->data);
            if (toLeft) parent->left = newNodeLink;
            else parent->right = newNodeLink;''')]),
 'bst_delete_pred': ('sc_bst', [(BS, '''            typename Node_::LinkType *tmp = linkPtr->right;
            while (nullptr != tmp->left) {
                tmp = tmp->left;
            }
''', '''            typename Node_::LinkType *tmp = BinaryTree_e::first_node(linkPtr->right);
''')]),
 'list_node_helper': ('sc_list', [(LL, '''        Node_ *nPtr = AllocNode_::allocate();
        mHeadNode_d.data = obj; // only for contruct nPtr
        dstruct::construct(nPtr, mHeadNode_d);
        // 2. add to list''', '''        Node_ *nPtr = _make_node(obj);
        // 2. add to list'''), (LL, '''    void _clear() {''', '''    Node_ * _make_node(const T &obj) {
        Node_ *n = AllocNode_::allocate();
        mHeadNode_d.data = obj;
        dstruct::construct(n, mHeadNode_d);
        return n;
    }

    void _clear() {'''), (DL, '''        Node_ *nPtr = AllocNode_::allocate();
        // 2. construct node
        mHeadNode_d.data = obj; // only for contruct nPtr
        dstruct::construct(nPtr, mHeadNode_d);''', '''        Node_ *nPtr = List_::_make_node(obj);'''), (SL, '''        Node_ *nPtr = AllocNode_::allocate();
        this->mHeadNode_d.data = obj; // only for contruct nPtr
        dstruct::construct(nPtr, this->mHeadNode_d);''', '''        Node_ *nPtr = List_::_make_node(obj);''')]),
 'list_copy': ('sc_list', [(SL, '''        if (ds.mSize_d != 0) {
            auto linkPtr =  ds.mHeadNode_d.link.next;
            auto nextLinkPtr = linkPtr->next;
            auto nodePtr = Node_::to_node(linkPtr);
            while (nextLinkPtr != &(ds.mHeadNode_d.link)) {
                push_back(nodePtr->data);
                linkPtr = nextLinkPtr;
                nextLinkPtr = nextLinkPtr->next;
                nodePtr = Node_::to_node(linkPtr);
            }
            push_back(nodePtr->data);
        }''', '''        for (auto &obj : ds) push_back(obj);''')]),
 'list_pop_order': ('sc_list', [(DL, '''        Node_::LinkType::del(lPtr->prev, lPtr);
        // 3. get target node
        Node_ *nPtr = Node_::to_node(lPtr);
        // 4. free and decrease size/len
        dstruct::destroy(nPtr);
        AllocNode_::deallocate(nPtr);
        mSize_d--;''', '''        mSize_d--;
        Node_ *nPtr = Node_::to_node(lPtr);
        auto before = lPtr->prev;
        Node_::LinkType::del(before, lPtr);
        dstruct::destroy(nPtr);
        AllocNode_::deallocate(nPtr);''')]),
 'list_clear_walk': ('sc_list', [(LL, '''        while (!empty()) {
            pop_front();
        }''', '''        auto *cur = mHeadNode_d.link.next;
        while (mSize_d != 0) {
            auto *next = cur->next;
            Node_ *n = Node_::to_node(cur);
            dstruct::destroy(n);
            AllocNode_::deallocate(n);
            cur = next;
            --mSize_d;
        }
        Node_::init(&mHeadNode_d);''')]),
 'sl_popback': ('sc_list', [(SL, '''        while (link->next != Node_::to_link(mTailNodePtr_d)) {
            link = link->next;
        }
        //free and decrease size/len
        dstruct::destroy(mTailNodePtr_d);
        AllocNode_::deallocate(mTailNodePtr_d);
        this->mSize_d--;
        // update mTailNodePtr_d and link
        mTailNodePtr_d = Node_::to_node(link);
        mTailNodePtr_d->link.next = Node_::to_link(&mHeadNode_d);''', '''        for (size_t i = 1; i < mSize_d; i++) link = link->next;
        Node_ *old = mTailNodePtr_d;
        link->next = Node_::to_link(&mHeadNode_d);
        mTailNodePtr_d = Node_::to_node(link);
        --mSize_d;
        dstruct::destroy(old);
        AllocNode_::deallocate(old);''')]),
 'link_order': ('sc_link,sc_list,sc_sma', [(EL, '''        curr->next = prev->next;
        curr->prev = prev;
        if (prev->next)
            prev->next->prev = curr;
        prev->next = curr;''', '''        auto *after = prev->next;
        prev->next = curr;
        curr->prev = prev;
        curr->next = after;
        if (after != nullptr) after->prev = curr;''')]),
 'map_index': ('sc_map', [(MP, '''            mDStruct_d.push({key, ValueType()});
            return dstruct::_remove_const(find(key)->value);
        }
        // convert from const ValueType to ValueType - remove const
        // target: dstruct::A_VLTreeIterator_<dstruct::KeyValue<const char, int> >
        // Note: value original define haven't const, so this is not UB
        return dstruct::_remove_const(find(key)->value);''', '''            mDStruct_d.push({key, ValueType()});
            target = find(key);
        }
        return dstruct::_remove_const(target->value);''')]),
 'uf_iter': (S + 'sc_ufset', [(DS, '''        if (mArray_d[index] < 0)
            return index;
        return mArray_d[index] = find(mArray_d[index]);''', '''        int &slot = mArray_d[index];
        if (slot < 0) return index;
        slot = find(slot);
        return slot;''')]),
 'uf_connect': (S + 'sc_ufset', [(DS, '''        ValueType root1 = find(element1);
        ValueType root2 = find(element2);
        union_set(root1, root2);''', '''        const ValueType a = find(element1), b = find(element2);
        if (a != b) union_set(a, b);''')]),
 'uf_loop': (S + 'sc_ufset', [(DS, '''        if (mArray_d[index] < 0)
            return index;
        return mArray_d[index] = find(mArray_d[index]);''', '''        if (mArray_d[index] < 0) return index;
        int root = mArray_d[index];
        while (mArray_d[root] >= 0) root = mArray_d[root];
        for (int i = index; mArray_d[i] >= 0 && mArray_d[i] != root; ) { int up = mArray_d[i]; mArray_d[i] = root; i = up; }
        return mArray_d[index];''')]),
 'uf_count': ('sc_ufset', [(DS, '''        for (auto &v : mArray_d) {
            if (v < 0)
                setsNum++;
        }''', '''        for (int i = 0; i < (int) mArray_d.size(); i++) setsNum += mArray_d[i] < 0 ? 1 : 0;''')]),
 'str_append': (S + 'sc_string', [(ST, '''        const int n = str.size(); // str may be *this
        for (int i = 0; i < n; i++) {
            push_back(str.mCharList_d[i]);
        }
        return *this;''', '''        int left = str.size(); // str may be *this
        int at = 0;
        while (left-- > 0) {
            const CharType c = str.mCharList_d[at++];
            push_back(c);
        }
        return *this;''')]),
 'str_eq': ('sc_string', [(ST, '''    if (s1.size() != s2.size())
        return false;
    for (int i = 0; i < s1.size(); i++) {
        if (s1[i] != s2[i]) {
            return false;
        }
    }
    return true;''', '''    bool same = s1.size() == s2.size();
    auto p = s1.begin(), q = s2.begin();
    for (; same && p != s1.end(); ++p, ++q) same = *p == *q;
    return same;''')]),
 'str_eq_ref': ('sc_string', [(ST, '''operator==(const BasicString<CharType, Alloc> s1, const BasicString<CharType, Alloc> s2) {''', '''operator==(const BasicString<CharType, Alloc> &s1, const BasicString<CharType, Alloc> &s2) {''')]),
 'str_ctor': ('sc_string', [(ST, '''        if (*str == '\\0') return;
        mCharList_d[-1] = *str;
        while (*(++str) != '\\0') {
            mCharList_d.push_back(*str);
        }
        mCharList_d.push_back('\\0');''', '''        for (; *str != '\\0'; str++) push_back(*str);''')]),
 'str_copy_plus': ('sc_string', [(ST, '''    BasicString<CharType, Alloc> s = s1;
    return s += s2;''', '''    BasicString<CharType, Alloc> s(s1);
    s += s2;
    return s;''')]),
 'alg_foreach': ('sc_misc', [(AL, '''        for (auto it = begin; it != end; it++) {
            cb(*it);
        }''', '''        auto it = begin;
        while (it != end) {
            cb(*it);
            ++it;
        }''')]),
 'alg_find': ('sc_misc', [(AL, '''            if (*it == obj) {
                return it;
            }
        }
        return end;''', '''            const bool hit = *it == obj;
            if (hit) return it;
        }
        return end;''')]),
 'ut_max': (S + 'sc_avl,sc_misc', [(UT, 'return a > b ? a : b;', 'return a < b ? b : a;'), (UT, '''        if (b == nullptr) return false;
        if (a == nullptr) return true;
        return a < b;''', '''        return a < b;''')]),
 'vec_index_helper': (S + 'sc_vector,sc_string,sc_heap,sc_ufset', [(V, '''    ReferenceType operator[](int index) {
        if (index < 0)
            index = mSize_d + index;
        DSTRUCT_ASSERT(index < static_cast<int>(mSize_d));
        return mC_d[index];
    }''', '''    ReferenceType operator[](int index) {
        const int at = index >= 0 ? index : static_cast<int>(mSize_d) + index;
        DSTRUCT_ASSERT(at < static_cast<int>(mSize_d));
        return *(mC_d + at);
    }''')]),
 'vec_move_swap': ('sc_vector,sc_string,sc_deque', [(V, '''        this->mC_d = ds.mC_d;
        this->mSize_d = ds.mSize_d;
        this->mCapacity_d = ds.mCapacity_d;

        // init ds
        ds.mC_d = nullptr;
        ds.mSize_d = ds.mCapacity_d = 0;
''', '''        dstruct::swap(mC_d, ds.mC_d);
        dstruct::swap(mSize_d, ds.mSize_d);
        dstruct::swap(mCapacity_d, ds.mCapacity_d);
''')]),
 'vec_ctor_push': ('sc_vector,sc_ufset,sc_string', [(V, '''        for (int i = 0; i < n; i++)
             dstruct::construct(mC_d + i, element);
        mSize_d = n;
        mCapacity_d = n;''', '''        while (mSize_d < n) {
            dstruct::construct(mC_d + mSize_d, element);
            ++mSize_d;
        }''')]),
 'vec_grow_helper': (S + 'sc_vector,sc_string,sc_heap', [(V, '''            if (mSize_d)
                resize(2 * mSize_d);
            else
                resize(2);''', '''            resize(_grown());'''), (V, '''protected: // data member''', '''protected:
    SizeType _grown() const { return mSize_d == 0 ? 2 : mSize_d << 1; }
protected: // data member''')]),
 'vec_resize2_push': ('sc_vector,sc_heap,sc_deque', [(V, '''        for (int i = mSize_d; i < n; i++) {
            dstruct::construct(mC_d + i, obj);
        }

        mCapacity_d = mSize_d = n;''', '''        mCapacity_d = n;
        PointerType last = mC_d + n;
        for (PointerType p = mC_d + (mSize_d < n ? mSize_d : n); p < last; ++p) dstruct::construct(p, obj);
        mSize_d = n;''')]),
 'sma_first_fit': ('sc_sma', [(SM, '''        while (preLinkPtr->next != nullptr) { // FFMA - First Fit
            targetMemBlockPtr = MemBlock_e::to_node(preLinkPtr->next);
            if (targetMemBlockPtr->data >= bytes)
                break;
            preLinkPtr = preLinkPtr->next;
        }''', '''        for (; preLinkPtr->next != nullptr; preLinkPtr = preLinkPtr->next) { // first fit
            MemBlock_e *candidate = MemBlock_e::to_node(preLinkPtr->next);
            targetMemBlockPtr = candidate;
            if (!(candidate->data < bytes)) break;
        }''')]),
 'sma_quick_for': ('sc_sma', [(SM, '''        while ( // search free memory block
            freeMemListIndex < mFreeMemList_d.size() - 1 &&
            mFreeMemList_d[freeMemListIndex].next == nullptr
        ) freeMemListIndex++;
''', '''        const int poolIndex = mFreeMemList_d.size() - 1;
        for (; freeMemListIndex < poolIndex; ++freeMemListIndex) {
            if (mFreeMemList_d[freeMemListIndex].next) break;
        }
''')]),
 'sma_alloc_order': ('sc_sma,sc_smaport', [(SM, '''        int allocatedSize = MEM_ALIGN_ROUND_UP(bytes);
        void *memFragmentAddr = reinterpret_cast<char *>(memPtr) + allocatedSize;
        int memFragmentSize = targetMemBlockIndex.data - allocatedSize;

        // insert memory fragment to list
        insert_mem_block_to_list_d(memFragmentAddr, memFragmentSize);

        mFreeMemSize_d -= allocatedSize;
''', '''        const int need = MEM_ALIGN_ROUND_UP(bytes);
        mFreeMemSize_d -= need;
        const int rest = targetMemBlockIndex.data - need;
        if (rest > 0) insert_mem_block_to_list_d(reinterpret_cast<char *>(memPtr) + need, rest);
''')]),
 'sma_max_all': ('sc_sma', [(SM, '''        while (linkPtr != nullptr) {
            auto mbPtr = MemBlock_e::to_node(linkPtr);
            if (maxSize < mbPtr->data) maxSize = mbPtr->data;
            linkPtr = linkPtr->next;
        }
''', '''        for (auto *at = linkPtr; at; at = at->next) {
            const int here = MemBlock_e::to_node(at)->data;
            maxSize = here > maxSize ? here : maxSize;
        }
''')]),
}
def tests():
    x = open(R + '/xmake.lua').read(); x = re.sub(r'--\[\[.*?--\]\]', '', x, flags=re.S)
    return re.findall(r'add_files\("(.*?)"\)', x)
def main():
    import concurrent.futures as cf
    for id in sys.argv[1:] or RF:
        units, ed = RF[id]
        d = tempfile.mkdtemp(prefix='rf.', dir='/tmp'); r = d + '/repo'; shutil.copytree(R, r, ignore=shutil.ignore_patterns('build', '.git', '.xmake'))
        bad = ''
        for f, a, b in ed:
            s = open(r + '/' + f).read()
            if s.count(a) != 1: bad += ' PATTERN %s %d %r' % (f, s.count(a), a[:60])
            open(r + '/' + f, 'w').write(s.replace(a, b, 1))
        if bad: print(id, bad, flush=True); shutil.rmtree(d); continue
        def one(t):
            o = d + '/x' + re.sub(r'\W', '_', t)
            c = subprocess.run(['g++', '-std=c++11', '-w', '-I' + r, '-I' + r + '/tests', r + '/' + t, '-o', o], capture_output=True, text=True)
            if c.returncode: return 'BUILD ' + t + c.stderr[-600:]
            try: return 'TEST ' + t if subprocess.run([o], capture_output=True, timeout=60, cwd=d).returncode else ''
            except subprocess.TimeoutExpired: return 'TIMEOUT ' + t
        with cf.ThreadPoolExecutor(4) as ex: br = [x for x in ex.map(one, tests()) if x]
        out = ''
        if br: out += 'BROKEN ' + ' '.join(br)[:800]
        for u in units.split(','):
            o = subprocess.run(['python3', W + '/checks/ai.py', u + '.cpp'], env=dict(os.environ, DS_REPO=r, DS_BUDGET=os.environ.get('DS_BUDGET', '60'), DS_N='1'), capture_output=True, text=True)
            v = re.findall(r'^(t_\w+) .* (VIOL|und)$', o.stdout, re.M); w = [x for x, y in v if y == 'und']
            out += '%s[%s und %d%s%s] ' % (u, 'ALARM ' + ' '.join(x for x, y in v if y == 'VIOL') if any(y == 'VIOL' for x, y in v) else 'quiet', len(w), ' CRASH' if 'CRASH' in o.stdout else '', o.stderr[-300:])
            if any(y == 'VIOL' for x, y in v): out += '\n' + '\n'.join(l for l in o.stdout.split('\n') if 'VIOL ' in l)[:1500]
        for c in ('C27', 'C28', 'C29', 'C30', 'C36'):
            o = subprocess.run(['python3', W + '/checks/rules.py', c], env=dict(os.environ, DS_REPO=r), capture_output=True, text=True)
            if o.returncode: out += ' %s rc=%d %s' % (c, o.returncode, o.stdout[-600:])
        print(id, out, flush=True); shutil.rmtree(d)
main()
