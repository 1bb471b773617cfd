From 4caaa3f7e9b6af08ba67733c5adf274155cc29ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:55 +0000
Subject: [PATCH 01/36] fix: Vector copy must not destroy elements in raw
 storage

---
 core/ds/array/Vector.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/core/ds/array/Vector.hpp b/core/ds/array/Vector.hpp
index 5032e34..c13bb38 100644
--- a/core/ds/array/Vector.hpp
+++ b/core/ds/array/Vector.hpp
@@ -36,7 +36,6 @@ public: // big five
         resize(ds.mCapacity_d);
         mSize_d = ds.mSize_d;
         for (int i = 0; i < mSize_d; i++) {
-            dstruct::destroy(mC_d + i);
             dstruct::construct(mC_d + i, ds.mC_d[i]);
         }
         return *this;
-- 
2.43.0


From 8e2bdadf335449413d55a6c991e237c043b40c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:55 +0000
Subject: [PATCH 02/36] fix: Vector growth with an argument that is one of its
 own elements

---
 core/ds/array/Vector.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/ds/array/Vector.hpp b/core/ds/array/Vector.hpp
index c13bb38..7df7b54 100644
--- a/core/ds/array/Vector.hpp
+++ b/core/ds/array/Vector.hpp
@@ -96,10 +96,14 @@ public: // Modifiers
 
     void push_back(ConstReferenceType element) {
         if (mSize_d + 1 > mCapacity_d) {
+            ValueType obj(element); // element may be in the storage to be released
             if (mSize_d)
                 resize(2 * mSize_d);
             else
                 resize(2);
+            dstruct::construct(mC_d + mSize_d, obj);
+            mSize_d++;
+            return;
         }
         dstruct::construct(mC_d + mSize_d, element);
         mSize_d++;
@@ -188,6 +192,7 @@ public:
 
         // alloc
         PointerType oldC = mC_d;
+        ValueType obj(element); // element may be in the storage to be released
         mC_d = Vector::Alloc_::allocate(n);
 
         // release
@@ -202,7 +207,7 @@ public:
 
         // set
         for (int i = mSize_d; i < n; i++) {
-            dstruct::construct(mC_d + i, element);
+            dstruct::construct(mC_d + i, obj);
         }
 
         mCapacity_d = mSize_d = n;
-- 
2.43.0


From 8d076783e2c7731fbde7d30c57f87250ec989e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:55 +0000
Subject: [PATCH 03/36] fix: Heap self move-assignment must keep its elements

---
 core/ds/Heap.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/ds/Heap.hpp b/core/ds/Heap.hpp
index d2b98f1..f369db5 100644
--- a/core/ds/Heap.hpp
+++ b/core/ds/Heap.hpp
@@ -50,6 +50,7 @@ public:
 
     Heap(Heap &&hep) { *this = dstruct::move(hep); }
     Heap & operator=(Heap &&hep) {
+        if (this == &hep) return *this;
         this->mCmp_d = hep.mCmp_d;
         this->mHeap_d = dstruct::move(hep.mHeap_d);
         hep.mHeap_d.resize(1, this->mHeap_d[0]);
-- 
2.43.0


From 4c5eba8a86b10f9bde88287ecbe3dd5b4c92d950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:55 +0000
Subject: [PATCH 04/36] fix: moving from an empty DoublyLinkedList

---
 core/ds/linked-list/DoublyLinkedList.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/ds/linked-list/DoublyLinkedList.hpp b/core/ds/linked-list/DoublyLinkedList.hpp
index 54a96a4..5cc5efe 100644
--- a/core/ds/linked-list/DoublyLinkedList.hpp
+++ b/core/ds/linked-list/DoublyLinkedList.hpp
@@ -87,8 +87,12 @@ public: // big five
         List_::operator=(dstruct::move(ds));
         // update link: first-data and last-data point to new headNode
         auto headLinkPtr = Node_::to_link(&mHeadNode_d);
-        mHeadNode_d.link.prev->next = headLinkPtr;
-        mHeadNode_d.link.next->prev = headLinkPtr;
+        if (mSize_d == 0) {
+            Node_::init(&mHeadNode_d);
+        } else {
+            mHeadNode_d.link.prev->next = headLinkPtr;
+            mHeadNode_d.link.next->prev = headLinkPtr;
+        }
         return *this;
     }
 
-- 
2.43.0


From 58dab474058faa9d541fa57f3857756d4d29ab1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:55 +0000
Subject: [PATCH 05/36] fix: moving from an empty SinglyLinkedList

---
 core/ds/linked-list/SinglyLinkedList.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ds/linked-list/SinglyLinkedList.hpp b/core/ds/linked-list/SinglyLinkedList.hpp
index 66cf9b2..bc93a41 100644
--- a/core/ds/linked-list/SinglyLinkedList.hpp
+++ b/core/ds/linked-list/SinglyLinkedList.hpp
@@ -88,7 +88,7 @@ public: // big five
     DSTRUCT_MOVE_SEMANTICS(SinglyLinkedList) {
         // move list
         List_::operator=(dstruct::move(ds));
-        mTailNodePtr_d = ds.mTailNodePtr_d;
+        mTailNodePtr_d = mSize_d == 0 ? &mHeadNode_d : ds.mTailNodePtr_d;
         mTailNodePtr_d->link.next = Node_::to_link(&mHeadNode_d);
         // reset
         ds.mTailNodePtr_d = &(ds.mHeadNode_d);
-- 
2.43.0


From ea07e4207db886a4fcb3b7b9f22a5fae2104f50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:55 +0000
Subject: [PATCH 06/36] fix: SinglyLinkedList copy must copy every element and
 keep its own tail

---
 core/ds/linked-list/SinglyLinkedList.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/core/ds/linked-list/SinglyLinkedList.hpp b/core/ds/linked-list/SinglyLinkedList.hpp
index bc93a41..07ad9ab 100644
--- a/core/ds/linked-list/SinglyLinkedList.hpp
+++ b/core/ds/linked-list/SinglyLinkedList.hpp
@@ -77,10 +77,9 @@ public: // big five
                 push_back(nodePtr->data);
                 linkPtr = nextLinkPtr;
                 nextLinkPtr = nextLinkPtr->next;
-                auto nodePtr = Node_::to_node(linkPtr);
+                nodePtr = Node_::to_node(linkPtr);
             }
             push_back(nodePtr->data);
-            mTailNodePtr_d = nodePtr;
         }
         return *this;
     }
-- 
2.43.0


From 26ea14375f34b2601f603eb66525795d20927e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:55 +0000
Subject: [PATCH 07/36] fix: SinglyLinkedList push/pop must maintain the tail

---
 core/ds/linked-list/SinglyLinkedList.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/ds/linked-list/SinglyLinkedList.hpp b/core/ds/linked-list/SinglyLinkedList.hpp
index 07ad9ab..2b402bd 100644
--- a/core/ds/linked-list/SinglyLinkedList.hpp
+++ b/core/ds/linked-list/SinglyLinkedList.hpp
@@ -115,12 +115,20 @@ public:
         mTailNodePtr_d = nPtr;
     }
 
+    void push(const T &obj) {
+        push_front(obj);
+    }
+
     void push_front(const T &obj) {
         List_::push_front(obj);
         if (mSize_d == 1)
             mTailNodePtr_d = Node_::to_node(mHeadNode_d.link.next);
     }
 
+    void pop() {
+        pop_front();
+    }
+
     void pop_front() {
         List_::pop_front();
         if (mSize_d == 0)
-- 
2.43.0


From 881169c3624d4d3a25e42b0a24348791ec43aa4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:40 +0000
Subject: [PATCH 08/36] fix: begin() must equal end() for a fresh, cleared or
 moved-from Deque

---
 core/ds/queue/DoubleEndedQueue.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/ds/queue/DoubleEndedQueue.hpp b/core/ds/queue/DoubleEndedQueue.hpp
index d94b131..5804db1 100644
--- a/core/ds/queue/DoubleEndedQueue.hpp
+++ b/core/ds/queue/DoubleEndedQueue.hpp
@@ -31,7 +31,7 @@ private:
     using Self = DoubleEndedQueueIterator_;
 
 protected: // only for DoubleEndedQueue
-    DoubleEndedQueueIterator_() : mArrMapTablePtr_d { nullptr } { }
+    DoubleEndedQueueIterator_() : mCurrMapIndex_d { 0 }, mCurr_d(nullptr), mArrMapTablePtr_d { nullptr } { _sync(); }
 
 public:
     DoubleEndedQueueIterator_(
@@ -68,6 +68,7 @@ public:
         it.mCurr_d = nullptr;
         it.mArrMapTablePtr_d = nullptr;
 
+        it._sync();
         _sync();
 
         return *this;
@@ -323,7 +324,7 @@ protected:
             // reset
             mSize_d = mCapacity_d = 0;
             mArrMapTable_d.clear();
-            //mBegin_d = mEnd_d = nullptr;
+            mBegin_d = mEnd_d = decltype(mBegin_d)();
         }
     }
 
-- 
2.43.0


From a68809692b57ae58fcf39d832d311a8282000474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:40 +0000
Subject: [PATCH 09/36] fix: a moved Deque must use its own map table

---
 core/ds/queue/DoubleEndedQueue.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/ds/queue/DoubleEndedQueue.hpp b/core/ds/queue/DoubleEndedQueue.hpp
index 5804db1..ae39218 100644
--- a/core/ds/queue/DoubleEndedQueue.hpp
+++ b/core/ds/queue/DoubleEndedQueue.hpp
@@ -193,6 +193,7 @@ public:
         mArrMapTable_d = dstruct::move(ds.mArrMapTable_d);
         mBegin_d = dstruct::move(ds.mBegin_d);
         mEnd_d = dstruct::move(ds.mEnd_d);
+        mBegin_d.mArrMapTablePtr_d = mEnd_d.mArrMapTablePtr_d = &mArrMapTable_d;
 
         // reset ds
         ds.mSize_d = ds.mCapacity_d = 0;
-- 
2.43.0


From 0dbbaafe010f6e8b6eb279054c1aeb8f1aca4c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:40 +0000
Subject: [PATCH 10/36] fix: Deque must not construct elements over
 never-destroyed default ones

---
 core/ds/queue/DoubleEndedQueue.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ds/queue/DoubleEndedQueue.hpp b/core/ds/queue/DoubleEndedQueue.hpp
index ae39218..a0ebfc3 100644
--- a/core/ds/queue/DoubleEndedQueue.hpp
+++ b/core/ds/queue/DoubleEndedQueue.hpp
@@ -340,7 +340,7 @@ protected:
         // alloc arr and fill map-table
         for (int i = 0; i < MIN_MAP_TABLE_SIZE; i++) {
             mArrMapTable_d[i] = AllocArray_::allocate();
-            dstruct::construct(mArrMapTable_d[i], Array_());
+            DSTRUCT_CRASH(mArrMapTable_d[i] == nullptr);
         }
         auto midMapIndex = MIN_MAP_TABLE_SIZE / 2;
         mBegin_d = mEnd_d = decltype(mBegin_d)(midMapIndex, 0, &mArrMapTable_d);
@@ -378,7 +378,7 @@ protected:
         for (int i = 0; i < newMapTableSize ; i++) {
             if (i < newArrStartIndex || newArrEndIndex < i) {
                 mArrMapTable_d[i] = AllocArray_::allocate();
-                dstruct::construct(mArrMapTable_d[i], Array_());
+                DSTRUCT_CRASH(mArrMapTable_d[i] == nullptr);
             } else {
                 mArrMapTable_d[i] = oldArrMapTable[oldArrStartIndex + (i - newArrStartIndex)];
             }
-- 
2.43.0


From 996ad433c01a36c10c7e2f21c2c94b5d66b578b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:40 +0000
Subject: [PATCH 11/36] fix: Deque must work with, and only use, its own
 allocator

---
 core/ds/queue/DoubleEndedQueue.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/core/ds/queue/DoubleEndedQueue.hpp b/core/ds/queue/DoubleEndedQueue.hpp
index a0ebfc3..2919db6 100644
--- a/core/ds/queue/DoubleEndedQueue.hpp
+++ b/core/ds/queue/DoubleEndedQueue.hpp
@@ -20,13 +20,13 @@ namespace dstruct {
 template <typename T, size_t ARR_SIZE, typename Alloc = dstruct::Alloc>
 class DoubleEndedQueue;
 
-template <typename T, size_t ARR_SIZE>
+template <typename T, size_t ARR_SIZE, typename Alloc = dstruct::Alloc>
 class DoubleEndedQueueIterator_ : public DStructIteratorTypeSpec<T, RandomIterator> {
-    friend class DoubleEndedQueue<T, ARR_SIZE, dstruct::Alloc>;
-    friend class DoubleEndedQueueIterator_<const T, ARR_SIZE>; // for it -> const-it
+    friend class DoubleEndedQueue<T, ARR_SIZE, Alloc>;
+    friend class DoubleEndedQueueIterator_<const T, ARR_SIZE, Alloc>; // for it -> const-it
 protected:
     using Array_         = dstruct::Array<T, ARR_SIZE>;
-    using ArrMapTable_   = dstruct::Vector<Array_ *>;
+    using ArrMapTable_   = dstruct::Vector<Array_ *, Alloc>;
 private:
     using Self = DoubleEndedQueueIterator_;
 
@@ -76,7 +76,7 @@ public:
 
     // for it -> const-it
     DoubleEndedQueueIterator_(
-        const DoubleEndedQueueIterator_<typename RemoveConst<T>::Type, ARR_SIZE> &obj,
+        const DoubleEndedQueueIterator_<typename RemoveConst<T>::Type, ARR_SIZE, Alloc> &obj,
         bool _unsedFlag // constructor dispatch flag
     ) : DoubleEndedQueueIterator_() {
 
@@ -158,12 +158,12 @@ protected:
  
 template <typename T, size_t ARR_SIZE, typename Alloc>
 class DoubleEndedQueue :
-    public DStructTypeSpec<T, Alloc, DoubleEndedQueueIterator_<T, ARR_SIZE>, DoubleEndedQueueIterator_<const T, ARR_SIZE>> {
+    public DStructTypeSpec<T, Alloc, DoubleEndedQueueIterator_<T, ARR_SIZE, Alloc>, DoubleEndedQueueIterator_<const T, ARR_SIZE, Alloc>> {
 
 protected:
     using Array_         = Array<T, ARR_SIZE>;
     using AllocArray_    = dstruct::AllocSpec<Array_, Alloc>;
-    using ArrMapTable_   = Vector<Array_ *>;
+    using ArrMapTable_   = Vector<Array_ *, Alloc>;
 /*
     struct Block_ {
         typename ArrMapTable_::IteratorType arr; // point to Array
-- 
2.43.0


From 2e932ede65cded9699afbee4798b846c54445942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:16 +0000
Subject: [PATCH 12/36] fix: BasicString from an empty C string must not read
 past its terminator

---
 core/ds/string/BasicString.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/ds/string/BasicString.hpp b/core/ds/string/BasicString.hpp
index 0fcf118..cfca4f9 100644
--- a/core/ds/string/BasicString.hpp
+++ b/core/ds/string/BasicString.hpp
@@ -38,6 +38,7 @@ public:
     }
 
     BasicString(const char *str) : BasicString() {
+        if (*str == '\0') return;
         mCharList_d[-1] = *str;
         while (*(++str) != '\0') {
             mCharList_d.push_back(*str);
-- 
2.43.0


From be11fe5deb54a686ff51c1f9cc02b687072f9a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:16 +0000
Subject: [PATCH 13/36] fix: a moved-from BasicString must be a valid empty
 string

---
 core/ds/string/BasicString.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/ds/string/BasicString.hpp b/core/ds/string/BasicString.hpp
index cfca4f9..f2cc2e7 100644
--- a/core/ds/string/BasicString.hpp
+++ b/core/ds/string/BasicString.hpp
@@ -34,6 +34,7 @@ public:
 
     DSTRUCT_MOVE_SEMANTICS(BasicString) {
         mCharList_d = dstruct::move(ds.mCharList_d);
+        ds.clear();
         return *this;
     }
 
-- 
2.43.0


From b7087f11b3a1f38c7a4f615c3bc80a345491655e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:16 +0000
Subject: [PATCH 14/36] fix: appending a BasicString to itself must terminate

---
 core/ds/string/BasicString.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/ds/string/BasicString.hpp b/core/ds/string/BasicString.hpp
index f2cc2e7..fff7f18 100644
--- a/core/ds/string/BasicString.hpp
+++ b/core/ds/string/BasicString.hpp
@@ -121,9 +121,9 @@ public:
     BasicString & operator+=(const BasicString &str) {
         if (mCharList_d.capacity() < mCharList_d.size() + str.mCharList_d.size() - 1)
             mCharList_d.resize(mCharList_d.size() + str.mCharList_d.size() - 1);
-        mCharList_d[-1] = str[0];
-        for (int i = 1; i < str.mCharList_d.size(); i++) {
-            mCharList_d.push_back(str.mCharList_d[i]);
+        const int n = str.size(); // str may be *this
+        for (int i = 0; i < n; i++) {
+            push_back(str.mCharList_d[i]);
         }
         return *this;
     }
-- 
2.43.0


From c13a51514b05f26bc3d31bc959f1489c1c13e8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:16 +0000
Subject: [PATCH 15/36] fix: Map::operator[] const must compile

---
 core/ds/Map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ds/Map.hpp b/core/ds/Map.hpp
index 807b6d7..2cd5af9 100644
--- a/core/ds/Map.hpp
+++ b/core/ds/Map.hpp
@@ -95,7 +95,7 @@ public: // Access & Modifiers
     }
 
     ConstReferenceType operator[](const KType &key) const {
-        auto target = find(key);
+        auto target = mDStruct_d.find(KeyValueType { key, ValueType() });
         DSTRUCT_ASSERT(target != mDStruct_d.end());
         return target->value;
     }
-- 
2.43.0


From 490f39ec99bf9789aaa7516e25f7e61a46a5a519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:01 +0000
Subject: [PATCH 16/36] fix: BinaryTree::copy must build a valid tree in fresh
 nodes

---
 core/ds/tree/BinaryTree.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/core/ds/tree/BinaryTree.hpp b/core/ds/tree/BinaryTree.hpp
index 382ed99..3d210b5 100644
--- a/core/ds/tree/BinaryTree.hpp
+++ b/core/ds/tree/BinaryTree.hpp
@@ -184,16 +184,16 @@ public:
             return nullptr;
 
         Node_ *newRoot = AllocNode_::allocate();
-        newRoot->data = root->data;
-        newRoot->parent = nullptr;
+        dstruct::construct(newRoot, Node_(root->data));
+        auto newLink = Node_::to_link(newRoot);
 
-        newRoot->left = copy(root->left);
-        if (newRoot->left)
-            newRoot->left->parent = newRoot;
+        newLink->left = reinterpret_cast<typename Node_::LinkType *>(copy(Node_::to_node(root->link.left)));
+        if (newLink->left)
+            newLink->left->parent = newLink;
 
-        newRoot->right = copy(root->right);
-        if (newRoot->right)
-            newRoot->right->parent = newRoot;
+        newLink->right = reinterpret_cast<typename Node_::LinkType *>(copy(Node_::to_node(root->link.right)));
+        if (newLink->right)
+            newLink->right->parent = newLink;
 
         return newRoot;
     }
-- 
2.43.0


From c52076efa0b95cd8604ea55425f2e7357a524090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:01 +0000
Subject: [PATCH 17/36] fix: AVLTree (and Map) copies and moves must not share
 nodes

---
 core/ds/tree/AVLTree.hpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/core/ds/tree/AVLTree.hpp b/core/ds/tree/AVLTree.hpp
index df3ff65..39e08e6 100644
--- a/core/ds/tree/AVLTree.hpp
+++ b/core/ds/tree/AVLTree.hpp
@@ -109,6 +109,31 @@ public:
 public:
     AVLTree(CMP cmp = CMP()) : BinaryTree_e { nullptr, 0 }, mCmp_d { cmp } { }
 
+    DSTRUCT_COPY_SEMANTICS(AVLTree) {
+        BinaryTree_e::clear();
+        BinaryTree_e::mRootPtr_d = BinaryTree_e::copy(ds.mRootPtr_d);
+        BinaryTree_e::mSize_d = ds.mSize_d;
+        mCmp_d = ds.mCmp_d;
+        return *this;
+    }
+
+    DSTRUCT_MOVE_SEMANTICS(AVLTree) {
+        BinaryTree_e::clear();
+
+        // move
+        BinaryTree_e::mRootPtr_d = ds.mRootPtr_d;
+        BinaryTree_e::mSize_d = ds.mSize_d;
+        mCmp_d = ds.mCmp_d;
+
+        // reset
+        ds.mRootPtr_d = nullptr;
+        ds.mSize_d = 0;
+
+        return *this;
+    }
+
+    ~AVLTree() = default;
+
 public:
     void push(const T &element) {
         auto root = _insert(Node_::to_link(BinaryTree_e::mRootPtr_d), element);
-- 
2.43.0


From 1d380044e29b1d78ba47aec5ec434d52bffaea77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:01 +0000
Subject: [PATCH 18/36] fix: AVLTree::erase must not copy the next element

---
 core/ds/tree/AVLTree.hpp | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/core/ds/tree/AVLTree.hpp b/core/ds/tree/AVLTree.hpp
index 39e08e6..780c3cc 100644
--- a/core/ds/tree/AVLTree.hpp
+++ b/core/ds/tree/AVLTree.hpp
@@ -165,18 +165,11 @@ public:
     typename AVLTree::ConstIteratorType
     erase(typename AVLTree::ConstIteratorType it) {
         auto target = it._get_link_pointer();
-        decltype(it) next = ++it;
-        typename RemoveConst<T>::Type nextData;
-        bool needUpdateNext = false;
-        
-        if (next._get_link_pointer() != nullptr) {
-            nextData = *next;
-            needUpdateNext = true;
-        }
+        decltype(it) next = ++it; // nodes are relinked, never copied: stays valid
 
         _delete_by_target(target);
 
-        return needUpdateNext ? find(nextData) : next;
+        return next;
     }
 
     int height() const {
-- 
2.43.0


From 22097bd604793c244b0684e8e9a901b8b1e08625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:01 +0000
Subject: [PATCH 19/36] fix: AVLTree::erase of the root must update the root

---
 core/ds/tree/AVLTree.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/ds/tree/AVLTree.hpp b/core/ds/tree/AVLTree.hpp
index 780c3cc..b95b3e8 100644
--- a/core/ds/tree/AVLTree.hpp
+++ b/core/ds/tree/AVLTree.hpp
@@ -284,6 +284,8 @@ protected:
                 }
                 _update_height(parent);
                 _rebalance_after_delete(parent);
+            } else {
+                BinaryTree_e::_update_root(nullptr);
             }
 
             _real_delete(target);
@@ -306,6 +308,8 @@ protected:
                 }
                 _update_height(parent);
                 _rebalance_after_delete(parent);
+            } else {
+                BinaryTree_e::_update_root(child);
             }
 
             _real_delete(target);
-- 
2.43.0


From 31016a99c752ff10218cf596f4b28fd2b0ee7f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:01 +0000
Subject: [PATCH 20/36] fix: popping an absent element from a tree must be a
 no-op

---
 core/ds/tree/AVLTree.hpp          | 1 +
 core/ds/tree/BinarySearchTree.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/core/ds/tree/AVLTree.hpp b/core/ds/tree/AVLTree.hpp
index b95b3e8..4a389da 100644
--- a/core/ds/tree/AVLTree.hpp
+++ b/core/ds/tree/AVLTree.hpp
@@ -319,6 +319,7 @@ protected:
     }
 
     typename Node_::LinkType * _delete(typename Node_::LinkType *root, const T &obj) {
+        if (root == nullptr) return nullptr; // obj isn't in the tree
         auto nPtr = Node_::to_node(root);
         if (mCmp_d(obj, nPtr->data.val)) {
             root->left = _delete(root->left, obj);
diff --git a/core/ds/tree/BinarySearchTree.hpp b/core/ds/tree/BinarySearchTree.hpp
index 64aa446..aba0195 100644
--- a/core/ds/tree/BinarySearchTree.hpp
+++ b/core/ds/tree/BinarySearchTree.hpp
@@ -187,6 +187,7 @@ protected:
     }
 
     typename Node_::LinkType * _delete(typename Node_::LinkType *root, const T &obj) {
+        if (root == nullptr) return nullptr; // obj isn't in the tree
         auto nPtr = Node_::to_node(root);
         if (mCmp_d(obj, nPtr->data)) {
             root->left = _delete(root->left, obj);
-- 
2.43.0


From 7963ceccd8965486ccc1eabec369f0ca88635386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:01 +0000
Subject: [PATCH 21/36] fix: BinarySearchTree must replace a two-child node by
 its successor

---
 core/ds/tree/BinarySearchTree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ds/tree/BinarySearchTree.hpp b/core/ds/tree/BinarySearchTree.hpp
index aba0195..cb12564 100644
--- a/core/ds/tree/BinarySearchTree.hpp
+++ b/core/ds/tree/BinarySearchTree.hpp
@@ -210,7 +210,7 @@ protected:
         } else { // have l and r, haven't del the node directly
             // step1: find right-bot
             typename Node_::LinkType *tmp = linkPtr->right;
-            while (nullptr == tmp->left) {
+            while (nullptr != tmp->left) {
                 tmp = tmp->left;
             }
 
-- 
2.43.0


From 49e99d1f07f414c5398a780265e445ae2be5950e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:01 +0000
Subject: [PATCH 22/36] fix: BinarySearchTree must not count an ignored
 duplicate

---
 core/ds/tree/BinarySearchTree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ds/tree/BinarySearchTree.hpp b/core/ds/tree/BinarySearchTree.hpp
index cb12564..f277154 100644
--- a/core/ds/tree/BinarySearchTree.hpp
+++ b/core/ds/tree/BinarySearchTree.hpp
@@ -70,7 +70,6 @@ public: // push/pop
         auto tree = _insert(obj);
         if (BinaryTree_e::mRootPtr_d == nullptr)
             BinaryTree_e::_update_root(tree);
-        BinaryTree_e::mSize_d++;
     }
 
     void pop(const T &obj) {
@@ -166,6 +165,7 @@ protected:
         auto nodePtr = AllocNode_::allocate();
         auto newNodeLink = Node_::to_link(nodePtr);
         dstruct::construct(nodePtr, Node_(obj));
+        BinaryTree_e::mSize_d++;
 
         if (parent != nullptr) { // nodePtr isn't root
             newNodeLink->parent = parent;
-- 
2.43.0


From c9d1bd094597fbff46a3a6f40854c9e673439350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:01 +0000
Subject: [PATCH 23/36] fix: BinarySearchTree::erase must find the node of an
 over-aligned element

---
 core/ds/tree/BinarySearchTree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ds/tree/BinarySearchTree.hpp b/core/ds/tree/BinarySearchTree.hpp
index f277154..1cb39f2 100644
--- a/core/ds/tree/BinarySearchTree.hpp
+++ b/core/ds/tree/BinarySearchTree.hpp
@@ -94,7 +94,7 @@ public:
     typename BinarySearchTree::ConstIteratorType
     erase(typename BinarySearchTree::ConstIteratorType it) {
 
-        auto target = Node_::data_to_link(it.operator->());
+        auto target = it._get_link_pointer();
         auto parent = target->parent;
         auto next = it; it++; // get next node
 
-- 
2.43.0


From 67b04c02698d3d03769b153497de8c8028d21a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:01 +0000
Subject: [PATCH 24/36] fix: AVLTree iteration must honour the requested
 traversal order

---
 core/ds/tree/AVLTree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ds/tree/AVLTree.hpp b/core/ds/tree/AVLTree.hpp
index 4a389da..78bfb60 100644
--- a/core/ds/tree/AVLTree.hpp
+++ b/core/ds/tree/AVLTree.hpp
@@ -180,12 +180,12 @@ public: // range-for and iterator
 
     typename AVLTree::ConstIteratorType
     begin(TraversalType ttype = TraversalType::InOrder) const {
-        return BinaryTree_e::begin();
+        return BinaryTree_e::begin(ttype);
     }
 
     typename AVLTree::ConstIteratorType
     end(TraversalType ttype = TraversalType::InOrder) const {
-        return BinaryTree_e::end();
+        return BinaryTree_e::end(ttype);
     }
 
 protected:
-- 
2.43.0


From b81d409f1f39c5dc31ee33967ab660cd465f937e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:42 +0000
Subject: [PATCH 25/36] fix: iterating an empty tree must not dereference its
 null root

---
 core/ds/tree/BinaryTree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ds/tree/BinaryTree.hpp b/core/ds/tree/BinaryTree.hpp
index 3d210b5..e7fa351 100644
--- a/core/ds/tree/BinaryTree.hpp
+++ b/core/ds/tree/BinaryTree.hpp
@@ -211,7 +211,7 @@ public:
 
     static typename Node_::LinkType * first_node(typename Node_::LinkType *root, TraversalType ttype = TraversalType::InOrder) {
         auto first = root;
-        if (ttype != TraversalType::PreOrder) {
+        if (first != nullptr && ttype != TraversalType::PreOrder) {
             while (first->left != nullptr) {
                 first = first->left;
             }
-- 
2.43.0


From 1a33f6bd891dd6c5f498f11e6eb9e49e489901bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:42 +0000
Subject: [PATCH 26/36] fix: traversal must visit the whole tree in every order

---
 core/ds/tree/BinaryTree.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/ds/tree/BinaryTree.hpp b/core/ds/tree/BinaryTree.hpp
index e7fa351..1839a7a 100644
--- a/core/ds/tree/BinaryTree.hpp
+++ b/core/ds/tree/BinaryTree.hpp
@@ -155,17 +155,17 @@ public: // algo
 
         switch (ttype) {
             case TraversalType::PreOrder:
-                return  tree::preorder_traversal(first_node(Node_::to_link(mRootPtr_d), ttype), cbWrapper);
+                return  tree::preorder_traversal(Node_::to_link(mRootPtr_d), cbWrapper);
             case TraversalType::InOrder:
-                return  tree::inorder_traversal(first_node(Node_::to_link(mRootPtr_d), ttype), cbWrapper);
+                return  tree::inorder_traversal(Node_::to_link(mRootPtr_d), cbWrapper);
             case TraversalType::PostOrder:
-                return  tree::postorder_traversal(first_node(Node_::to_link(mRootPtr_d), ttype), cbWrapper);
+                return  tree::postorder_traversal(Node_::to_link(mRootPtr_d), cbWrapper);
             default: {
                 DSTRUCT_ASSERT(false);
             }
         }
 
-        return  tree::preorder_traversal(first_node(Node_::to_link(mRootPtr_d), ttype), cbWrapper);
+        return  tree::preorder_traversal(Node_::to_link(mRootPtr_d), cbWrapper);
     }
 
 public: // range-for and iterator
-- 
2.43.0


From 0f23eddf53a204fed0834e9ff92b2eaedfd8a2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:42 +0000
Subject: [PATCH 27/36] fix: postorder iteration must visit children before
 their parent

---
 core/ds/tree/BinaryTree.hpp         | 4 ++--
 core/ds/tree/EmbeddedBinaryTree.hpp | 9 +++------
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/core/ds/tree/BinaryTree.hpp b/core/ds/tree/BinaryTree.hpp
index 1839a7a..92390ae 100644
--- a/core/ds/tree/BinaryTree.hpp
+++ b/core/ds/tree/BinaryTree.hpp
@@ -212,8 +212,8 @@ public:
     static typename Node_::LinkType * first_node(typename Node_::LinkType *root, TraversalType ttype = TraversalType::InOrder) {
         auto first = root;
         if (first != nullptr && ttype != TraversalType::PreOrder) {
-            while (first->left != nullptr) {
-                first = first->left;
+            while (first->left != nullptr || (ttype == TraversalType::PostOrder && first->right != nullptr)) {
+                first = first->left != nullptr ? first->left : first->right;
             }
         }
         return first;
diff --git a/core/ds/tree/EmbeddedBinaryTree.hpp b/core/ds/tree/EmbeddedBinaryTree.hpp
index a86f18d..2e49f7f 100644
--- a/core/ds/tree/EmbeddedBinaryTree.hpp
+++ b/core/ds/tree/EmbeddedBinaryTree.hpp
@@ -140,8 +140,9 @@ static BinaryTreeLink_ * next_postorder(BinaryTreeLink_ *link) {
         return nullptr;
     }
 
-    if (link->right != nullptr) {
-        link = link->right;
+    // link->parent != nullptr : root check
+    if (link->parent != nullptr && link->parent->right != nullptr && link->parent->right != link) {
+        link = link->parent->right;
         while (link->left != nullptr || link->right != nullptr) {
             if (link->left != nullptr) {
                 link = link->left;
@@ -152,10 +153,6 @@ static BinaryTreeLink_ * next_postorder(BinaryTreeLink_ *link) {
         return link;
     }
 
-    // link->parent != nullptr : root check
-    while (link->parent != nullptr && link->parent->right == link) {
-        link = link->parent;
-    }
     return link->parent;
 }
 
-- 
2.43.0


From 7880cd70fd830f1f219bf923ece6e7613bd14b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:42 +0000
Subject: [PATCH 28/36] fix: DisjointSet must not link a root to itself

---
 core/ds/set/DisjointSet.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/ds/set/DisjointSet.hpp b/core/ds/set/DisjointSet.hpp
index 59bc539..ee82560 100644
--- a/core/ds/set/DisjointSet.hpp
+++ b/core/ds/set/DisjointSet.hpp
@@ -72,6 +72,7 @@ public:
     }
 
     void union_set(ConstReferenceType root1, ConstReferenceType root2) {
+        if (root1 == root2) return; // already in the same set
         if (root1 < root2) {
             mArray_d[root2] = root1;
         } else {
-- 
2.43.0


From 20901ed926f271029b4e545b4887441664718837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:42 +0000
Subject: [PATCH 29/36] fix: XValueStack must save the extreme for every equal
 push

---
 core/ds/stack/XValueStack.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ds/stack/XValueStack.hpp b/core/ds/stack/XValueStack.hpp
index 4d1a174..2d8d94c 100644
--- a/core/ds/stack/XValueStack.hpp
+++ b/core/ds/stack/XValueStack.hpp
@@ -51,7 +51,7 @@ public:
     T getXValue() const { return mXValue_d; }
 
     void push(const T &val) {
-        if (mStack_d.empty() || mCmp_d(val, mXValue_d)) {
+        if (mStack_d.empty() || !mCmp_d(mXValue_d, val)) {
             mStack_d.push(mXValue_d); // save XValue
             mXValue_d = val;
         }
-- 
2.43.0


From ce77c8b357e8a145e348a3a222bf926e721bc6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:42 +0000
Subject: [PATCH 30/36] fix: StaticMemAllocator pool must be aligned

---
 memory/StaticMemAllocator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memory/StaticMemAllocator.hpp b/memory/StaticMemAllocator.hpp
index 1d8c0ed..de42480 100644
--- a/memory/StaticMemAllocator.hpp
+++ b/memory/StaticMemAllocator.hpp
@@ -138,7 +138,7 @@ public: // mem-manager interface
 
 protected:
     int mFreeMemSize_d;
-    char mMemoryPool_d[MEMORY_SIZE];
+    alignas(SMA_MEM_ALIGN) char mMemoryPool_d[MEMORY_SIZE];
     dstruct::Array<Link_e, MAX_BLOCK_SIZE / SMA_MEM_ALIGN + 1/*MemPoolManager*/> mFreeMemList_d;
 
     static StaticMemAllocator & Instance_() {
-- 
2.43.0


From 58deaee3a5c7b1b525ec6104c6380bc526a6fbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:42 +0000
Subject: [PATCH 31/36] fix: StaticMemAllocator must not swallow its pool for a
 0-byte request

---
 memory/StaticMemAllocator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/memory/StaticMemAllocator.hpp b/memory/StaticMemAllocator.hpp
index de42480..b0a6ed2 100644
--- a/memory/StaticMemAllocator.hpp
+++ b/memory/StaticMemAllocator.hpp
@@ -156,6 +156,8 @@ protected:
 
     void * allocate_d(int bytes) {
 
+        if (bytes <= 0) return nullptr;
+
         MemBlock_e targetMemBlockIndex;
 
         if (bytes > MAX_BLOCK_SIZE) {
-- 
2.43.0


From 3b3d9a9e47495ee66c7cc1441498cde7033c076c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:18 +0000
Subject: [PATCH 32/36] fix: StaticMemAllocator must refuse a request larger
 than its memory

---
 memory/StaticMemAllocator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memory/StaticMemAllocator.hpp b/memory/StaticMemAllocator.hpp
index b0a6ed2..3056c35 100644
--- a/memory/StaticMemAllocator.hpp
+++ b/memory/StaticMemAllocator.hpp
@@ -156,7 +156,7 @@ protected:
 
     void * allocate_d(int bytes) {
 
-        if (bytes <= 0) return nullptr;
+        if (bytes <= 0 || bytes > MEMORY_SIZE) return nullptr;
 
         MemBlock_e targetMemBlockIndex;
 
-- 
2.43.0


From 76187cec2a2491fc34b20298babdf559aa592fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:18 +0000
Subject: [PATCH 33/36] fix: StaticMemAllocator merge must look past blocks
 that lie before the one being merged

---
 memory/StaticMemAllocator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memory/StaticMemAllocator.hpp b/memory/StaticMemAllocator.hpp
index 3056c35..86e4cc0 100644
--- a/memory/StaticMemAllocator.hpp
+++ b/memory/StaticMemAllocator.hpp
@@ -258,7 +258,7 @@ protected: // quick allocator
                                 break;
                             }
 
-                            if (firstMemBlockPtr > secondMemBlockPtr) break;
+                            if (firstMemBlockPtr < secondMemBlockPtr) break;
 
                             secondMemLinkPtr = secondMemBlockPtr;
                             secondMemBlockPtr = secondMemLinkPtr->next;
-- 
2.43.0


From 48497761d9e542dc3a79834d525fc34f5d898032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:14 +0000
Subject: [PATCH 34/36] fix: a Deque that stays small must give its memory back

---
 core/ds/queue/DoubleEndedQueue.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ds/queue/DoubleEndedQueue.hpp b/core/ds/queue/DoubleEndedQueue.hpp
index 2919db6..ae6d6bb 100644
--- a/core/ds/queue/DoubleEndedQueue.hpp
+++ b/core/ds/queue/DoubleEndedQueue.hpp
@@ -365,7 +365,7 @@ protected:
 
         // request: n / ARR_SIZE <= ((mSize_d - 1 - 1) / ARR_SIZE + 1 + 1)
         // n = y * oldCapacity  
-        if (!isExtend && newMapTableSize >= arrNum) {
+        if (!isExtend && newMapTableSize <= arrNum) {
             // when arrNum = ((mSize_d - 1 - 1) / ARR_SIZE + 1 + 1)
             // exist newMapTableSize < arrNum
             return;
@@ -397,7 +397,7 @@ protected:
         mEnd_d.mCurrMapIndex_d = newArrEndIndex;
 
         // boundary check
-        if (mEnd_d.mCurr_d == mArrMapTable_d[newArrEndIndex]->end()) {
+        if (mEnd_d.mCurr_d == mArrMapTable_d[newArrEndIndex]->end() && newArrEndIndex + 1 < newMapTableSize) {
             mEnd_d.mCurrMapIndex_d++;
             mEnd_d.mCurr_d = mArrMapTable_d[mEnd_d.mCurrMapIndex_d]->begin();
             mEnd_d._sync();
-- 
2.43.0


From 551f07ecff27e95ad288962281dece3329406742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:06 +0000
Subject: [PATCH 35/36] fix: StaticMemAllocator merge must join quick blocks
 with the pool blocks next to them

---
 memory/StaticMemAllocator.hpp | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/memory/StaticMemAllocator.hpp b/memory/StaticMemAllocator.hpp
index 86e4cc0..6d5bbba 100644
--- a/memory/StaticMemAllocator.hpp
+++ b/memory/StaticMemAllocator.hpp
@@ -344,8 +344,38 @@ protected: // common
 
     }
 
+    // join the blocks of the quick lists to the mem-pool blocks next to them
+    void quick_mem_to_pool_merge_d() {
+        Link_e *poolLinkPtr = &(mFreeMemList_d[-1]);
+        while (poolLinkPtr->next != nullptr) {
+            MemBlock_e *mbPtr = MemBlock_e::to_node(poolLinkPtr->next);
+            bool mergedFlag = false;
+            for (int i = 0; i < mFreeMemList_d.size() - 1 && !mergedFlag; i++) {
+                Link_e *preLinkPtr = &(mFreeMemList_d[i]);
+                while (preLinkPtr->next != nullptr && !mergedFlag) {
+                    Link_e *quickLinkPtr = preLinkPtr->next;
+                    if (SMA_ADDRESS_EQUAL(reinterpret_cast<char *>(quickLinkPtr) + INDEX_TO_SIZE_(i), mbPtr)) {
+                        int size = INDEX_TO_SIZE_(i) + mbPtr->data;
+                        preLinkPtr->next = quickLinkPtr->next; // delete quick block from list[i]
+                        poolLinkPtr->next = mbPtr->link.next; // delete mem block from mem-pool
+                        insert_mem_block_to_list_d(quickLinkPtr, size);
+                        mergedFlag = true;
+                    } else if (SMA_ADDRESS_EQUAL(reinterpret_cast<char *>(mbPtr) + mbPtr->data, quickLinkPtr)) {
+                        preLinkPtr->next = quickLinkPtr->next; // delete quick block from list[i]
+                        mbPtr->data += INDEX_TO_SIZE_(i);
+                        mergedFlag = true;
+                    } else {
+                        preLinkPtr = quickLinkPtr;
+                    }
+                }
+            }
+            if (mergedFlag == false) poolLinkPtr = poolLinkPtr->next;
+        }
+    }
+
     void memory_merge_d() {
         quick_mem_memory_merge_d();
+        quick_mem_to_pool_merge_d();
         mem_pool_memory_merge_d();
     }
 
-- 
2.43.0


From 090e4e46786494c42fb5d2448c50d69daff052e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:54 +0000
Subject: [PATCH 36/36] fix: XValueStack::push of an element of the stack
 itself read released storage

---
 core/ds/stack/XValueStack.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/ds/stack/XValueStack.hpp b/core/ds/stack/XValueStack.hpp
index 2d8d94c..66cfa16 100644
--- a/core/ds/stack/XValueStack.hpp
+++ b/core/ds/stack/XValueStack.hpp
@@ -51,11 +51,12 @@ public:
     T getXValue() const { return mXValue_d; }
 
     void push(const T &val) {
-        if (mStack_d.empty() || !mCmp_d(mXValue_d, val)) {
+        T obj(val); // val may be in the storage to be released
+        if (mStack_d.empty() || !mCmp_d(mXValue_d, obj)) {
             mStack_d.push(mXValue_d); // save XValue
-            mXValue_d = val;
+            mXValue_d = obj;
         }
-        mStack_d.push(val);
+        mStack_d.push(obj);
     }
 
     void pop() {
-- 
2.43.0

