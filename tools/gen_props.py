#!/usr/bin/env python3
# writes properties.jsonl (kept in the repository so the text has one source)
import json
P=[]
def p(id,title,st,over,text,why,files,mech,state=None,obs=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],observe_at=obs or [],hook_needed=None)))
V='core/ds/array/Vector.hpp';LL='core/ds/linked-list/LinkedList.hpp';SL='core/ds/linked-list/SinglyLinkedList.hpp';DL='core/ds/linked-list/DoublyLinkedList.hpp';EL='core/ds/linked-list/EmbeddedList.hpp'
DQ='core/ds/queue/DoubleEndedQueue.hpp';Q='core/ds/queue/Queue.hpp';SK='core/ds/stack/Stack.hpp';XV='core/ds/stack/XValueStack.hpp';H='core/ds/Heap.hpp'
BT='core/ds/tree/BinaryTree.hpp';BS='core/ds/tree/BinarySearchTree.hpp';EB='core/ds/tree/EmbeddedBinaryTree.hpp';AV='core/ds/tree/AVLTree.hpp';MP='core/ds/Map.hpp';BB='core/ds/tree/BinarySearchTreeBase.hpp'
DS='core/ds/set/DisjointSet.hpp';ST='core/ds/string/BasicString.hpp';SM='memory/StaticMemAllocator.hpp';AR='core/ds/array/Array.hpp';CM='core/common.hpp'
H1=['inputs','histories']
p('C01','Vector is a faithful growable sequence',
 'After any history of construction, push_back, pop_back, resize, clear and element assignment, a Vector reports the number of elements it should hold, indexing (from the front with i >= 0, from the back with i < 0), front, back and begin..end give exactly those elements in order, and capacity is never below size. push_back appends one element, pop_back removes the last, resize(n) keeps the first min(n,size) elements and resize(n,x) additionally fills up to n with x.',
 H1,'every element value, size, capacity and sequence of operations','examples/array drives int vectors of a few sizes; growth/shrink boundaries (size == capacity, size < capacity/3, n < size, n > size) are each hit once at most',
 [V],[('growth and shrink','Vector::push_back, pop_back, resize'),('index mapping','Vector::operator[]')],[('mSize_d/mCapacity_d/mC_d','element count, slot count, storage',V)],['size','operator[]','begin/end'])
p('C02','Every element object lives exactly once',
 'In every container, an element object is constructed in raw storage before anything reads, assigns or destroys it, is never constructed over a live one, and is destroyed exactly once before its storage is returned; when the container is cleared or destroyed no element object it created remains alive.',
 H1,'every container, element type with non-trivial construction and destruction, and history','all examples use int or other trivial elements, for which a missing or doubled constructor or destructor call is invisible',
 [V,CM,LL,SL,DL,DQ,BT,BS,AV,H],[('placement construction and destruction','dstruct::construct, dstruct::destroy and their call sites')],None,['element constructor / destructor / assignment calls'])
p('C03','Storage is used within its lifetime and returned exactly once',
 'Every block a container takes from its allocator is returned to that allocator exactly once, with the size it was requested with, no later than the destruction (or clear) of its owner; no container reads or writes outside a block it owns, through a null pointer, or after returning the block.',
 H1,'every container, element type, allocator and history','the default allocator ignores the size passed back and the examples never look for leaks or stale access',
 [V,LL,SL,DL,DQ,BT,BS,AV,ST,H,'spec/DStructSpec.hpp'],[('size-carrying deallocation','AllocSpec::allocate/deallocate'),('release on clear/destroy/resize','Vector::clear/resize, LinkedList_::pop_front, DoubleEndedQueue::_only_clear/_resize, BinaryTree::clear')],None,['allocate / deallocate calls, loads and stores'])
p('C04','A copy equals its source and is independent of it',
 'Copy-constructing or copy-assigning any container gives it exactly the elements of the source in the same order and leaves the source unchanged; afterwards the two share no storage, so no operation on one can be observed through the other, and the previous contents of the target are released.',
 H1,'every source state, target state (empty or not) and later history','examples copy a few small containers and rarely touch both afterwards; shared nodes only show once one side changes or dies',
 [V,SL,DL,DQ,ST,BS,BT,AV,MP,H,CM],[('copy semantics','DSTRUCT_COPY_SEMANTICS bodies, BinaryTree::copy')],None,['contents of both containers, storage ledger'])
p('C05','A move transfers the contents and leaves a usable empty source',
 'Move-constructing or move-assigning any container transfers exactly the elements of the source, in order, to the target (whose previous contents are released) and leaves the source empty, valid and reusable, also when the source was empty; self-assignment changes nothing.',
 H1,'every source and target state, including empty ones and self-assignment','examples move one populated container; empty sources, self moves and reuse of the source are not exercised',
 [V,LL,SL,DL,DQ,ST,BS,AV,MP,H,CM],[('move semantics','DSTRUCT_MOVE_SEMANTICS bodies'),('self test','common.hpp macros')],None,['contents of both containers after the move and after reuse'])
p('C06','Arguments may alias the container they are passed to',
 'Passing a container a reference to one of its own elements (pushing v[i], resizing with v[i], a string appended to itself, erasing a key that lives in the tree) behaves exactly as if a copy of that value had been passed, whether or not the operation reallocates.',
 H1,'every size/capacity relation and every element position','the examples never pass an element of the container itself; the fault needs size == capacity',
 [V,ST,DQ,H,XV,DS,AV,BS],[('argument saved before the old storage is released','Vector::push_back, Vector::resize(n, element), BasicString::operator+=, BasicString::push_back, Heap::push, XValueStack::push')],None,['appended element'])
p('C07','Array keeps its N elements and maps negative indices from the end',
 'A fixed-size Array holds exactly N elements: construction from a value sets them all, copy and move transfer each position, operator[](i) with 0 <= i < N is the i-th element and operator[](-i) with 1 <= i <= N the i-th from the end, front/back/begin/end agree with that, and nothing outside the N elements is touched.',
 ['inputs'],'every element value and every index in [-N, N)','the example reads a handful of indices of one array',
 [AR],[('index mapping','Array::operator[]'),('element-wise copy','Array::operator=')],None,['operator[]','front','back','begin/end'])
p('C08','SinglyLinkedList is a faithful sequence',
 'After any history of push_front/push, push_back, pop_front/pop, _pop_back and clear, size, empty, front, back and iteration of a SinglyLinkedList show exactly the elements that should be there, in order, and the list remains usable at both ends, also after it has become empty.',
 H1,'every length and interleaving of operations at the two ends','the example only pushes and pops a few ints; the tail after a list became empty and was refilled from the other end is never looked at',
 [LL,SL,EL],[('tail maintenance','SinglyLinkedList::push_front/push_back/pop_front/_pop_back/clear'),('circular links','SinglyLink_::add/del')],None,['size','front','back','iteration'])
p('C09','DoublyLinkedList is a faithful sequence in both directions',
 'After any history of push_front/push, push_back, pop_front/pop, pop_back and clear, size, empty, front, back and iteration of a DoublyLinkedList show exactly the elements that should be there in order, and stepping backwards from the end visits the same elements in reverse.',
 H1,'every length and interleaving of operations at the two ends','the example only walks forwards over short lists; a broken back link is invisible until someone walks backwards or pops at the back',
 [LL,DL,EL],[('double links','DoublyLink_::add/del'),('sentinel relinking','DoublyLinkedList move')],None,['size','front','back','iteration in both directions'])
p('C10','Intrusive link operations insert and remove exactly one node',
 'On an intrusive list, init makes a node an empty list, add(prev, n) places n directly after prev and changes no other neighbour relation, del(prev, n) removes exactly n and leaves its links null, empty reports whether only the head is linked, and a node and its link convert into each other without loss; for the doubly linked form the backward chain always mirrors the forward chain.',
 ['inputs'],'every list (circular or null-terminated) and position','embedded_list inserts and removes along one fixed sequence',
 [EL],[('link primitives','SinglyLink_/DoublyLink_ init, empty, add, del')],None,['next/prev links'])
p('C11','Deque is a faithful double-ended sequence',
 'After any history of push_front, push_back, pop_front, pop_back and clear, size, empty, front, back, operator[] (from the front, or from the back with negative indices) and iteration (forwards, backwards and by iterator + n or - n) of a Deque show exactly the elements that should be there in order, whatever block size it was instantiated with.',
 H1,'every history, fill level, begin/end position relative to block boundaries, and block size','the example uses block size 32 with short runs, so block crossings, table growth and table shrink are barely reached',
 [DQ],[('block map reallocation','DoubleEndedQueue::_resize'),('block-crossing iterator','DoubleEndedQueueIterator_::operator++/--')],[('mArrMapTable_d, mBegin_d, mEnd_d','block table and end positions',DQ)],['size','front','back','operator[]','iteration'])
p('C12','Queue is FIFO and Stack is LIFO',
 'A Queue yields its elements through front/pop in exactly the order they were pushed, with back the latest pushed; a Stack yields them through top/pop in exactly the reverse order; size and empty count what has been pushed and not popped, and iteration shows the same elements oldest first.',
 H1,'every interleaving of pushes and pops','the examples push a short run then pop it all',
 [Q,SK,DQ,V],[('adapters','adapter::Queue, adapter::Stack')],None,['front','back','top','size'])
p('C13','A Min/MaxStack always knows its extreme',
 'For every non-empty MinStack (MaxStack), getXValue is the smallest (largest) of the elements currently in the stack, and top/pop/empty behave as for a plain stack, for any sequence of pushes and pops, including repeated and equal values.',
 H1,'every sequence of pushed values and pops, including duplicates of the extreme','the example pushes distinct values once',
 [XV,SK],[('saved extremes','XValueStack::push/pop')],None,['top','getXValue','empty'])
p('C14','A heap delivers its extreme element and loses none',
 'After any history of construction from a range, push and pop, top is an element that precedes (under the heap ordering) or is equivalent to every element in the heap, size counts the elements held, and the elements held are exactly those pushed and not yet delivered by pop, which removes the top one.',
 H1,'every sequence of values and operations','the example checks one random sequence of ints',
 [H,V],[('sift up / sift down','Heap::_adjust_up, _adjust_down')],None,['top','size','multiset of elements'])
p('C15','Heap sort orders a range and heap build rearranges it',
 'Heap::sort leaves in the range exactly the elements it contained, ordered by the heap comparison; Heap::build leaves a permutation of the range whose first element is the extreme.',
 ['inputs'],'every range length and content','one random array is sorted and compared',
 [H],[('repeated extraction','Heap::sort, Heap::build')],None,['range contents'])
p('C16','A binary search tree is an ordered set',
 'After any history of push, pop, erase and clear, a BSTree contains exactly the values pushed and not removed (pushing a present value and popping an absent one change nothing), size counts them, find reaches exactly the present ones, and in-order iteration is strictly increasing.',
 H1,'every tree shape and key position','the example inserts a few ints and deletes some; two-child deletions with deep successors, absent keys and duplicates are not covered',
 [BS,BT,BB,EB],[('search-path insertion','BinarySearchTree::_insert'),('successor replacement','BinarySearchTree::_try_to_delete'),('search','BinarySearchTreeBase::_find')],None,['size','find','iteration','parent links via iteration'])
p('C17','An AVL tree is an ordered set',
 'After any history of push (of absent values), pop, erase and clear, an AVLTree contains exactly the values pushed and not removed (popping an absent value changes nothing), size counts them, find reaches exactly the present ones, and in-order iteration is strictly increasing.',
 H1,'every tree shape and key position','the example inserts and removes random ints without forcing every rotation with populated subtrees',
 [AV,BT,BB,EB],[('rebalancing insertion/deletion','AVLTree::_insert, _delete, _delete_by_target, _swap_node'),('rotations','tree::left_rotate, right_rotate')],None,['size','find','iteration'])
p('C18','An AVL tree stays height-balanced',
 'After any history of operations, for every node of an AVLTree the heights of its two subtrees differ by at most one, the height the tree reports (and tree::height computes) is its true height, and parent links agree with child links.',
 H1,'every tree shape reachable by insertion and removal','the example checks height on a few insertion orders; removals that must rebalance several levels are not checked',
 [AV,EB],[('height bookkeeping','AVLTree::_update_height, _check_and_balance, _rebalance_after_delete, _left_rotate, _right_rotate')],None,['height()','node heights'])
p('C19','A Map is a finite function from keys to values',
 'After any history of operator[] assignment, push, pop, erase and clear, a Map associates with each key the last value assigned since the key was last absent, size counts the keys, find/erase/pop act on exactly the given key, absent keys are not found, operator[] on an absent key adds it with a default value, and iteration visits each key once in increasing order.',
 H1,'every key set, key position and history','the example stores a few char keys',
 [MP,AV],[('key comparison wrapper','KVCMPKey'),('find-or-insert','Map::operator[]')],None,['operator[]','find','size','iteration'])
p('C20','Tree iteration and traversal visit each node once in the stated order',
 'For every binary tree and each of pre-, in- and post-order, iterating from begin to end and calling traversal both visit every element exactly once in that order (nothing for an empty tree), and erasing through an iterator removes that element and returns the in-order successor of the removed element.',
 ['inputs','histories'],'every tree shape','only in-order over a few shapes is compared',
 [BT,EB,BS,AV],[('successor functions','next_preorder, next_inorder, next_postorder, first_node'),('recursive traversals','preorder/inorder/postorder_traversal'),('erase','BinarySearchTree::erase, AVLTree::erase')],None,['visit sequence'])
p('C21','A UFSet represents exactly the partition generated by connect',
 'Two indices are connected if and only if they are equal or linked by a chain of connect calls made so far, count is the number of classes, find gives the same representative for two indices exactly when they are connected, and find itself never changes the partition, in any order of calls.',
 H1,'every number of indices and sequence of connect/find calls','the example connects one fixed grid',
 [DS],[('path compression','DisjointSet::find'),('union by rank','DisjointSet::union_set')],None,['connected','count','find'])
p('C22','A string is a NUL-terminated character sequence',
 'After any history of construction from a C string (also an empty one), assignment, push_back, element assignment, append, clear, copy and move, a String of size n holds the expected n characters, c_str() points at those n characters followed by a terminating NUL, and indexing, front, back and iteration agree with it.',
 H1,'every length (in particular around each capacity) and history','the example handles a few short literals',
 [ST,V],[('terminator maintenance','BasicString::push_back, clear, constructors')],None,['c_str','size','operator[]','iteration'])
p('C23','String concatenation and comparison follow the contents',
 'a + b and a += b produce the characters of a followed by those of b for every combination of strings and C strings, including a string with itself, leaving the operands of + unchanged; == is true exactly when both sides have the same length and characters and != is its negation.',
 ['inputs'],'every pair of strings','a few literals are compared',
 [ST],[('append loop','BasicString::operator+='),('comparison','operator==, operator!=')],None,['size','characters','result of ==/!='])
p('C24','Static memory blocks are disjoint, in range and aligned',
 'Every non-null block returned by a StaticMemAllocator lies wholly within its static memory, starts at a multiple of the allocation alignment, has at least the requested number of bytes, and overlaps neither any other block handed out and not yet returned nor anything the allocator itself still uses to keep track of free memory, for every sequence of requests, returns and merges.',
 H1,'every sequence of allocate, deallocate and memory_merge with any sizes','the example allocates a few sizes in one order; overlap needs splitting, reuse and merging to interleave',
 [SM],[('splitting','allocate_d, insert_mem_block_to_list_d'),('free lists','quick_mem_allocate_d, mem_pool_allocate_d')],[('mFreeMemList_d','segregated free lists plus pool list',SM)],['returned addresses'])
p('C25','Static memory accounting is exact and exhaustion is clean',
 'The reported free size of a StaticMemAllocator always equals its memory size minus the rounded sizes of the blocks handed out and equals the total of the blocks on its free lists; a request that cannot be met (including non-positive and oversized ones) returns null and changes nothing, and a block of the size just returned can be allocated again; max_free_mblock_size is the size of the largest free block. The static-memory port merges free memory before it gives up and stops the program rather than hand out null.',
 H1,'every sequence of requests and returns','the example checks free_mem_size after a few calls',
 [SM,'port/static-memory/sma-dstruct-port.hpp'],[('accounting','allocate_d, deallocate_d'),('retry after merging','port::allocate')],None,['free_mem_size','null results'])
p('C26','Merging static memory loses and invents nothing',
 'memory_merge only joins free blocks that are adjacent: the free bytes before and after are exactly the same bytes, each on exactly one free list suited to its size, blocks handed out are not touched, and afterwards no two free blocks are adjacent.',
 H1,'every free-list configuration','one fixed configuration is merged',
 [SM],[('merging','quick_mem_memory_merge_d, mem_pool_memory_merge_d')],None,['free lists','free_mem_size'])
p('C27','Containers take memory only from the allocator they are given',
 'A container instantiated with a given allocator obtains and returns memory only through that allocator: in particular no operation of any structure in the static namespace reaches the heap, and no operation of any container reaches the heap except through its own allocator parameter.',
 ['programs','configurations'],'every public operation of every container and every call path from it','one example instantiates one static container; nothing looks at where its memory comes from',
 ['dstruct-static.hpp','dstruct.hpp',V,LL,SL,DL,DQ,BT,BS,AV,H,ST,DS,'spec/DStructSpec.hpp'],[('allocator parameter','AllocSpec<T, Alloc> and the aliases in dstruct-static.hpp')],None,['calls to allocation functions'])
p('C28','Only the port layer depends on the outside world',
 'The library needs no standard library beyond its port layer: no operation of any structure depends on an external function other than those the port provides (allocate, deallocate, assert), with the static-memory port not even on a heap, so that the library can be ported to a bare-metal system by replacing the port only.',
 ['programs','configurations'],'every public operation and both shipped ports','the examples are always linked against a full libc, which hides any such dependency',
 ['port/dstruct-port.h','port/libc/libc-dstruct-port.hpp','port/static-memory/sma-dstruct-port.hpp','core/common.hpp'],[('port interface','dstruct::port::allocate/deallocate, DSTRUCT_PORT_ASSERT')],None,['external symbols referenced'])
p('C29','Read-only access cannot modify a container',
 'Through a const container, or through the read-only iterators and accessors a container offers, an element cannot be assigned to and a modifying operation cannot be called (a program trying to do so does not compile), while every observing operation is usable; keys of a Map are never assignable, and elements of search trees are not assignable through iteration.',
 ['programs'],'every program using the public interface','a test can only contain programs that compile',
 [V,AR,LL,DQ,ST,MP,BS,BT,AV,H,SK,Q,XV],[('const overloads and const iterators','begin/end/operator[]/front/back signatures')],None,['types of the public interface'])
p('C30','Every public operation exists for every container and both memory models',
 'Every operation in the public interface of every container can be instantiated and compiled, for trivial and non-trivial element types, with the default allocator, the static allocator and a user allocator, and the static-memory structures offer the same interface as their dynamic counterparts.',
 ['programs','configurations'],'every (container, operation, element type, allocator) combination','templates are only checked where an example happens to instantiate them',
 ['dstruct.hpp','dstruct-static.hpp',V,AR,SL,DL,DQ,Q,SK,XV,H,BS,AV,MP,DS,ST,SM],[('public member functions','all class templates')],None,['compilation of each instantiation'])
p('C31','Detectable misuse stops the program before memory is touched',
 'Indexing a Vector at or beyond its size, back/pop_back on an empty Vector or Stack, pop on an empty linked list or back of one, top/pop on an empty heap, reading an absent key of a const Map, constructing an element at a null address, and inserting a key that is already present into an AVLTree stop the program through the port assertion (or crash hook) before any memory outside the container is read or written.',
 ['inputs','histories'],'every container state and every out-of-range argument','a failing assertion would end the test program, so no test enters these paths',
 [V,LL,SL,DL,H,MP,AV,CM],[('guards','DSTRUCT_ASSERT / DSTRUCT_CRASH call sites')],None,['abort before access'])
p('C32','for_each and find cover exactly the given range',
 'algorithm::for_each applies its callback to each element of the range exactly once in order, algorithm::find returns the first position holding an equal element or end if there is none and looks no further, distance is the number of increments from begin to end for random-access iterators, and none of them touches anything outside the range, for every iterator type of the library.',
 ['inputs'],'every range length, content and iterator type','for_each is run over one array and one vector',
 ['core/algorithm.hpp','core/Iterator.hpp',V,LL,DQ],[('range loops','algorithm::for_each, algorithm::find, PrimitiveIterator')],None,['visit sequence','returned iterator'])
p('C33','The default orderings are strict weak orders, null pointers first',
 'less and greater are irreflexive, asymmetric and transitive for every element type whose < and > are, are mirror images of each other, and for pointers order a null pointer before (less) or after (greater) every non-null pointer consistently, so that ordered containers of pointers behave.',
 ['inputs'],'every pair and triple of values, in particular null pointers in either or both positions','no test compares null pointers',
 ['core/utils.hpp'],[('comparison functors','less<T>, less<T*>, greater<T>, greater<T*>')],None,['results of less/greater'])
p('C34','Storage stays proportional to what is held',
 'Growing a Vector by push_back at least doubles its capacity when it is full and never reallocates otherwise; pop_back gives back storage when, and only when, less than a third is used and always keeps room for the remaining elements; a Deque extends its block table only when an end has no room and returns blocks once at most a third of them is used.',
 H1,'every size/capacity relation','capacity is never inspected by a test',
 [V,DQ],[('growth policy','Vector::push_back/pop_back, DoubleEndedQueue::push/pop')],None,['capacity','allocation calls'])
p('C35','Everything returned can be allocated again as one block',
 'After every block has been returned to a StaticMemAllocator and memory_merge has been called, a request for the whole memory succeeds.',
 H1,'every sequence of requests followed by returning everything','the example never asks for the whole memory again',
 [SM],[('merging','memory_merge_d')],None,['allocate after merge'])
p('C36','Independent containers may be used from different threads',
 'Operations on distinct containers with the default allocator from different threads do not interfere with one another.',
 ['schedules'],'every interleaving','all tests are single threaded',
 [CM,'port/libc/libc-dstruct-port.hpp'],[('no shared mutable state','function-local statics')],None,['global state written by operations'])
p('C37','Operations meet their complexity',
 'Tree search, insertion and removal take time logarithmic in an AVL tree\'s size, heap operations logarithmic, push_back and deque pushes amortised constant.',
 ['inputs','histories'],'every size','no test measures time',
 [AV,H,V,DQ],[('balancing, sifting, doubling','AVLTree, Heap, Vector')],None,['number of steps'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P: assert len(x['title'])<=80,x['id']; assert x['statement'].count('. ')<=2,(x['id'])
print(len(P))
