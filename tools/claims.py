T = 'abstract interpretation of the LLVM IR (segmented arrays, typestate of elements and blocks, linear constraints, inductive loop states)'
N = 'Sound over the scenario units for all sizes up to 10^6 within the trusted transfer functions; what cannot be decided is listed as undecided in the evidence and raises no alarm.'
AI = {i: (T, 'proof', N) for i in 'C01 C07 C08 C09 C10 C22 C23 C32 C33 C34'.split()}
AI['C02'] = ('typestate of every element object (raw / alive) by abstract interpretation over all scenarios', 'proof', N)
AI['C03'] = ('ownership and bounds of every block (ledger typestate) by abstract interpretation over all scenarios', 'proof', N)
B = 'Every obligation of every scenario is decided in each abstract state, for all element counts and positions; structures whose walk is not summarised (search trees) are unfolded from an arbitrary one to a bounded depth (thorough: deeper), so deeper paths are not covered. Quiet on anything undecided.'
TB = 'shape analysis by abstract interpretation of the LLVM IR: an arbitrary tree is a symbolic summary (ordered content, height), unfolded on demand'
for i in 'C16 C17 C18 C19 C20'.split(): AI[i] = (TB, 'other', B)
for i in 'C04 C05 C06 C31'.split(): AI[i] = (T, 'other', B)
AI['C02'] = AI['C02'][:1] + ('other', B); AI['C03'] = AI['C03'][:1] + ('other', B)
AI['C13'] = AI['C01']
R = 'abstract interpretation of the LLVM IR over symbolic elements: reachable representation states enumerated to a fixpoint'
for i in ('C11', 'C12'): AI[i] = (R, 'other', 'Every history of any length in which the container never holds more than a stated number of elements (quick 7-14, thorough 10-34), for block sizes 1, 2, 3, 4 and 32: element values and identities symbolic, each reachable combination of block table and end positions analysed once; Stack over Vector for all sizes. Larger fill levels repeat the same block-boundary cases but are not covered.')
AI['C34'] = (T + '; deque: ' + R, 'other', 'Vector for all sizes and capacities; the deque over every history that never holds more than 12-16 (thorough 20-28) elements, block sizes 1, 2, 3.')
P = 'abstract interpretation of the LLVM IR over symbolic elements of unknown order, every ordering decided by linear constraints on their ranks'
AI['C14'] = (P, 'other', 'Every content and every ordering (ties included) of heaps built by pushing or from a range of up to 5 (thorough 6) elements, every history of up to 6 (7) operations, and one to three operations on every heap-ordered arrangement of 7, 8, 15 and 16 elements; larger heaps are not covered.')
AI['C15'] = (P, 'other', 'Every content and every ordering (ties included) of ranges of up to 5 (thorough 6) elements, plus sorted and reversed ranges of 16 and 17; longer ranges are not covered.')
AI['C21'] = ('abstract interpretation of the LLVM IR over symbolic indices', 'other', 'Any number of indices with up to two arbitrary connects; every history of two to four calls over two to four indices and the deep structures over six and eight. Longer histories over more indices are not covered.')
M = 'abstract interpretation of the LLVM IR: an arbitrary allocator state (symbolic block positions and sizes, everything else owned by clients), then one operation; the state predicate is checked again afterwards, for an arbitrary byte'
MB = 'Every state with up to %s free blocks, of any sizes at any positions with any gaps between them (quick lists of 8, 16, 24 bytes plus the pool; up to two blocks with the default lists of 8..128 bytes), every request size. Since the operation is checked to lead from such states to such states, histories of any length are covered as long as they stay within that number of free blocks.'
for i, k in (('C24', 'four'), ('C25', 'four (returns: three)'), ('C26', 'four'), ('C35', 'four')): AI[i] = (M, 'other', MB % k)
AI['C37'] = ('abstract interpretation of the LLVM IR with a comparison counter carried by the comparator; growth steps related to the size', 'other', 'Counts comparisons of tree operations against the height of the (balanced, see C18) tree for every path down to the unfolding depth, of heap operations against the logarithm of the size for heaps of 8, 15 and 31 elements in every order, and decides that each reallocation of a vector (all sizes) or of the block table of a deque (histories of up to 11-22 elements) grows it by a proportion. Other costs are not counted.')
NA = {}
