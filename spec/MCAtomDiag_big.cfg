SPECIFICATION Spec
CONSTANTS N = 3 MaxTerms = 2 MaxOps = 1
INVARIANTS Disjoint Covers Invariant LaddersMapBlocks Hermitian AutoFinest QnConstant SumRule FirstMoment
VIEW View
CHECK_DEADLOCK FALSE
