SPECIFICATION Spec
CONSTANTS Norb = 3 Vals = {0, 1, 2, 5} Ls = {1, 2, 3}
CHECK_DEADLOCK FALSE
INVARIANTS Hermitian SameForm Conserves Rotational SpinAlgebra Densities
