SPECIFICATION Spec
CONSTANTS Norb = 2 Vals = {0, 1, 3} Ls = {1, 2, 3}
CHECK_DEADLOCK FALSE
INVARIANTS Hermitian SameForm Conserves Rotational SpinAlgebra Densities
