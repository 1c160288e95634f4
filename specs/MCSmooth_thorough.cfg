SPECIFICATION Spec
CONSTANTS N = 18
 MaxC = 3
 Bs = {1, 2, 3}
INVARIANTS FindsRuns Contiguous Equivariant EachCornerInARun
CHECK_DEADLOCK FALSE
