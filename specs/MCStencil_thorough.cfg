SPECIFICATION Spec
CONSTANTS NX = 6
 NZ = 5
 MaxF = 2
 MaxD = 3
INVARIANTS Conserves ConstantIsZero ExactR ExactR2
CHECK_DEADLOCK FALSE
