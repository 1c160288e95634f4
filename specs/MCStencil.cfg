SPECIFICATION Spec
CONSTANTS NX = 5
 NZ = 4
 MaxF = 2
 MaxD = 2
INVARIANTS Conserves ConstantIsZero ExactR ExactR2
CHECK_DEADLOCK FALSE
