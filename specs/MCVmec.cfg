SPECIFICATION Spec
CONSTANTS MaxM = 2
 MaxN = 2
 NS = 4
INVARIANTS Symmetric FieldSymmetric Periodic LinearKept Moves HelicalLinear
CHECK_DEADLOCK FALSE
