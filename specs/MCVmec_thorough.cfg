SPECIFICATION Spec
CONSTANTS MaxM = 4
 MaxN = 4
 NS = 6
INVARIANTS Symmetric FieldSymmetric Periodic LinearKept Moves HelicalLinear
CHECK_DEADLOCK FALSE
