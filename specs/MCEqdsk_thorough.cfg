SPECIFICATION Spec
CONSTANTS As = {8, 12, 20}
 Bs = {9, 14}
 Cs = {0, 2}
 Bds = {4000, 6000, 10000}
INVARIANTS Derivs Tangent Reversal Axis
CHECK_DEADLOCK FALSE
