SPECIFICATION Spec
CONSTANTS As = {12, 20}
 Bs = {9, 14}
 Cs = {2}
 Bds = {6000, 10000}
INVARIANTS Derivs Tangent Reversal Axis
CHECK_DEADLOCK FALSE
