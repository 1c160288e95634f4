SPECIFICATION Spec
CONSTANTS MaxM = 3
 MaxL = 3
INVARIANTS Periodic Rotation Superposition CurlFree Parity
CHECK_DEADLOCK FALSE
