SPECIFICATION Spec
CONSTANTS MaxM = 5
 MaxL = 5
INVARIANTS Periodic Rotation Superposition CurlFree Parity
CHECK_DEADLOCK FALSE
