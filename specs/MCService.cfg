SPECIFICATION Spec
CONSTANTS Keys = {1, 2, 3}
 MaxReq = 3
INVARIANTS Outcomes StoreOK Norm2
CHECK_DEADLOCK FALSE
