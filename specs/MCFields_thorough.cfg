SPECIFICATION Spec
CONSTANTS MaxObj = 3
 MaxLen = 5
 Ks = {"slab", "geqdsk", "geqdsk2", "custom"}
INVARIANT Stable
PROPERTY Isolated
CHECK_DEADLOCK FALSE
