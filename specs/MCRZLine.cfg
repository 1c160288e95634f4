SPECIFICATION Spec
CONSTANTS G = 2
 N = 4
 K = 2
INVARIANTS Anticlockwise SamePoints Periodic ThroughPoints Continuous
CHECK_DEADLOCK FALSE
