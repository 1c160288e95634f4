SPECIFICATION Spec
CONSTANTS MaxN = 7
 M = 1
INVARIANTS Exact2Linear Exact2Quadratic Exact4Quartic PeriodicSum Shifted
CHECK_DEADLOCK FALSE
