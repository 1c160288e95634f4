SPECIFICATION Spec
CONSTANT N = 6
INVARIANTS NothingLost GoodIsOrdered
CHECK_DEADLOCK FALSE
