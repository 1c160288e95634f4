SPECIFICATION Spec
CONSTANT N = 5
INVARIANTS NothingLost GoodIsOrdered
CHECK_DEADLOCK FALSE
