SPECIFICATION Spec
CONSTANTS
  MaxOps = 5
  NFields = 3
INVARIANTS ReadOnly Repeatable GridOwn
