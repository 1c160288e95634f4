SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  NFields = 3
INVARIANTS ReadOnly Repeatable GridOwn
