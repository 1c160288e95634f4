SPECIFICATION Spec
CONSTANTS
  NX = 3
  NZ = 3
  MaxV = 6
INVARIANTS Simple RaysAgree Invariances
