SPECIFICATION Spec
CONSTANTS
  NX = 4
  NZ = 3
  MaxV = 6
INVARIANTS Simple RaysAgree Invariances
