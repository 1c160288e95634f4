SPECIFICATION Spec
CONSTANTS
  MaxPieces = 3
  MaxFail = 3
  MaxBudget = 4
INVARIANTS Complete Decided Asked
PROPERTY Ends
