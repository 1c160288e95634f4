SPECIFICATION Spec
CONSTANTS
  MaxPieces = 4
  MaxFail = 4
  MaxBudget = 5
INVARIANTS Complete Decided Asked
PROPERTY Ends
