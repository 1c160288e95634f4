SPECIFICATION Spec
CONSTANTS
  NCell = 3
  NGuard = 2
INVARIANTS GapFree LegsGapFree RowsHaveCells CellsHaveRows RowCount
