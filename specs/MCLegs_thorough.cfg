SPECIFICATION Spec
CONSTANTS
  NCell = 4
  NGuard = 2
INVARIANTS GapFree LegsGapFree RowsHaveCells CellsHaveRows RowCount
