SPECIFICATION Spec
CONSTANTS
  Nys = {1, 2, 3}
  NSlices = {1, 2, 3}
  MaxHops = 3
INVARIANTS Composes Inverse LeavesOnlyAtEnds Decodes
