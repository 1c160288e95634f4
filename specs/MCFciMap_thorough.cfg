SPECIFICATION Spec
CONSTANTS
  Nys = {1, 2, 3, 4}
  NSlices = {1, 2, 3, 4}
  MaxHops = 4
INVARIANTS Composes Inverse LeavesOnlyAtEnds Decodes
