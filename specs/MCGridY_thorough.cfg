SPECIFICATION Spec
CONSTANTS
  MaxNy = 4
  Lens = {8, 12, 16, 20}
  Span = 17
INVARIANTS Periodic Open OnPlane
PROPERTY Ordered
