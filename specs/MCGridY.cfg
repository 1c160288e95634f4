SPECIFICATION Spec
CONSTANTS
  MaxNy = 3
  Lens = {8, 12}
  Span = 9
INVARIANTS Periodic Open OnPlane
PROPERTY Ordered
