SPECIFICATION Spec
CONSTANTS
  Per = 4
  MaxSlices = 3
  MaxRevs = 3
INVARIANTS Monotonic Layout Increasing
