SPECIFICATION Spec
CONSTANTS
  Per = 5
  MaxSlices = 4
  MaxRevs = 4
INVARIANTS Monotonic Layout Increasing
