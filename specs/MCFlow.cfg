SPECIFICATION Spec
CONSTANTS
  YMax = 3
  MaxLen = 3
INVARIANTS Composes Returns Injective
