SPECIFICATION Spec
CONSTANTS
  YMax = 4
  MaxLen = 4
INVARIANTS Composes Returns Injective
