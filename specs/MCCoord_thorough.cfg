SPECIFICATION Spec
CONSTANTS
  Nxs = {5, 6, 7, 9}
  Nzs = {1, 2, 4, 7}
INVARIANTS RoundTrip RoundTripZ Edges Derivs
