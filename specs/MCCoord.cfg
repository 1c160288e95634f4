SPECIFICATION Spec
CONSTANTS
  Nxs = {5, 7}
  Nzs = {1, 4}
INVARIANTS RoundTrip RoundTripZ Edges Derivs
