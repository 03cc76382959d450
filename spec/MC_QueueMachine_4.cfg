SPECIFICATION Spec
CONSTANTS
  N = 4
  Octets = 2
  Ins = 5
  Rem = 5
  Barriers = TRUE
INVARIANTS Allowed Inv Settled
CHECK_DEADLOCK FALSE
