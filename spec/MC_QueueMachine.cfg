SPECIFICATION Spec
CONSTANTS
  N = 2
  Octets = 2
  Ins = 3
  Rem = 3
  Barriers = TRUE
INVARIANTS Allowed Inv Settled
CHECK_DEADLOCK FALSE
