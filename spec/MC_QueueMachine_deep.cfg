SPECIFICATION Spec
CONSTANTS
  N = 4
  Octets = 3
  Ins = 10
  Rem = 10
  Barriers = TRUE
INVARIANTS Allowed Inv Settled
CHECK_DEADLOCK FALSE
