SPECIFICATION Spec
CONSTANTS
  Octets = {0, 1, 90, 127, 128, 255}
  Chars = {48, 65, 86, 118, 119, 61, 47}
  MaxD = 6
  MaxT = 6
INVARIANTS Inverts Canonical
CHECK_DEADLOCK FALSE
