SPECIFICATION Spec
CONSTANTS
  Octets = {0, 1, 90, 128, 255}
  Chars = {65, 66, 47, 43, 61, 122}
  MaxD = 5
  MaxT = 5
INVARIANTS Encodes Decodes Small
CHECK_DEADLOCK FALSE
