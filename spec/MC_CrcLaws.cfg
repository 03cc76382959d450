SPECIFICATION Spec
CONSTANTS
  Octets = {0, 1, 97, 128, 255}
  MaxD = 4
INVARIANTS Division Slicing Splits Detects Repeats
CHECK_DEADLOCK FALSE
