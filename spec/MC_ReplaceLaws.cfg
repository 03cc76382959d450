SPECIFICATION Spec
CONSTANTS
  Chars = {97, 98}
  MaxT = 6
  MaxO = 2
INVARIANTS Law
CHECK_DEADLOCK FALSE
