SPECIFICATION Spec
CONSTANTS
  Members <- TwoMembers
  MaxLines = 3
  MaxEdits = 4
INVARIANTS Allowed Agrees Balance
CHECK_DEADLOCK FALSE
