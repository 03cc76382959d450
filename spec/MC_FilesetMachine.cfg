SPECIFICATION Spec
CONSTANTS
  Members <- TwoMembers
  MaxLines = 2
  MaxEdits = 3
INVARIANTS Allowed Agrees Balance
CHECK_DEADLOCK FALSE
