SPECIFICATION Spec
CONSTANTS
  Keys = {0,1,2}
  MaxN = 6
INVARIANTS Ordered Refines Answers Peek
CHECK_DEADLOCK FALSE
