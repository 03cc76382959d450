SPECIFICATION Spec
CONSTANTS
  Keys = {0,1,2}
  MaxN = 5
INVARIANTS Ordered Refines Answers Peek
CHECK_DEADLOCK FALSE
