SPECIFICATION Spec
CONSTANTS
  N = 7
INVARIANTS Refines Answers
CHECK_DEADLOCK FALSE
