SPECIFICATION Spec
CONSTANTS
  N = 5
INVARIANTS Refines Answers
CHECK_DEADLOCK FALSE
