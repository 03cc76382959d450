SPECIFICATION Spec
CONSTANTS
  N = 6
INVARIANTS Refines Marked
CHECK_DEADLOCK FALSE
